K='book/book.go'
bug('C08',K,'	i.Neg(factor)\n','	i.Set(factor)\n')
bug('C08',K,'			newposts = append(newposts, p.byAcctFactor(nacct, factor))','			newposts = append(newposts, p.byAcctFactor(nacct, big.NewRat(1,1)))')
bug('C08',K,'newposts = append(newposts, p.byFactor(big.NewRat(-1, 1)))','newposts = append(newposts, p.byAcctFactor(nacct, big.NewRat(-1, 1)))')
bug('C08',K,'		d := p.date\n','		d := p.date.FloorDiff(period, 1)\n')
bug('C08',K,'d = d.FloorDiff(period, 1)','d = d.FloorDiff(period, int(j))')
bug('C08',K,'j < periods; j++','j < periods-1; j++')
bug('C08',K,'p.byAcctDateFactor(p.GetAccount(), d, big.NewRat(1, periods))','p.byAcctDateFactor(p.GetAccount(), d, big.NewRat(1, periods+1))')
bug('C08',K,'if !re.MatchString(p.GetAccount()) {\n			continue','if !re.MatchString(p.GetAccount()) {\n			break')
bug('C08',K,'newposts := b.post\n	for _, p := range b.post {\n\n','newposts := b.post[:0]\n	for _, p := range b.post {\n\n')
bug('C08','book/posting.go','	new_post.date = new_date\n','')
bug('C08','book/posting.go','	r.Mul(p.val, factor)\n','	r.Quo(p.val, factor)\n')
same('C08',K,'''		d := p.date
		for j := int64(0); j < periods; j++ {
''','''		d := p.date
		for j := periods; j > 0; j-- {
''')
same('C08',K,'''	for _, p := range b.post {
		if re.MatchString(p.GetAccount()) {
			newposts = append(newposts, p.byFactor(&i))
			nacct := re.ReplaceAllString(p.GetAccount(), replace_acct)
			newposts = append(newposts, p.byAcctFactor(nacct, factor))
		}
	}
''','''	for k := 0; k < len(b.post); k++ {
		p := b.post[k]
		acct := p.acct
		if !re.MatchString(acct) {
			continue
		}
		to := p.byAcctFactor(re.ReplaceAllString(acct, replace_acct), factor)
		newposts = append(newposts, to, p.byFactor(&i))
	}
''')
same('C08',K,'''		newposts = append(newposts, p.byFactor(big.NewRat(-1, 1)))
		newposts = append(newposts, p.byAcctFactor(nacct, big.NewRat(1, 1)))

		// Roll it forward.
		d := p.date
		for j := int64(0); j < periods; j++ {

			// Move part balance back again
			newposts = append(newposts, p.byAcctDateFactor(nacct, d, big.NewRat(-1, periods)))
			newposts = append(newposts, p.byAcctDateFactor(p.GetAccount(), d, big.NewRat(1, periods)))

			// Move forward by the period
			d = d.FloorDiff(period, 1)
		}
''','''		newposts = append(newposts, p.byFactor(big.NewRat(-1, 1)))
		newposts = append(newposts, p.byAcctFactor(nacct, big.NewRat(1, 1)))
		newposts = rollForward(newposts, p, nacct, period, periods)
''',K,'// Create Adjust Postings','''func rollForward(list []Posting, p Posting, nacct string, period string, periods int64) []Posting {
		part := big.NewRat(1, periods)
		back := new(big.Rat).Neg(part)
		d := p.date
		var j int64
		for j < periods {
			list = append(list, p.byAcctDateFactor(nacct, d, back))
			list = append(list, p.byAcctDateFactor(p.GetAccount(), d, part))
			d = d.FloorDiff(period, 1)
			j++
		}
		return list
}

// Create Adjust Postings''')
