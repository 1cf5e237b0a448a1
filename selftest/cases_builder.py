B='book/builder.go'
bug('C01',B,'if amt.Sign() != 0 {','if amt.Sign() > 0 {')
bug('C01',B,'v.Set(amt)\n\t\tb.currAmts[ccy] = v','v.Set(amt)\n\t\tb.currAmts[ccy] = amt')
bug('C01',B,'len(ccys) > 0','len(ccys) > 1')
bug('C01',B,'		v.Add(v, amt)\n','		v.Set(amt)\n')
bug('C01',B,'	if err := b.checkTransaction(); err != nil {\n		return nil, err\n	}\n	return b.Build(), nil','	return b.Build(), nil','book/builder.go','	b.checkAndClearTransaction()\n\n	// Get the','	// Get the')
bug('C01',B,'	// Check and clear current transaction\n	b.checkAndClearTransaction()','	if date != b.currDate {\n b.checkAndClearTransaction()\n}')
bug('C01','cmd/importer/starlark.go','return bbuilder.BuildBook()','b2, _ := bbuilder.BuildBook()\nreturn b2, nil')
same('C01',B,'''	ccys := make([]string, 0, len(b.currAmts))
	for ccy, amt := range b.currAmts {
		if amt.Sign() != 0 {
			ccys = append(ccys, fmt.Sprintf("ccy %s has balance of %s", ccy, amt))
		}
	}
	if len(ccys) > 0 {''','''	ccys := make([]string, 0, len(b.currAmts))
	bad := false
	for ccy := range b.currAmts {
		amt := b.currAmts[ccy]
		if amt.Sign() == 0 {
			continue
		}
		bad = true
			ccys = append(ccys, fmt.Sprintf("ccy %s has balance of %s", ccy, amt))
	}
	if bad {''')
same('C01',B,'''	v, ok := b.currAmts[ccy]
	if ok {
		v.Add(v, amt)
	} else {
		v = big.NewRat(0, 1)
		v.Set(amt)
		b.currAmts[ccy] = v
	}''','''	v := b.currAmts[ccy]
	if v == nil {
		v = new(big.Rat)
		b.currAmts[ccy] = v
	}
	v.Add(amt, v)''')
same('C01',B,'		val:   amt,','		val:   new(big.Rat).Set(amt),')
P='book/book_compact.go'
bug('C10',P,'			p[i].ccy == p[targetIdx].ccy {','			true {')
bug('C10',P,'p[i].payee == p[targetIdx].payee &&','')
bug('C10',P,'p[i].acct == p[targetIdx].acct &&','')
bug('C10',P,'			p[targetIdx].val.Add(p[targetIdx].val, p[i].val)','			p[targetIdx].val.Set(p[i].val)')
bug('C10',P,'b.post = p[:targetIdx+1]','b.post = p[:targetIdx]')
bug('C10',P,'if p[i].val.Num().Cmp(&zero) == 0','if p[i].val.Num().Cmp(&zero) <= 0')
bug('C10',P,'		if targetIdx < i {\n			p[targetIdx] = p[i]','		if targetIdx+1 < i {\n			p[targetIdx] = p[i]')
bug('C10',P,'p[i].date != p[lastIdx].date || p[i].payee != p[lastIdx].payee','p[i].date != p[lastIdx].date')
bug('C10',P,'if i == len(p) || p[i].date != p[lastIdx].date || p[i].payee != p[lastIdx].payee','if i == len(p) || p[i].date != p[lastIdx].date || p[i].payee != p[lastIdx].payee || p[i].tnote != p[lastIdx].tnote')
bug('C10',P,'key := [2]string{p[i].acct, p[i].ccy}','key := [2]string{p[i].acct, ""}')
bug('C10',P,'		p[i].bal.Set(v)','		p[i].bal = v')
bug('C10',P,'v.Add(v, p[i].val)\n		}\n		p[i].bal','v.Set(p[i].val)\n		}\n		p[i].bal')
bug('C10',P,'	b.trans = b.trans[:0]','')
bug('C10','book/posting.go','	if p.ccy < r.ccy {','	if p.acctlevel < r.acctlevel {')
bug('C10','book/posting.go','''	if p.payee < r.payee {
		return true
	} else if p.payee > r.payee {
		return false
	}
''','')
same('C10',P,'''		if p[i].date == p[targetIdx].date &&
			p[i].payee == p[targetIdx].payee &&
			p[i].acct == p[targetIdx].acct &&
			p[i].ccy == p[targetIdx].ccy {
''','''		if sameKey(&p[i], &p[targetIdx]) {
''',P,'func (b *Book) compact() {','''func sameKey(x, y *Posting) bool {
	if x.ccy != y.ccy { return false }
	return x.acct == y.acct && x.date == y.date && x.payee == y.payee
}
func (b *Book) compact() {''')
same('C10',P,'''	for i := 0; i < len(p); i++ {

		if p[i].val.Num().Cmp(&zero) == 0 {
			continue
		}

		if targetIdx < i {
			p[targetIdx] = p[i]
		}

		targetIdx++
	}''','''	_ = zero
	for i := range p {
		if p[i].val.Sign() != 0 {
			p[targetIdx] = p[i]
			targetIdx++
		}
	}''')
same('C10',P,'''	p = b.post
	targetIdx = 0
	var zero big.Int
	for i := 0; i < len(p); i++ {

		if p[i].val.Num().Cmp(&zero) == 0 {
			continue
		}

		if targetIdx < i {
			p[targetIdx] = p[i]
		}

		targetIdx++
	}

	// Shrink again, except exclude targetIdx this time
	b.post = p[:targetIdx]''','''	keep := b.post[:0]
	for _, x := range b.post {
		if x.val.Sign() != 0 {
			keep = append(keep, x)
		}
	}
	b.post = keep''')
same('C10',P,'''	for {
		if i == len(p) || p[i].date != p[lastIdx].date || p[i].payee != p[lastIdx].payee {
			b.trans = append(b.trans, p[lastIdx:i])
			if i == len(p) {
				break
			}
			lastIdx = i
		}
		i++
	}''','''	for ; i < len(p); i++ {
		if p[i].date != p[i-1].date || p[i].payee != p[i-1].payee {
			b.trans = append(b.trans, p[lastIdx:i])
			lastIdx = i
		}
	}
	b.trans = append(b.trans, p[lastIdx:])''')
same('C10',P,'''		key := [2]string{p[i].acct, p[i].ccy}
		v, ok := amts[key]
		if !ok {
			v = big.NewRat(0, 1)
			v.Set(p[i].val)
			amts[key] = v
		} else {
			v.Add(v, p[i].val)
		}
		p[i].bal.Set(v)''','''		post := &p[i]
		key := [2]string{post.ccy, post.acct}
		v := amts[key]
		if v == nil {
			v = new(big.Rat)
			amts[key] = v
		}
		v.Add(v, post.val)
		post.bal.Set(v)''')
same('C10',P,'''	targetIdx := 0

	// Compact - adding up common entries
	p := b.post
	for i := 1; i < len(p); i++ {

		if p[i].date == p[targetIdx].date &&
			p[i].payee == p[targetIdx].payee &&
			p[i].acct == p[targetIdx].acct &&
			p[i].ccy == p[targetIdx].ccy {

			// Add in the numbers
			p[targetIdx].val.Add(p[targetIdx].val, p[i].val)

		} else {

			// Otherwise start up a target.
			targetIdx++

			// If it's not our current index, then initialise it
			if targetIdx < i {
				p[targetIdx] = p[i]
			}
		}
	}

	// Shrink
	b.post = p[:targetIdx+1]
''','''	targetIdx := 0
	merged := make([]Posting, 0, len(b.post))
	for _, x := range b.post {
		if len(merged) > 0 {
			last := merged[len(merged)-1]
			if last.date == x.date && last.payee == x.payee && last.acct == x.acct && last.ccy == x.ccy {
				last.val.Add(last.val, x.val)
				continue
			}
		}
		merged = append(merged, x)
	}
	p := merged
	b.post = merged
''')
bug('C10',P,'			lastIdx = i\n','			lastIdx = i\n			i++\n')
bug('C10',P,'	i := 1\n	for {','	i := 2\n	for {')
NEST='''	for lastIdx < len(p) {
		i = lastIdx + 1
		for i < len(p) && p[i].date == p[lastIdx].date && p[i].payee == p[lastIdx].payee {
			i++
		}
		b.trans = append(b.trans, p[lastIdx:i])
		lastIdx = i
	}
'''
OLDP='''	for {
		if i == len(p) || p[i].date != p[lastIdx].date || p[i].payee != p[lastIdx].payee {
			b.trans = append(b.trans, p[lastIdx:i])
			if i == len(p) {
				break
			}
			lastIdx = i
		}
		i++
	}
'''
same('C10',P,OLDP,NEST)
bug('C10',P,OLDP,NEST.replace('lastIdx + 1','lastIdx + 2'))
bug('C10',P,OLDP,NEST.replace('p[i].date == p[lastIdx].date && p','p'))
