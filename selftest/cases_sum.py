# C38: summary reports
A='book/book_accum.go'
bug('C38',A,'''	b.compact()

	// Work''','''	// Work''')
bug('C38',A,'''posts := append([]Posting(nil), b.post...)''','''posts := b.post''')
bug('C38',A,'''posts := append([]Posting(nil), b.post...)''','''posts := append([]Posting(nil), b.post[1:]...)
	if len(b.post) == 0 {
		posts = nil
	}''')
bug('C38',A,'''	posts = addEmptyAccounts(posts)
''','')
bug('C38',A,'''	for i, p := range posts {
		if p.ccy != toCCY {
			accum[p.GetAccount()] = true
		}
''','''	for i, p := range posts {
''')
bug('C38',A,'''			accum[key] = true
''','''			if posts[i-1].GetCCY() == p.GetCCY() {
				accum[key] = true
			}
''')
bug('C38',A,'''		if i == len(posts) || posts[i].date != posts[transIdx].date || posts[i].payee != posts[transIdx].payee {''','''		if i == len(posts) || posts[i].date != posts[transIdx].date {''')
bug('C38',A,'''		if i == len(posts) || posts[i].date != posts[transIdx].date || posts[i].payee != posts[transIdx].payee {

			acct''','''		if i == len(posts) || posts[i].date != posts[transIdx].date || posts[i].payee == posts[transIdx].payee {

			acct''')
bug('C38',A,'''				lkey := k + divider
''','''				lkey := k
''')
bug('C38',A,'''cpost.acct != k && !strings''','''!strings''')
bug('C38',A,'''				v := big.NewRat(0, 1)
				for''','''				v := big.NewRat(0, 1)
				if o, ok := acctval[k]; ok {
					v.Set(o)
				}
				for''')
bug('C38',A,'''					v.Add(v, cpost.val)''','''					v.Sub(v, cpost.val)''')
bug('C38',A,'''			for k, _ := range accum {
				lkey := k + divider
				v := big.NewRat(0, 1)''','''			v := big.NewRat(0, 1)
			for k, _ := range accum {
				lkey := k + divider''')
bug('C38',A,'''					ccy:       toCCY,''','''					ccy:       posts[transIdx].ccy,''')
bug('C38',A,'''					tnote:     posts[transIdx].tnote,
					acct:      k,''','''					acct:      k,''')
bug('C38',A,'''					payee:     posts[transIdx].payee,
					tnote:     posts[transIdx].tnote,
					acct:      k,''','''					payee:     posts[0].payee,
					tnote:     posts[transIdx].tnote,
					acct:      k,''')
bug('C38',A,'''			cposts = cposts[:0]
''','')
bug('C38',A,'''			transIdx = i
		}
''','''			transIdx = i + 1
		}
''')
bug('C38',A,'''r, _ := b.GetPrice(p.date, p.ccy, toCCY)''','''r, _ := b.GetPrice(posts[len(posts)-1].date, p.ccy, toCCY)''')
bug('C38',A,'''r, _ := b.GetPrice(p.date, p.ccy, toCCY)''','''r, _ := b.GetPrice(p.date, toCCY, p.ccy)''')
bug('C38',A,'''			ncpost.val = big.NewRat(0, 1)
			r, _''','''			r, _''')
bug('C38',A,'''		if p.ccy != toCCY {
			ncpost.val''','''		if p.ccy != toCCY && p.ccy != "" {
			ncpost.val''')
bug('C38',A,'''		eposts = append(eposts, p)
''','''		if p.val.Sign() != 0 {
			eposts = append(eposts, p)
		}
''')
bug('C38',A,'''		p := posts[i]
''','''		p := posts[i]
		p.note = ""
''')
bug('C38',A,'''	eposts = append(eposts, sposts...)
''','''	if len(accum) > 1 {
		eposts = append(eposts, sposts...)
	}
''')
bug('C38',A,'''if hidden != "" && p.GetAccount() == hidden {''','''if hidden != "" && strings.HasPrefix(p.GetAccount(), hidden) {''')
bug('C38',A,'''			nval := big.NewRat(0, 1)
			nval.Neg(p.val)
			p.val = nval
''','''			p.val.Neg(p.val)
''')
bug('C38',A,'''credit != nil && credit.MatchString(p.GetAccount())''','''credit != nil && p.acctlevel > 0 && credit.MatchString(p.GetAccount())''')
bug('C38',A,'''credit != nil && credit.MatchString(p.GetAccount())''','''credit != nil && credit.MatchString(p.acctterm)''')
bug('C38',A,'''		if i == len(eposts) || eposts[i].date != eposts[lastIdx].date || eposts[i].payee != eposts[lastIdx].payee {''','''		if i == len(eposts) || eposts[i].date != eposts[lastIdx].date {''')
bug('C38',A,'''			(acctList[scanIdx].acct == posts[postIdx].GetAccount() && acctList[scanIdx].ccy == posts[postIdx].ccy) {''','''			(acctList[scanIdx].acct == posts[postIdx].GetAccount()) {''')
bug('C38',A,'''				ccy:   acctList[scanIdx].ccy,''','''				ccy:   acctList[0].ccy,''')
bug('C38',A,'''			transIdx = postIdx
			scanIdx = 0
''','''			transIdx = postIdx
			scanIdx = 1
''')
bug('C38',A,'''		if postIdx == postEnd {
			break
		}

		// If''','''		if postIdx+1 >= postEnd {
			break
		}

		// If''')
bug('C38',A,'''		// Append missing expected account and try again.
''','''		if postIdx == postEnd {
			break
		}
''')
bug('C38',A,'''		idx := AccountType{p.GetAccount(), p.GetCCY()}''','''		idx := AccountType{p.GetAccount(), ""}''')
bug('C38',A,'''		if acctList[i].ccy < acctList[j].ccy {''','''		if acctList[i].ccy > acctList[j].ccy {''')
bug('C38',A,'''				last = i + len(divider)''','''				last = i + 1''')
bug('C38',A,'''	return len(o) - 1, acct[last:]''','''	return len(o), acct[last:]''')
bug('C38',A,'''eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, true, divider)''','''eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, false, divider)''')
bug('C38',A,'''for j := transIdx; j < i; j++ {''','''for j := transIdx + 1; j < i; j++ {''')
bug('C38',A,'''		(i == len(right) || strings.HasPrefix(right[i:], divider)) {''','''		(i <= len(right) || strings.HasPrefix(right[i:], divider)) {''')
bug('C38',A,'''		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
			prefix = i
		}
''','''		prefix = i
''')
bug('C38',A,'''		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
			prefix = i
		}
''','''		if prefix == 0 && strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
			prefix = i
		}
''')
bug('C38',A,'''			if strings.HasPrefix(acct[i:], divider) && accts[acct[:i]] {''','''			if strings.HasPrefix(acct[i:], divider) {''')
bug('C38',A,'''		accts[p.GetAccount()] = true
''','''		if p.val.Sign() != 0 {
			accts[p.GetAccount()] = true
		}
''')
bug('C38',A,'''		for i := 0; i < len(acct); i++ {
			if strings.HasPrefix(acct[i:], divider) && accts[acct[:i]] {
				accum[acct[:i]] = true
			}
''','''		for i := 0; i < len(acct); i++ {
			if strings.HasPrefix(acct[i:], divider) && accts[acct[:i]] {
				accum[acct[:i]] = true
				break
			}
''')
same('C38',A,'''posts := append([]Posting(nil), b.post...)''','''posts := make([]Posting, len(b.post))
	copy(posts, b.post)''')
same('C38',A,'''		if hidden != "" && p.GetAccount() == hidden {
			continue
		}
''','''		if p.GetAccount() == hidden && len(hidden) > 0 {
			continue
		}
''')
same('C38',A,'''	for {
		// If this is different than previous, accumulate
		if i''','''	for ; ; i++ {
		// If this is different than previous, accumulate
		if i''',A,'''		cposts = append(cposts, ncpost)

		i++
''','''		cposts = append(cposts, ncpost)
''')
same('C38',A,'''					if cpost.acct != k && !strings.HasPrefix(cpost.acct, lkey) {
						continue
					}
					v.Add(v, cpost.val)''','''					if cpost.acct == k || strings.HasPrefix(cpost.acct, lkey) {
						v = v.Add(cpost.val, v)
					}''')
same('C38',A,'''			nval := big.NewRat(0, 1)
			nval.Neg(p.val)
			p.val = nval
''','''			p.val = new(big.Rat).Neg(p.val)
''')
same('C38',A,'''		ncpost := PostKey{
			acct: p.acct,
			val:  p.val,
		}

		// Adjust currency if needed
		if p.ccy != toCCY {
			ncpost.val = big.NewRat(0, 1)
			r, _ := b.GetPrice(p.date, p.ccy, toCCY)
			ncpost.val.Mul(p.val, r)
		}
''','''		val := p.val
		if p.ccy != toCCY {
			r, _ := b.GetPrice(p.date, p.ccy, toCCY)
			val = new(big.Rat).Mul(r, p.val)
		}
		ncpost := PostKey{p.acct, val}
''')
same('C38',A,'''func splitByStrings(''','''func levelOf(''',A,'''splitByStrings(accum, eposts''','''levelOf(accum, eposts''',A,'''splitByStrings(accum, k''','''levelOf(accum, k''')
