# C34: reclassification
F='book/book_reclassify.go'
I='cmd/importer/import.go'
bug('C34',F,'''		// Ensure only two-postings
		if len(trans) != 2 {
			continue
		}
''','''		if len(trans) < 2 {
			continue
		}
''')
bug('C34',F,'''	for _, trans := range b.Transactions() {
		if len(trans) != 2 {''','''	for _, trans := range b.Transactions() {
		if len(trans) < 2 {''')
bug('C34',F,'''cacct = trans[1].GetAccount()''','''cacct = trans[0].GetAccount()''')
bug('C34',F,'''daccts[cacct] = cnt + 1''','''daccts[cacct] = cnt''')
bug('C34',F,'''				daccts[cacct] = 1
''','''				daccts = map[string]int{cacct: 1}
				payee_mapping_all[trans.GetPayee()] = daccts
''')
bug('C34',F,'''k > max || (k == max && cacct < macct)''','''k > max''')
bug('C34',F,'''k > max || (k == max && cacct < macct)''','''k >= max''')
bug('C34',F,'''k > max || (k == max && cacct < macct)''','''k < max || (k == max && cacct < macct)''')
bug('C34',F,'''k > max || (k == max && cacct < macct)''','''k > max || cacct < macct''')
bug('C34',F,'''				max = k
				macct''','''				max = k + 1
				macct''')
bug('C34',F,'''		max := 0
		macct''','''		max := 1
		macct''')
bug('C34',F,'''d > max_match || (d == max_match && p < max_payee)''','''d > max_match || (d > max_match && p < max_payee)''')
bug('C34',F,'''				max_payee = p
''','''				if max_match > 0.9 {
					max_payee = p
				}
''')
bug('C34',F,'''dist(trans.GetPayee(), p)''','''dist(p, p)''')
bug('C34',F,'''if max_match > 0.0 {''','''if max_match >= 0.0 {''')
bug('C34',F,'''		if max_match > 0.0 {
			trans[ctrans].acct''','''		if max_match > 0.0 {
			ctrans = 1 - ctrans
			trans[ctrans].acct''')
bug('C34',F,'''			trans[ctrans].acctlevel = 0
''','''			trans[ctrans].acctlevel = 0
			trans[ctrans].payee = max_payee
''')
bug('C34',F,'''			trans[ctrans].acctterm = max_cacct
''','')
bug('C34',F,'''range ref.Transactions() {''','''range b.Transactions() {''')
bug('C34',F,'''	for _, trans := range b.Transactions() {''','''	for _, trans := range b.Transactions()[1:] {''')
bug('C34',F,'''		payee_mapping[payee] = macct
''','''		if max > 1 {
			payee_mapping[payee] = macct
		} else {
			payee_mapping[payee] = refacct
		}
''')
bug('C34',F,'''	for _, trans := range b.Transactions() {
''','''	for _, trans := range b.trans {
''')
bug('C34',I,'''if imp.Reclassify {''','''if !imp.Reclassify {''')
bug('C34',I,'''b.ReclassifyByAccount(main, imp.Account''','''b.ReclassifyByAccount(b, imp.Account''')
bug('C34',I,'''b.ReclassifyByAccount(main, imp.Account''','''b.ReclassifyByAccount(main, imp.CounterAccount''')
bug('C34',I,'''if d > 0.5 {''','''if d > 0.05 {''')
bug('C34',I,'''matchr.JaroWinkler(a, b, true)''','''matchr.JaroWinkler(a, a, true)''')
bug('C34',I,'''					return d
				} else {
					return 0.0''','''					return d
				} else {
					return 0.1''')
same('C34',F,'''			cnt, ok := daccts[cacct]
			if !ok {
				daccts[cacct] = 1
			} else {
				daccts[cacct] = cnt + 1
			}
''','''			daccts[cacct]++
''')
same('C34',F,'''		daccts, ok := payee_mapping_all[trans.GetPayee()]
		if ok {
			cnt, ok := daccts[cacct]
			if !ok {
				daccts[cacct] = 1
			} else {
				daccts[cacct] = cnt + 1
			}
		} else {
			payee_mapping_all[trans.GetPayee()] = map[string]int{cacct: 1}
		}
''','''		daccts, ok := payee_mapping_all[trans.GetPayee()]
		if !ok {
			daccts = make(map[string]int)
			payee_mapping_all[trans.GetPayee()] = daccts
		}
		daccts[cacct] += 1
''')
same('C34',F,'''			if k > max || (k == max && cacct < macct) {
				max = k
				macct = cacct
			}
''','''			if k < max || k == max && cacct >= macct {
				continue
			}
			max, macct = k, cacct
''')
same('C34',F,'''		// Get counter account or continue
		ctrans := -1
		if trans[0].GetAccount() == refacct {
			ctrans = 1
		} else if trans[1].GetAccount() == refacct {
			ctrans = 0
		} else {
			continue
		}
''','''		ctrans := -1
		switch refacct {
		case trans[0].GetAccount():
			ctrans = 1
		case trans[1].GetAccount():
			ctrans = 0
		}
		if ctrans < 0 {
			continue
		}
''')
same('C34',F,'''			trans[ctrans].acct = max_cacct
			trans[ctrans].acctlevel = 0
			trans[ctrans].acctterm = max_cacct
''','''			p := &trans[ctrans]
			p.acct, p.acctterm = max_cacct, max_cacct
			p.acctlevel = 0
''')
same('C34',F,'''		max_match := 0.0
		max_payee := ""
		max_cacct := ""
		for p, c := range payee_mapping {
			d := dist(trans.GetPayee(), p)
			if d > max_match || (d == max_match && p < max_payee) {
				max_match = d
				max_payee = p
				max_cacct = c
			}
		}
''','''		max_match, max_cacct := closest(payee_mapping, trans.GetPayee(), dist)
''',F,'''// Reclassify counter''','''func closest(accts map[string]string, payee string, dist func(a, b string) float64) (float64, string) {
	max_match := 0.0
	max_payee := ""
	max_cacct := ""
	for p, c := range accts {
		d := dist(payee, p)
		if d > max_match || (d == max_match && p < max_payee) {
			max_match = d
			max_payee = p
			max_cacct = c
		}
	}
	return max_match, max_cacct
}

// Reclassify counter''')
same('C34',I,'''				d := matchr.JaroWinkler(a, b, true)
				if d > 0.5 {
					return d
				} else {
					return 0.0
				}
''','''				if d := matchr.JaroWinkler(a, b, true); d > 0.5 {
					return d
				}
				return 0
''')
same('C34',I,'''			b.ReclassifyByAccount(main, imp.Account, func(a, b string) float64 {
				d := matchr.JaroWinkler(a, b, true)
				if d > 0.5 {
					return d
				} else {
					return 0.0
				}
			})
''','''			b.ReclassifyByAccount(main, imp.Account, alike)
''',I,'''func (imp *ImportDef) add(''','''func alike(a, b string) float64 {
	d := matchr.JaroWinkler(a, b, true)
	if d <= 0.5 {
		return 0.0
	}
	return d
}

func (imp *ImportDef) add(''')
