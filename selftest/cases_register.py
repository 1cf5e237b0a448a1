# Cases for the register: each bug must be reported, each change of form must be quiet.

R = 'book/registry.go'
T = 'book/transaction.go'
S = 'cmd/register/show_register.go'

bug('C35', R, '		for _, p := range trans {\n\n			if !re.M', '		for _, p := range trans[1:] {\n\n			if !re.M')
bug('C35', R, 'for _, trans := range b.trans {\n', 'for k, trans := range b.trans {\n		if k == 7 {\n			continue\n		}\n')
bug('C35', R, '				if tp.GetAmount().Sign() == p.GetAmount().Sign() {\n					continue\n				}\n', '')
bug('C35', R, '				if tp.GetCCY() != p.GetCCY() {\n					continue\n				}\n', '')
bug('C35', R, '				if tp.GetAccount() == p.GetAccount() {\n					continue\n				}\n', '')
bug('C35', R, 'tp.GetAmount().Sign() == p.GetAmount().Sign()', 'tp.GetAmount().Cmp(p.GetAmount()) >= 0')
bug('C35', R, 'camts = append(camts, big.NewRat(0, 1).Set(tp.GetAmount()))', 'camts = append(camts, tp.GetAmount())')
bug('C35', R, 'sumamt.Add(sumamt, tp.GetAmount())', 'sumamt.Set(tp.GetAmount())')
bug('C35', R, 'len(caccts) > 1 && !split', 'len(caccts) > 1 && split')
bug('C35', R, 'len(caccts) > 1 && !split', 'len(caccts) > 0 && !split')
bug('C35', R, 'len(caccts) > 1 && !split', 'len(caccts) > 2 && !split')
bug('C35', R, 'camts[0] = big.NewRat(0, 1).Set(p.GetAmount())', 'camts[0] = big.NewRat(0, 1).Neg(sumamt)')
bug('C35', R, 'camts[0] = big.NewRat(0, 1).Set(p.GetAmount())', 'camts[0] = p.GetAmount()')
bug('C35', R, 'strings.Join(caccts, ";")', 'strings.Join(caccts[1:], ";")')
bug('C35', R, '				sumamt.Inv(sumamt)\n', '				sumamt.Inv(sumamt)\n				sumamt.Abs(sumamt)\n')
bug('C35', R, 'camts[i] = camts[i].Mul(camts[i], sumamt)', 'camts[i] = camts[i].Quo(camts[i], sumamt)')
bug('C35', R, 'for i, _ := range camts {', 'for i, _ := range camts[1:] {')
bug('C35', R, '				bals[p.GetCCY()] = bal\n', '')
bug('C35', R, 'bals[p.GetCCY()]\n			if !ok {\n				bal = big.NewRat(0, 1)\n				bals[p.GetCCY()]', 'bals[p.GetAccount()]\n			if !ok {\n				bal = big.NewRat(0, 1)\n				bals[p.GetAccount()]')
bug('C35', R, 'bal = big.NewRat(0, 1)\n', 'bal = big.NewRat(0, 1).Set(p.GetAmount())\n')
bug('C35', R, 'bal = big.NewRat(0, 1)\n', 'bal = baseBal\n')
bug('C35', R, 'bal = bal.Add(bal, camts[i])', 'bal = bal.Sub(bal, camts[i])')
bug('C35', R, 'bal = bal.Add(bal, camts[i])', 'bal = bal.Add(bal, p.GetAmount())')
bug('C35', R, 'Balance:        big.NewRat(0, 1).Set(bal)', 'Balance:        bal')
bug('C35', R, 'BaseBalance:    big.NewRat(0, 1).Set(baseBal)', 'BaseBalance:    baseBal')
bug('C35', R, 'BaseBalance:    big.NewRat(0, 1).Set(baseBal)', 'BaseBalance:    big.NewRat(0, 1).Set(bal)')
bug('C35', R, 'baseBal = baseBal.Add(baseBal, baseAmt)', 'baseBal = baseBal.Add(baseBal, camts[i])')
bug('C35', R, 'baseAmt = big.NewRat(0, 1).Mul(r, camts[i])', 'baseAmt = camts[i].Mul(r, camts[i])')
bug('C35', R, 'baseAmt = big.NewRat(0, 1).Mul(r, camts[i])', 'baseAmt = big.NewRat(0, 1).Mul(r, p.GetAmount())')
bug('C35', R, 'baseAmt = big.NewRat(0, 1).Mul(r, camts[i])', 'baseAmt = r.Mul(r, camts[i])')
bug('C35', R, 'trans.InferRate(baseccy, p.GetCCY())', 'trans.InferRate(p.GetCCY(), baseccy)')
bug('C35', R, 'b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)', 'b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())')
bug('C35', R, 'baseSource = PriceTypeTrade', 'baseSource = PriceTypeExact')
bug('C35', R, 'Note:           p.GetPostNote()', 'Note:           p.GetTransactionNote()')
bug('C35', R, 'CounterAccount: v,', 'CounterAccount: v[:0] + caccts[0],')
bug('C35', R, 'Account:        p.GetAccount()', 'Account:        trans[0].GetAccount()')
bug('C35', R, 'Amount:         camts[i]', 'Amount:         camts[0]')
bug('C35', R, '				baseBal = baseBal.Add(baseBal, baseAmt)\n', '				if baseSource != PriceTypeTrade {\n					baseBal = baseBal.Add(baseBal, baseAmt)\n				}\n')
bug('C35', R, '	// Compact the book first\n	b.compact()\n', '')
bug('C35', R, '			sumamt := big.NewRat(0, 1)\n', '', R, '	baseBal := big.NewRat(0, 1)\n', '	baseBal := big.NewRat(0, 1)\n	sumamt := big.NewRat(0, 1)\n')

bug('C35', T, '(i-lastAccount) == 2 && (t[i-1].val.Sign()+t[i-2].val.Sign()) == 0', '(i-lastAccount) == 2')
bug('C35', T, '(i-lastAccount) == 2 && (t', 'i >= 2 && (t')
bug('C35', T, 'if t[i-1].ccy == base && t[i-2].ccy == unit {\n				rate.Quo(t[i-1].val, t[i-2].val)', 'if t[i-1].ccy == base && t[i-2].ccy == unit {\n				rate.Quo(t[i-2].val, t[i-1].val)')
bug('C35', T, 't[i-1].ccy == base && t[i-2].ccy == unit', 't[i-1].ccy == base')
bug('C35', T, '				rate.Neg(rate)\n				return rate\n			} else if', '				return rate\n			} else if')
bug('C35', T, 'if lastAccount == -1 || t[lastAccount].acct != t[i].acct {', 'if lastAccount == -1 || t[lastAccount].acct != t[i].acct || i-lastAccount == 2 {')
bug('C35', T, '		if i == len(t) {\n			break\n		}\n\n		// Reset', '		if i == len(t)-1 {\n			break\n		}\n\n		// Reset')
bug('C35', T, 't[lastAccount].acct != t[i].acct {', 't[i-1].acct != t[i].acct && i > 1 {')

bug('C35', S, '[0:count]', '[0:count-1]')
bug('C35', S, 'count > 0 && len(report) > count', 'count > 0 && len(report) < count')
bug('C35', S, 'count > 0 && len(report) > count', 'count >= 0 && len(report) > count')
bug('C35', S, '[len(report)+count : len(report)]', '[len(report)+count+1 : len(report)]')
bug('C35', S, '[len(report)+count : len(report)]', '[0:-count]')
bug('C35', S, 'if !asc {', 'if asc {')
bug('C35', S, 'ndata[len(report)-i-1] = (report)[i]', 'ndata[i] = (report)[i]')
bug('C35', S, 'for i := 0; i < len(report); i++ {', 'for i := 1; i < len(report); i++ {')
bug('C35', S, 'ndata := make([]*book.RegistryEntry, len(report), len(report))', 'ndata := report')

# changes of form
same('C35', R, '''				if tp.GetAccount() == p.GetAccount() {
					continue
				}
				if tp.GetAmount().Sign() == p.GetAmount().Sign() {
					continue
				}
				if tp.GetCCY() != p.GetCCY() {
					continue
				}
''', '''				if tp.GetCCY() != p.GetCCY() || tp.GetAccount() == p.GetAccount() {
					continue
				}
				if s := p.GetAmount().Sign(); tp.GetAmount().Sign() == s {
					continue
				}
''')
same('C35', R, '''			if !re.MatchString(p.GetAccount()) {
				continue
			}
''', '''			acct := p.GetAccount()
			if m := re.MatchString(acct); !m {
				continue
			}
''')
same('C35', R, '''				// Invert the total
				sumamt.Inv(sumamt)

				// Adjust the amounts
				for i, _ := range camts {
					camts[i] = camts[i].Mul(camts[i], p.GetAmount())
					camts[i] = camts[i].Mul(camts[i], sumamt)
				}
''', '''				for i := range camts {
					share := big.NewRat(0, 1).Quo(camts[i], sumamt)
					camts[i] = share.Mul(share, p.GetAmount())
				}
''')
same('C35', R, '''				for i, _ := range camts {
					camts[i] = camts[i].Mul(camts[i], p.GetAmount())
					camts[i] = camts[i].Mul(camts[i], sumamt)
				}
''', '''				for _, a := range camts {
					a.Mul(a, p.GetAmount()).Mul(a, sumamt)
				}
''')
same('C35', R, '''				data = append(data, &RegistryEntry{
					Date:           trans.GetDate(),
''', '''				e := &RegistryEntry{
					Date:           trans.GetDate(),
''', R, '''					BaseBalance:    big.NewRat(0, 1).Set(baseBal),
				})
''', '''					BaseBalance:    big.NewRat(0, 1).Set(baseBal),
				}
				data = append(data, e)
''')
same('C35', R, '''					r := trans.InferRate(baseccy, p.GetCCY())
					if r != nil {
						baseSource = PriceTypeTrade
					} else {
						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
					}
''', '''					r, src := b.rateOf(trans, p.GetCCY(), baseccy)
					baseSource = src
''', R, '''func (re RegistryEntry) MarshalJSON()''', '''func (b *Book) rateOf(t Transaction, ccy, base string) (*big.Rat, PriceType) {
	if r := t.InferRate(base, ccy); r != nil {
		return r, PriceTypeTrade
	}
	return b.GetPrice(t.GetDate(), ccy, base)
}

func (re RegistryEntry) MarshalJSON()''')
same('C35', R, 'if len(caccts) > 1 && !split {', 'if !split && len(caccts) >= 2 {')
same('C35', R, '''			bal, ok := bals[p.GetCCY()]
			if !ok {
				bal = big.NewRat(0, 1)
				bals[p.GetCCY()] = bal
			}
''', '''			if _, ok := bals[p.GetCCY()]; !ok {
				bals[p.GetCCY()] = big.NewRat(0, 1)
			}
			bal := bals[p.GetCCY()]
''')
same('C35', R, '''			// Get the balance for the currency
''', '''			if len(caccts) == 0 {
				continue
			}

			// Get the balance for the currency
''')
same('C35', R, 'data := make([]*RegistryEntry, 0, 100)', 'var data []*RegistryEntry')
same('C35', T, '''			if t[i-1].ccy == base && t[i-2].ccy == unit {
				rate.Quo(t[i-1].val, t[i-2].val)
				rate.Neg(rate)
				return rate
			} else if t[i-1].ccy == unit && t[i-2].ccy == base {
				rate.Quo(t[i-2].val, t[i-1].val)
				rate.Neg(rate)
				return rate
			}
''', '''			a, b := t[i-1], t[i-2]
			if a.ccy != base {
				a, b = b, a
			}
			if a.ccy == base && b.ccy == unit {
				return rate.Neg(rate.Quo(a.val, b.val))
			}
''')
same('C35', T, '''	lastAccount := -1
	i := 0
	for {
		// Check if two consecutive match accounts
		// and are in opposite directions
		if (i''', '''	lastAccount := -1
	for i := 0; ; i++ {
		// Check if two consecutive match accounts
		// and are in opposite directions
		if (i''', T, '''			lastAccount = i
		}

		i++
	}

	return nil''', '''			lastAccount = i
		}
	}

	return nil''')
same('C35', S, '''		ndata := make([]*book.RegistryEntry, len(report), len(report))
		for i := 0; i < len(report); i++ {
			ndata[len(report)-i-1] = (report)[i]
		}
''', '''		n := len(report)
		ndata := make([]*book.RegistryEntry, n)
		for i, e := range report {
			ndata[n-1-i] = e
		}
''')
same('C35', S, '''		ndata := make([]*book.RegistryEntry, len(report), len(report))
		for i := 0; i < len(report); i++ {
			ndata[len(report)-i-1] = (report)[i]
		}
''', '''		ndata := make([]*book.RegistryEntry, 0, len(report))
		for i := len(report) - 1; i >= 0; i-- {
			ndata = append(ndata, report[i])
		}
''')
same('C35', S, '''	if count > 0 && len(report) > count {
		report = (report)[0:count]
	}

	// Restrict count counting from end
	if count < 0 && len(report) > (-1*count) {
		report = (report)[len(report)+count : len(report)]
	}
''', '''	if n := len(report); count > 0 && count < n {
		report = report[:count]
	} else if count < 0 && -count < n {
		report = report[n+count:]
	}
''')
