# C31: accounts and currencies listed
B='book/book.go'; A='cmd/accounts/accounts.go'; Y='cmd/currencies/currencies.go'
bug('C31',B,'''	b.compact()
	lbal := make''','''	lbal := make''')
bug('C31',B,'''lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()''','''lbal[[2]string{p.GetAccount(), ""}] = p.GetBalance()''')
bug('C31',B,'''lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()''','''lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetAmount()''')
bug('C31',B,'''		if re.MatchString(p.GetAccount()) {
			lbal''','''		if re.MatchString(p.GetAccount()) && p.GetBalance().Sign() != 0 {
			lbal''')
bug('C31',B,'''		if re.MatchString(p.GetAccount()) {
			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
		}''','''		if re.MatchString(p.GetAccount()) {
			if _, ok := lbal[[2]string{p.GetAccount(), p.GetCCY()}]; !ok {
				lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
			}
		}''')
bug('C31',B,'''(!onlyWithBalance || bal.Sign() != 0) && !found[key[0]]''','''(!onlyWithBalance || bal.Sign() > 0) && !found[key[0]]''')
bug('C31',B,'''(!onlyWithBalance || bal.Sign() != 0) && !found[key[0]]''','''(onlyWithBalance || bal.Sign() != 0) && !found[key[0]]''')
bug('C31',B,'''		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
''','''		if found[key[0]] {
			continue
		}
		found[key[0]] = true
		if !onlyWithBalance || bal.Sign() != 0 {
''')
bug('C31',B,'''			found[key[0]] = true
''','''			found[key[1]] = true
''')
bug('C31',B,'''			accts = append(accts, key[0])
''','''			accts = append(accts, key[1])
''')
bug('C31',B,'''	sort.Strings(accts)
	return accts, nil''','''	return accts, nil''')
bug('C31',B,'''	sort.Strings(accts)
	return accts, nil''','''	sort.Sort(sort.Reverse(sort.StringSlice(accts)))
	return accts, nil''')
bug('C31',B,'''	for _, p := range b.post {
		if re.MatchString(p.GetAccount()) {
			lbal''','''	for _, p := range b.post[1:] {
		if re.MatchString(p.GetAccount()) {
			lbal''')
same('C31',B,'''	sort.Strings(accts)
	return accts, nil''','''	sort.Slice(accts, func(i, j int) bool { return accts[i] < accts[j] })
	return accts, nil''')
same('C31',B,'''	sort.Strings(accts)
	return accts, nil''','''	sort.Sort(sort.StringSlice(accts))
	return accts, nil''')
same('C31',B,'''		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
			accts = append(accts, key[0])
		}''','''		acct := key[0]
		if found[acct] {
			continue
		}
		if onlyWithBalance && bal.Sign() == 0 {
			continue
		}
		accts = append(accts, acct)
		found[acct] = true''')
same('C31',B,'''	found := make(map[string]bool)
	for key, bal := range lbal {
		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
''','''	found := make(map[string]struct{})
	for key, bal := range lbal {
		_, ok := found[key[0]]
		if (!onlyWithBalance || bal.Sign() != 0) && !ok {
			found[key[0]] = struct{}{}
''')
same('C31',B,'''		if re.MatchString(p.GetAccount()) {
			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
		}''','''		if !re.MatchString(p.GetAccount()) {
			continue
		}
		lbal[[2]string{p.GetAccount(), p.GetCCY()}] = big.NewRat(0, 1).Set(p.GetBalance())''')
same('C31',B,'''	lbal := make(map[[2]string]*big.Rat)
	accts := make([]string, 0, 10)
	for _, p := range b.post {
		if re.MatchString(p.GetAccount()) {
			lbal[[2]string{p.GetAccount(), p.GetCCY()}] = p.GetBalance()
		}
	}
''','''	type acctCCY struct{ acct, ccy string }
	last := make(map[acctCCY]*big.Rat)
	accts := make([]string, 0, 10)
	for i := range b.post {
		p := &b.post[i]
		if re.MatchString(p.acct) {
			last[acctCCY{p.acct, p.ccy}] = p.bal
		}
	}
''',B,'''	for key, bal := range lbal {
		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
			accts = append(accts, key[0])''','''	for key, bal := range last {
		if (!onlyWithBalance || bal.Sign() != 0) && !found[key.acct] {
			found[key.acct] = true
			accts = append(accts, key.acct)''')
# the sets as keys of a map
same('C31',B,'''		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
			accts = append(accts, key[0])
		}
	}
''','''		if !onlyWithBalance || bal.Sign() != 0 {
			found[key[0]] = true
		}
	}
	for acct := range found {
		accts = append(accts, acct)
	}
''')
bug('C31',B,'''		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
			accts = append(accts, key[0])
		}
	}
''','''		found[key[0]] = !onlyWithBalance || bal.Sign() != 0
	}
	for acct, ok := range found {
		if ok {
			accts = append(accts, acct)
		}
	}
''')
bug('C31',A,'''b.Accounts(regex, !app.All)''','''b.Accounts(regex, app.All)''')
bug('C31',A,'''b.Accounts(regex, !app.All)''','''b.Accounts(regex, true)''')
bug('C31',A,'''		regex := "^.*$"''','''		regex := "^[A-Z].*$"''')
bug('C31',A,'''		if len(args) == 1 {
			regex''','''		if len(args) == 2 {
			regex''')
bug('C31',A,'''			for _, acct := range accts {''','''			for _, acct := range accts[1:] {''')
bug('C31',A,'''				rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(acct)})''','''				if len(acct) > 0 && acct[0] != '_' {
					rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(acct)})
				}''')
bug('C31',A,'''			return bp.PrintJSON(accts, true)''','''			return bp.PrintJSON(accts[:0], true)''')
same('C31',A,'''		regex := "^.*$"
		if len(args) == 1 {
			regex = args[0]
		}
''','''		var regex string
		if len(args) > 0 {
			regex = args[0]
		}
''')
same('C31',A,'''			for _, acct := range accts {
				rows = append(rows, []rapp.ColumnValue{rapp.ColumnString(acct)})''','''			for i := range accts {
				var row []rapp.ColumnValue
				row = append(row, rapp.ColumnString(accts[i]))
				rows = append(rows, row)''')
bug('C31',Y,'''		sort.Strings(ccys)
''','''		sort.Strings(nil)
''')
bug('C31',Y,'''		for _, ccy := range ccys {
''','''		for _, ccy := range ccys[:1] {
''')
bug('C31',Y,'''			ccys = append(ccys, ccy)
''','''			if decs[ccy] > 0 {
				ccys = append(ccys, ccy)
			}
''')
bug('C31',Y,'''ccy, decs[ccy]); err''','''ccy, decs[ccys[0]]); err''')
same('C31',Y,'''fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\\n", ccy, decs[ccy]); err''','''fmt.Fprintln(cmd.OutOrStdout(), ccy, "=>", decs[ccy], "decimals"); err''')
