U='book/book_utils.go'; B='book/book.go'
bug('C12',U,'if alt != "" && !re.MatchString(acct)','if alt != "" && re.MatchString(acct)')
bug('C12',U,'		if replace != "" {\n			return re','		if alt == "" && replace != "" {\n			return re')
bug('C12',U,'		if replace != "" {\n			return re.ReplaceAllString(acct, replace)\n		}\n		return acct','		return re.ReplaceAllString(acct, replace)')
bug('C12',U,'re.ReplaceAllString(acct, replace)','re.ReplaceAllLiteralString(acct, replace)')
bug('C12',B,'amap[p[i].acct] = n\n','amap[p[0].acct] = n\n')
bug('C12',B,'		p[i].acctterm = n\n','')
bug('C12',B,'		p[i].acctlevel = 0\n		p[i].acctterm','		p[i].acctterm')
bug('C12',B,'		p[i].acctterm = n\n	}\n	b.compact()','		p[i].acctterm = n\n	}')
bug('C12',U,'one := big.NewRat(1, 1)','one := big.NewRat(1, 2)')
bug('C12',U,'newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)','newpair.CCY = re.ReplaceAllString(ccypair.Unit, replace)')
bug('C12',U,'nprices.addPrice(price.date, newpair.Unit, newpair.CCY, price.val)','nprices.addPrice(price.date, newpair.Unit, ccypair.CCY, price.val)')
bug('C12',U,'if re.MatchString(ccypair.CCY) {','if newpair.Unit == ccypair.Unit && re.MatchString(ccypair.CCY) {')
bug('C12',U,'!ok || cur < dec','!ok || cur > dec')
bug('C12',U,'	b.prices = nprices.build()\n','	nprices.build()\n')
bug('C12',U,'		for _, price := range b.GetPriceList(ccypair.Unit, ccypair.CCY) {','		for _, price := range b.GetPriceList(ccypair.Unit, ccypair.CCY)[1:] {')
same('C12',U,'''	b.MapAccount(func(acct string) string {
		if alt != "" && !re.MatchString(acct) {
			return alt
		}
		if replace != "" {
			return re.ReplaceAllString(acct, replace)
		}
		return acct
	})
	return nil''','''	b.MapAccount(func(acct string) string {
		matches := re.MatchString(acct)
		switch {
		case !matches && alt != "":
			return alt
		case replace == "":
			return acct
		case !matches:
			return acct
		}
		return re.ReplaceAllString(acct, replace)
	})
	return nil''')
same('C12',B,'''	amap := make(map[string]string)
	p := b.post
	for i := range p {
		n, ok := amap[p[i].acct]
		if !ok {
			n = mapper(p[i].acct)
			amap[p[i].acct] = n
		}
		p[i].acct = n
		p[i].acctlevel = 0
		p[i].acctterm = n
	}
''','''	for i := range b.post {
		q := &b.post[i]
		q.acct = mapper(q.acct)
		q.acctterm, q.acctlevel = q.acct, 0
	}
''')
same('C12',U,'''	// Map all the postings
	b.MapAmount(func(date Date, ccy string) (*big.Rat, string) {
		if re.MatchString(ccy) {
			return one, re.ReplaceAllString(ccy, replace)
		} else {
			return one, ccy
		}
	})
''','''	rename := func(ccy string) string {
		if !re.MatchString(ccy) {
			return ccy
		}
		return re.ReplaceAllString(ccy, replace)
	}
	b.MapAmount(func(_ Date, ccy string) (*big.Rat, string) {
		return one, rename(ccy)
	})
''',U,'''		newpair := ccypair
		if re.MatchString(ccypair.Unit) {
			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
		}
		if re.MatchString(ccypair.CCY) {
			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
		}
''','''		newpair := PricePair{Unit: rename(ccypair.Unit), CCY: rename(ccypair.CCY)}
''',U,'''		newccy := ccy
		if re.MatchString(ccy) {
			newccy = re.ReplaceAllString(ccy, replace)
		}
		if cur, ok := nccy[newccy]; !ok || cur < dec {
			nccy[newccy] = dec
		}
''','''		newccy := rename(ccy)
		if cur, ok := nccy[newccy]; ok && dec <= cur {
			continue
		}
		nccy[newccy] = dec
''')
same('C12',U,'''		for _, price := range b.GetPriceList(ccypair.Unit, ccypair.CCY) {
			nprices''','''		prices := b.GetPriceList(ccypair.Unit, ccypair.CCY)
		for k := 0; k < len(prices); k++ {
			price := prices[k]
			nprices''')
