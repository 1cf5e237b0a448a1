PP = '''	sort.Slice(pairs, func(i, j int) bool {
		if pairs[i].Unit != pairs[j].Unit {
			return pairs[i].Unit < pairs[j].Unit
		}
		return pairs[i].CCY < pairs[j].CCY
	})

'''
# the order is not made, or not fully
bug('C19', 'book/book.go', '\tsort.Strings(accts)\n\treturn accts, nil', '\treturn accts, nil', 'book/book.go', '\t"sort"\n', '\t"sort"\n\t"os"\n', 'book/book.go', 'type PricePair struct', 'var _ = os.Args\n\ntype PricePair struct')
bug('C19', 'book/book.go', PP, '''	sort.Slice(pairs, func(i, j int) bool {
		return pairs[i].Unit < pairs[j].Unit
	})

''')
bug('C19', 'book/book.go', PP, '''	sort.Slice(pairs, func(i, j int) bool {
		if pairs[i].Unit != pairs[j].Unit {
			return pairs[i].Unit < pairs[j].Unit
		}
		return pairs[j].Unit < pairs[i].Unit
	})

''')
bug('C19', 'book/builder.go', '		sort.Strings(ccys)\n', '', 'book/builder.go', '\t"sort"\n', '')
bug('C19', 'book/builder.go', '			ccys = append(ccys, fmt.Sprintf("ccy %s has balance of %s", ccy, amt))\n', '			return fmt.Errorf("In transaction (%d %s) ccy %s has balance of %s!", b.currDate, b.currPayee, ccy, amt)\n')
bug('C19', 'book/book_reclassify.go', ' || (k == max && cacct < macct)', '')
bug('C19', 'book/book_reclassify.go', 'if k > max || (k == max && cacct < macct) {', 'if k >= max {')
bug('C19', 'book/book_reclassify.go', ' || (d == max_match && p < max_payee)', '', 'book/book_reclassify.go', 'if max_match > 0.0 {', 'if max_match > 0.0 && max_payee != "" {')
bug('C19', 'book/book_utils.go', 'if cur, ok := nccy[newccy]; !ok || cur < dec {', 'if _, ok := nccy[newccy]; !ok {')
bug('C19', 'book/book_utils.go', '''		if cur, ok := nccy[newccy]; !ok || cur < dec {
			nccy[newccy] = dec
		}
''', '''		nccy[newccy] = dec
''')
bug('C19', 'book/book_utils.go', 'for _, ccypair := range b.GetPricePairs() {', 'for ccypair := range b.prices.data {')
bug('C19', 'cmd/export/beancount.go', '\tsort.Strings(accts)\n', '', 'cmd/export/beancount.go', '\t"sort"\n', '')
bug('C19', 'cmd/export/beancount.go', '''	for _, acct := range accts {
		stats := lstats[acct]
''', '''	for acct, stats := range lstats {
''')
bug('C19', 'cmd/currencies/currencies.go', '		sort.Strings(ccys)\n', '', 'cmd/currencies/currencies.go', '\t"sort"\n', '')
bug('C19', 'script/convert.go', '		sort.Strings(keys)\n', '', 'script/convert.go', '\t"sort"\n', '')
bug('C19', 'script/convert.go', '''		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			nv := v[k]
''', '''		for k, nv := range v {
			keys = append(keys, k)
''', 'script/convert.go', '		return newdict, nil\n', '		sort.Strings(keys)\n		return newdict, nil\n')
bug('C19', 'cmd/export/export.go', '\tsort.Strings(macroNames)\n', '', 'cmd/export/export.go', '\t"sort"\n', '')
bug('C19', 'cmd/utils/cli_config.go', '\tsort.Strings(keyv)\n', '', 'cmd/utils/cli_config.go', '\t"sort"\n', '')
bug('C19', 'book/book_accum.go', '''	sort.Slice(eposts, func(i, j int) bool {
		return eposts[i].isLess(&eposts[j])
	})
''', '')
# accounts with something in the first currency only
bug('C19', 'book/book.go', '''		if (!onlyWithBalance || bal.Sign() != 0) && !found[key[0]] {
			found[key[0]] = true
			accts = append(accts, key[0])
		}
''', '''		if !found[key[0]] {
			found[key[0]] = true
			if !onlyWithBalance || bal.Sign() != 0 {
				accts = append(accts, key[0])
			}
		}
''')
# only the first three
bug('C19', 'book/builder.go', 'if amt.Sign() != 0 {\n			ccys = append', 'if amt.Sign() != 0 && len(ccys) < 3 {\n			ccys = append')
bug('C19', 'book/builder.go', '	for ccy, amt := range b.currAmts {\n', '	n := 0\n	for ccy, amt := range b.currAmts {\n		if n++; n > 3 {\n			break\n		}\n')
same('C19', 'book/builder.go', '	for ccy, amt := range b.currAmts {\n', '	n := 0\n	for ccy, amt := range b.currAmts {\n		n++\n', 'book/builder.go', '	if len(ccys) > 0 {\n		sort', '	if len(ccys) > 0 && n > 0 {\n		sort')
# by chance and by the clock
bug('C19', 'cmd/export/beancount.go', '	// Account open close\n', '	b.Printf("; made on %s\\n", time.Now())\n', 'cmd/export/beancount.go', '\t"sort"\n', '\t"sort"\n\t"time"\n')
bug('C19', 'book/book_reclassify.go', '		if max_match > 0.0 {', '		if max_match > rand.Float64() {', 'book/book_reclassify.go', 'package book\n', 'package book\n\nimport "math/rand"\n')
bug('C19', 'book/book.go', 'func (b *Book) GetPriceList(', '''func (b *Book) shuffled() []PricePair {
	pairs := b.GetPricePairs()
	for i := range pairs {
		j := int(time.Now().UnixNano()) % len(pairs)
		pairs[i], pairs[j] = pairs[j], pairs[i]
	}
	return pairs
}

func (b *Book) GetPriceList(''', 'book/book.go', '\t"sort"\n', '\t"sort"\n\t"time"\n', 'book/book_utils.go', 'range b.GetPricePairs() {', 'range b.shuffled() {')
# concurrently
bug('C19', 'cmd/export/csv.go', '	for _, posts := range bk.Transactions() {\n', '	go bk.Transactions()\n	for _, posts := range bk.Transactions() {\n')

# the same in another way
same('C19', 'book/book.go', PP, '''	sort.Slice(pairs, func(i, j int) bool {
		a, b := pairs[i], pairs[j]
		return a.Unit < b.Unit || a.Unit == b.Unit && a.CCY < b.CCY
	})

''')
same('C19', 'book/book.go', PP, '''	sort.SliceStable(pairs, func(i, j int) bool {
		if pairs[i].Unit == pairs[j].Unit {
			return pairs[i].CCY < pairs[j].CCY
		}
		return pairs[i].Unit < pairs[j].Unit
	})

''')
same('C19', 'book/book.go', '''	pairs := make([]PricePair, 0, len(b.prices.data))
	for pair, _ := range b.prices.data {
		pairs = append(pairs, pair)
	}
''', '''	var pairs []PricePair
	for pair := range b.prices.data {
		pairs = append(pairs, PricePair{pair.Unit, pair.CCY})
	}
''')
same('C19', 'book/book.go', '''	pairs := make([]PricePair, 0, len(b.prices.data))
	for pair, _ := range b.prices.data {
		pairs = append(pairs, pair)
	}
''', '''	pairs := make([]PricePair, len(b.prices.data))
	n := 0
	for pair := range b.prices.data {
		pairs[n] = pair
		n++
	}
''')
same('C19', 'book/book.go', '''	for pair, _ := range b.prices.data {
		pairs = append(pairs, pair)
	}
	sort.Slice(pairs,''', '''	for pair := range b.prices.data {
		pairs = append(pairs, pair)
	}
	orderPairs(pairs)
	return pairs
}

func orderPairs(pairs []PricePair) {
	sort.Slice(pairs,''', 'book/book.go', '''		return pairs[i].CCY < pairs[j].CCY
	})

	return pairs
}''', '''		return pairs[i].CCY < pairs[j].CCY
	})
}''')
same('C19,C31', 'book/book.go', '''			found[key[0]] = true
			accts = append(accts, key[0])
		}
	}
''', '''			found[key[0]] = true
		}
	}
	for acct := range found {
		accts = append(accts, acct)
	}
''')
same('C19', 'book/builder.go', '''	for ccy, amt := range b.currAmts {
		if amt.Sign() != 0 {
			ccys = append(ccys, fmt.Sprintf("ccy %s has balance of %s", ccy, amt))
		}
	}
	if len(ccys) > 0 {
		sort.Strings(ccys)
''', '''	for ccy, amt := range b.currAmts {
		if amt.Sign() == 0 {
			continue
		}
		msg := fmt.Sprintf("ccy %s has balance of %s", ccy, amt)
		ccys = append(ccys, msg)
	}
	sort.Strings(ccys)
	if len(ccys) != 0 {
''')
same('C19,C34', 'book/book_reclassify.go', 'if k > max || (k == max && cacct < macct) {', 'if k < max || (k == max && cacct >= macct) {\n				continue\n			}\n			{')
same('C19,C12', 'book/book_utils.go', '''		if cur, ok := nccy[newccy]; !ok || cur < dec {
			nccy[newccy] = dec
		}
''', '''		cur, ok := nccy[newccy]
		if ok && dec <= cur {
			continue
		}
		nccy[newccy] = dec
''')
same('C19', 'cmd/export/export.go', '''	macroNames := make([]string, 0, len(app.Macros))
	for k, _ := range app.Macros {
		macroNames = append(macroNames, k)
	}
	sort.Strings(macroNames)
	ncmd.ValidArgs = macroNames
''', '''	for k := range app.Macros {
		ncmd.ValidArgs = append(ncmd.ValidArgs, k)
	}
	sort.Strings(ncmd.ValidArgs)
''')
same('C19', 'cmd/export/export.go', '''	macroNames := make([]string, 0, len(app.Macros))
	for k, _ := range app.Macros {
		macroNames = append(macroNames, k)
	}
	sort.Strings(macroNames)
''', '''	macroNames := namesOf(app.Macros)
''', 'cmd/export/export.go', 'func (export *ExportReport) run(', '''func namesOf(m map[string][]string) (names []string) {
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	return
}

func (export *ExportReport) run(''')
same('C19', 'cmd/utils/cli_config.go', '''	for k, v := range e.Params {
		keyv = append(keyv, k+"="+v)
	}
	sort.Strings(keyv)

	return''', '''	for k := range e.Params {
		keyv = append(keyv, fmt.Sprintf("%s=%s", k, e.Params[k]))
	}
	sort.Slice(keyv, func(i, j int) bool { return keyv[i] < keyv[j] })

	return''')
same('C19', 'script/convert.go', '''		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			nv := v[k]
''', '''		var keys sort.StringSlice
		for k := range v {
			keys = append(keys, k)
		}
		keys.Sort()
		for i := 0; i < len(keys); i++ {
			k := keys[i]
			nv := v[k]
''')
same('C19,C31', 'cmd/currencies/currencies.go', '''		for ccy := range decs {
			ccys = append(ccys, ccy)
		}
		sort.Strings(ccys)
''', '''		width := 0
		for ccy := range decs {
			if len(ccy) > width {
				width = len(ccy)
			}
			ccys = append(ccys, ccy)
		}
		_ = width
		sort.Strings(ccys)
''')
same('C19', 'book/book.go', '''	newccy := make(map[string]int)
	for ccy, dec := range b.ccy {
		newccy[ccy] = dec
	}''', '''	newccy := make(map[string]int, len(b.ccy))
	for ccy := range b.ccy {
		newccy[ccy] = b.ccy[ccy]
	}''')
