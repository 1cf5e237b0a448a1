A='book/price.go'
bug('C15',A,'	if date > p[len(p)-1].date {\n		return p[len(p)-1].val','	if date > p[len(p)-1].date {\n		return p[0].val')
bug('C15',A,'		return p[0].val, PriceTypeOutOfRange\n	}\n\n	// Check if it','		return p[len(p)/2].val, PriceTypeOutOfRange\n	}\n\n	// Check if it')
bug('C15',A,'			return p[midIdx].val, PriceTypeExact','			return p[minIdx].val, PriceTypeExact')
bug('C15',A,'			maxIdx = midIdx\n','			maxIdx = midIdx - 1\n')
bug('C15',A,'			if midIdx == minIdx {\n				break','			if midIdx == minIdx || midIdx > 30 {\n				break')
bug('C15',A,'int64(date.DaysSince(p[minIdx].date))','int64(p[minIdx+1].date.DaysSince(date))')
bug('C15',A,'int64(date.DaysSince(p[minIdx].date))','int64(date - p[minIdx].date)')
bug('C15',A,'	v.Mul(v, dateFwd)\n	v.Add(v, p[minIdx].val)','	v.Mul(v, dateFwd)\n	v.Add(v, p[minIdx+1].val)')
bug('C15',A,'		return big.NewRat(0, 1).Inv(r), pt','		return r, pt')
bug('C15',A,'	v, ok = p.data[PricePair{ccy, unit}]','	v, ok = p.data[PricePair{unit, ccy}]')
bug('C15',A,'	return big.NewRat(1, 1), PriceTypeNone','	return big.NewRat(0, 1), PriceTypeNone')
bug('C15',A,'	return big.NewRat(1, 1), PriceTypeNone','	return big.NewRat(1, 1), PriceTypeExact')
bug('C15',A,'			if pl[i].date < pl[j].date {','			if pl[i].date/100 < pl[j].date/100 {')
bug('C15',A,'		p.data[cmap] = append(v, Price{date: date, val: val})','		if v[len(v)-1].date != date {\n			p.data[cmap] = append(v, Price{date: date, val: val})\n		}')
bug('C15',A,'		Unit: unit,\n		CCY:  ccy,','		Unit: ccy,\n		CCY:  unit,')
bug('C15',A,'		copy(pl, plist)\n','		copy(pl, plist[1:])\n')
bug('C15','book/book_utils.go','	nprices := newPriceBookBuilder()\n','	nprices := b.prices\n','book/book_utils.go','nprices.addPrice(price.date, newpair.Unit, newpair.CCY, price.val)','nprices.data[newpair] = append(nprices.data[newpair], price)','book/book_utils.go','	b.prices = nprices.build()\n','')
same('C15',A,'''	minIdx := 0
	maxIdx := len(p)
	for minIdx < maxIdx {
		midIdx := (minIdx + maxIdx) / 2
		if date > p[midIdx].date {
			if midIdx == minIdx {
				break
			}
			minIdx = midIdx
		} else if date < p[midIdx].date {
			maxIdx = midIdx
		} else {
			return p[midIdx].val, PriceTypeExact
		}
	}
''','''	next := sort.Search(len(p), func(i int) bool { return p[i].date >= date })
	if p[next].date == date {
		return p[next].val, PriceTypeExact
	}
	minIdx := next - 1
''')
same('C15',A,'''	minIdx := 0
	maxIdx := len(p)
	for minIdx < maxIdx {
		midIdx := (minIdx + maxIdx) / 2
		if date > p[midIdx].date {
			if midIdx == minIdx {
				break
			}
			minIdx = midIdx
		} else if date < p[midIdx].date {
			maxIdx = midIdx
		} else {
			return p[midIdx].val, PriceTypeExact
		}
	}
''','''	next := 0
	for next < len(p) && p[next].date < date {
		next++
	}
	if p[next].date == date {
		return p[next].val, PriceTypeExact
	}
	minIdx := next - 1
''')
same('C15',A,'''	// Calculate number of days between min and max
	dateFwd := big.NewRat(int64(date.DaysSince(p[minIdx].date)), int64(p[minIdx+1].date.DaysSince(p[minIdx].date)))

	// New value, calculate gradient
	v := big.NewRat(0, 1)
	v.Sub(p[minIdx+1].val, p[minIdx].val)
	v.Mul(v, dateFwd)
	v.Add(v, p[minIdx].val)

	return v, PriceTypeInferred
''','''	return interpolate(p[minIdx], p[minIdx+1], date), PriceTypeInferred
''',A,'// PriceBookBuilder is used','''func interpolate(lo, hi Price, date Date) *big.Rat {
	total := big.NewRat(int64(hi.date.DaysSince(lo.date)), 1)
	done := big.NewRat(int64(date.DaysSince(lo.date)), 1)
	diff := new(big.Rat).Sub(hi.val, lo.val)
	diff.Mul(diff, done)
	diff.Quo(diff, total)
	return diff.Add(lo.val, diff)
}

// PriceBookBuilder is used''')
same('C15',A,'''	v, ok := p.data[cmap]
	if !ok {
		v = make(PriceList, 1, 1)
		v[0] = Price{date: date, val: val}
		p.data[cmap] = v
	} else {
		p.data[cmap] = append(v, Price{date: date, val: val})
	}
''','''	p.data[cmap] = append(p.data[cmap], Price{date: date, val: val})
''')
same('C15',A,'''		pl := make(PriceList, len(plist), len(plist))
		copy(pl, plist)
		sort.SliceStable(pl, func(i, j int) bool {
			if pl[i].date < pl[j].date {
				return true
			}
			return false
		})
		pb.data[cmap] = pl
''','''		pb.data[cmap] = plist.sorted()
''',A,'// PriceBook is an efficient','''func (p PriceList) sorted() PriceList {
	pl := append(PriceList(nil), p...)
	sort.SliceStable(pl, func(i, j int) bool { return pl[i].date < pl[j].date })
	return pl
}

// PriceBook is an efficient''')
