A='book/date.go'
B='book/book.go'
bug('C07',A,'	month := ((int(date/100)%100-1)/3 + diff) * 3\n','	month := (int(date/100)%100/3 + diff) * 3\n')
bug('C07',A,'	return Date(((int(date/10000) + diff) * 10000) + 101)','	return Date(((int(date/10000) + diff) * 10000) + 100)')
bug('C07',A,'	month := int(date/100)%100 - 1 + diff\n	for month > 11 {\n		month -= 12\n		year++\n	}\n	for month < 0 {','	month := int(date/100)%100 - 1 + diff\n	if month > 11 {\n		month -= 12\n		year++\n	}\n	for month < 0 {')
bug('C07',A,'	month := int(date/100)%100 - 1 + diff\n	for month > 11 {\n		month -= 12\n		year++\n	}\n	for month < 0 {\n		month += 12\n		year--','	month := int(date/100)%100 - 1 + diff\n	for month > 11 {\n		month -= 12\n		year++\n	}\n	for month < 0 {\n		month += 12\n		year++')
bug('C07',A,'		return date.FloorQuarter(diff)\n','		return date.FloorMonth(diff * 3)\n')
bug('C07',A,'			diff = -1\n','			diff = -2\n')
bug('C07',A,'(n.Year() * 10000) + (int(n.Month()) * 100) + n.Day()','(n.Year() * 10000) + (int(n.Month()) * 100) + n.YearDay()')
bug('C07',A,'''			d = d.FloorQuarter(diff)
''','''			d = d.FloorQuarter(diff * 3)
''')
bug('C07',B,'return date.Floor(by), ""','return date.Floor(by), payee')
bug('C07',B,'		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n	}\n	b.compact()','		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n	}')
bug('C07',B,'		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n','		if p[i].payee == "" {\n			continue\n		}\n		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n')
bug('C07',B,'		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n','		p[i].date, p[i].payee = mapper(p[i].date, p[i].payee)\n		p[i].note = ""\n')
same('C07',A,'''	year := int(date / 10000)
	month := int(date/100)%100 - 1 + diff
	for month > 11 {
		month -= 12
		year++
	}
	for month < 0 {
		month += 12
		year--
	}
	return Date((year * 10000) + ((month + 1) * 100) + 1)
}

func (date Date) GetYearQuarter''','''	return firstOfMonth(int(date/10000), int(date%10000)/100+diff)
}

func firstOfMonth(year, month int) Date {
	for ; month > 12; month -= 12 {
		year++
	}
	for ; month < 1; month += 12 {
		year--
	}
	return Date(year*10000 + month*100 + 1)
}

func (date Date) GetYearQuarter''')
same('C07',A,'''	year := int(date / 10000)
	month := ((int(date/100)%100-1)/3 + diff) * 3
	for month > 11 {
		month -= 12
		year++
	}
	for month < 0 {
		month += 12
		year--
	}
	return Date((year * 10000) + ((month + 1) * 100) + 1)
''','''	year, quarter := int(date/10000), (int(date/100)%100-1)/3+diff
	for quarter > 3 {
		quarter -= 4
		year++
	}
	for quarter < 0 {
		quarter += 4
		year--
	}
	return Date(year*10000 + quarter*300 + 101)
''')
same('C07',A,'''	if by == "yearly" {
		return date.FloorYear(diff)
	} else if by == "quarterly" {
		return date.FloorQuarter(diff)
	} else if by == "monthly" {
		return date.FloorMonth(diff)
	} else if by == "today" {
		return GetToday()
	} else { // May be none or invalid
		return date
	}
''','''	switch by {
	case "today":
		return GetToday()
	case "monthly":
		return date.FloorMonth(diff)
	case "quarterly":
		return date.FloorQuarter(diff)
	case "yearly":
		return date.FloorYear(diff)
	}
	return date
''')
same('C07',A,'''		diff := 0
		if mat[1] == "last" {
			diff = -1
		} else if mat[1] == "next" {
			diff = 1
		}

		if mat[2] == "year" {
			d = d.FloorYear(diff)
		} else if mat[2] == "quarter" {
			d = d.FloorQuarter(diff)
		} else if mat[2] == "month" {
			d = d.FloorMonth(diff)
		}

		return d
''','''		return d.shift(mat[2], map[string]int{"last": -1, "this": 0, "next": 1}[mat[1]])
''',A,'func GetToday()','''func (d Date) shift(unit string, diff int) Date {
	switch unit {
	case "year":
		return d.FloorYear(diff)
	case "quarter":
		return d.FloorQuarter(diff)
	}
	return d.FloorMonth(diff)
}

func GetToday()''')
same('C07',B,'''	b.MapTransaction(func(date Date, payee string) (Date, string) {
		return date.Floor(by), ""
	})
''','''	for i := range b.post {
		p := &b.post[i]
		p.payee = ""
		p.date = p.date.Floor(by)
	}
	b.compact()
''')
