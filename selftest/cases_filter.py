U='book/book_utils.go'; R='book/registry.go'; B='book/book.go'
bug('C09',U,'return date >= minDate','return date > minDate')
bug('C09',U,'return date < maxDate','return date <= maxDate')
bug('C09',U,'return date < maxDate','return posts[len(posts)-1].date < maxDate || payee == ""')
bug('C09',B,'			newp = append(newp, p...)\n			newt = append(newt, newp[idx:len(newp)])\n		}\n	}\n\n	b.post = newp\n	b.trans = newt\n}\n\nfunc (b *Book) MapTransaction','			newp = append(newp, p[1:]...)\n			newt = append(newt, newp[idx:len(newp)])\n		}\n	}\n\n	b.post = newp\n	b.trans = newt\n}\n\nfunc (b *Book) MapTransaction')
bug('C09',R,'startIdx == -1 && (min == 0 || r.Date >= min)','startIdx == -1 && (min == 0 || r.Date > min)')
bug('C09',R,'if max != 0 && r.Date >= max','if max != 0 && r.Date > max')
bug('C09',R,'			endIdx = i\n			break','			endIdx = i')
bug('C09',R,'if min == 0 && max == 0 {','if min == 0 || max == 0 {')
bug('C09',R,'	if max == 0 && maxdate != "" {\n		return fmt.Errorf("invalid date \'%s\'", maxdate)\n	}\n','')
bug('C09','cmd/register/register.go','rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {\n			return err\n		}\n		return Show','rep.FilterByDate(reg.EndDate, reg.BeginDate); err != nil {\n			return err\n		}\n		return Show')
bug('C09','cmd/register/register.go','		if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {\n			return err\n		}\n		if err := Show','		if err := Show')
same('C09',U,'return date < maxDate','return !(maxDate <= date)')
same('C09',U,'return date >= minDate','if date < minDate {\n			return false\n		}\n		return true')
same('C09',U,'''	b.FilterTransaction(func(date Date, payee string, posts Transaction) bool {
		return date < maxDate
	})''','''	newp := make([]Posting, 0, len(b.post))
	newt := make([]Transaction, 0, len(b.trans))
	for k := range b.trans {
		t := b.trans[k]
		if t.GetDate() >= maxDate {
			continue
		}
		n := len(newp)
		for _, x := range t {
			newp = append(newp, x)
		}
		newt = append(newt, newp[n:])
	}
	b.post, b.trans = newp, newt''')
same('C09',R,'''	startIdx := -1
	endIdx := len(*rep)
	for i, r := range *rep {
		if startIdx == -1 && (min == 0 || r.Date >= min) {
			startIdx = i
		}
		if max != 0 && r.Date >= max {
			endIdx = i
			break
		}
	}

	if startIdx == -1 {
		*rep = (*rep)[0:0]
	} else {
		*rep = (*rep)[startIdx:endIdx]
	}
	return nil''','''	kept := make(RegistryReport, 0, len(*rep))
	for _, r := range *rep {
		if r.Date < min {
			continue
		}
		if max != 0 && r.Date >= max {
			continue
		}
		kept = append(kept, r)
	}
	*rep = kept
	return nil''')
same('C09',R,'''	startIdx := -1
	endIdx := len(*rep)
	for i, r := range *rep {
		if startIdx == -1 && (min == 0 || r.Date >= min) {
			startIdx = i
		}
		if max != 0 && r.Date >= max {
			endIdx = i
			break
		}
	}

	if startIdx == -1 {
		*rep = (*rep)[0:0]
	} else {
		*rep = (*rep)[startIdx:endIdx]
	}
	return nil''','''	all := *rep
	lo := 0
	for lo < len(all) && min != 0 && all[lo].Date < min {
		lo++
	}
	hi := lo
	for hi < len(all) && (max == 0 || all[hi].Date < max) {
		hi++
	}
	*rep = all[lo:hi]
	return nil''')
same('C09',R,'''func (rep *RegistryReport) FilterByDate(mindate, maxdate string) error {
	min := DateFromString(mindate)
	if min == 0 && mindate != "" {
		return fmt.Errorf("invalid date '%s'", mindate)
	}
''','''func optDate(s string) (Date, error) {
	if s == "" {
		return 0, nil
	}
	d := DateFromString(s)
	if d == 0 {
		return 0, fmt.Errorf("invalid date '%s'", s)
	}
	return d, nil
}

func (rep *RegistryReport) FilterByDate(mindate, maxdate string) error {
	min, err := optDate(mindate)
	if err != nil {
		return err
	}
''')
