D='book/date.go'
# the rule for leap years
bug('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	return ((year+1)%4 == 0) && ((year+1)%100 != 0)\n")
bug('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	return (year+1)%4 == 0\n")
bug('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	return (year%4 == 0) && (year%100 != 0 || year%400 == 0)\n")
bug('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%800 == 0)\n")
bug('C36',D,"			((year+1)%100 != 0 || (year+1)%400 == 0) {","			((year+1)%100 != 0 || (year+1)%4000 == 0) {")
bug('C36',D,"			((year+1)%4 == 0) &&\n","			(year%4 == 0) &&\n")
bug('C36',D,"		if (month == 1) &&","		if (month == 2) &&")
bug('C36',D,"	30, 31, 31, 30, 31, 30, 31}","	30, 31, 30, 31, 31, 30, 31}")
bug('C36',D,"func (date Date) AsDays() int {","func FixMonths() {\n	monthDays[1] = 29\n}\n\nfunc (date Date) AsDays() int {")
bug('C36',D,"	days = days + year/4 + year/400 - year/100\n","	days = days + year/4 - year/100\n")
bug('C36',D,"	days = days + year/4 + year/400 - year/100\n","	days = days + (year+1)/4 + (year+1)/400 - (year+1)/100\n")
bug('C36',D,"		leapDays := year/4 + year/400 - year/100\n","		leapDays := year/4 - year/100\n")
bug('C36',D,"		if year*365+leapDays <= days {","		if year*365+leapDays < days {")
bug('C36',D,"		if days < daysInMonth {","		if days <= daysInMonth {")
bug('C36',D,"	return GetDate(year+1, month+1, days+1)","	return GetDate(year+1, month+1, days)")
bug('C36',D,"	year := days / 365\n","	year := days / 366\n")
bug('C36',D,"	days := year * 365\n","	days := year * 366\n")
bug('C36',D,"	// Add in day-of-month\n	days += day\n","	// Add in day-of-month\n	days += day + 1\n")
bug('C36',D,"	daysInYear := 365\n	if isLeapYear {\n		daysInYear++\n	}\n","	daysInYear := 365\n")
bug('C36',D,"	isLeapYear := YearIsLeapYear(year)\n","	isLeapYear := YearIsLeapYear(year + 1)\n")
bug('C36',D,"	isLeapYear := YearIsLeapYear(year)\n","	isLeapYear := YearIsLeapYear(year)\n	month++\n")
bug('C36',D,"		day += monthDays[i]\n","		day += monthDays[i] + i%1 + 1\n")
# which dates there are
bug('C36',D,"month > 12 || day < 1 {","month > 13 || day < 1 {")
bug('C36',D,"month > 12 || day < 1 {","month > 12 || day < 0 {")
bug('C36',D,"	return day <= days\n","	return day < days\n")
bug('C36',D,"	return day <= days\n","	return day <= days+1\n")
bug('C36',D,"	return day <= days\n","	return day <= 31\n")
bug('C36',D,"	if month == 2 && YearIsLeapYear(year-1) {","	if month == 2 && YearIsLeapYear(year) {")
bug('C36',D,"	if month == 2 && YearIsLeapYear(year-1) {","	if month == 2 {")
bug('C36',D,"	if d := parseDate(date); d.IsValid() {\n		return d\n	}\n	return 0\n","	return parseDate(date)\n")
bug('C36',D,"	if d := parseDate(date); d.IsValid() {","	if d := parseDate(date); d.IsValid() || d%100 == 30 {")
# which number is which
bug('C36',D,"		day, _ := strconv.Atoi(mat[1])\n		month, _ := strconv.Atoi(mat[2])","		day, _ := strconv.Atoi(mat[2])\n		month, _ := strconv.Atoi(mat[1])")
bug('C36',D,"		month, _ := strconv.Atoi(mat[2])\n		if month == 0","		month, _ := strconv.Atoi(mat[3])\n		if month == 0")
bug('C36',D,"			day = 1\n","			day = 2\n")
bug('C36',D,"			month = 1\n","			month = 12\n")
bug('C36',D,"		return Date(year*10000 + month*100 + day)\n	}\n\n	mat = date_desc_re","		return Date(year*10000 + month*100 + day + 1)\n	}\n\n	mat = date_desc_re")
# days between
bug('C36',D,"	return date.AsDays() - d2.AsDays()","	return d2.AsDays() - date.AsDays()")
bug('C36',D,"	return date.AsDays() - d2.AsDays()","	return int(date - d2)")
bug('C36',D,"GetDateFromDays(date.AsDays() + days)","GetDateFromDays(date.AsDays() + days + 1)")
bug('C36',D,"	d := Date((year * 10000) + (month * 100) + day)\n","	d := Date((year * 10000) + (day * 100) + month)\n")
bug('C36',D,"(int(n.Month()) * 100) + n.Day())","(int(n.Month()) * 100) + n.YearDay())")
# heeded
# shown
bug('C36',D,'int(date/10000), int((date/100)%100), int(date%100))\n}\n\nfunc (date Date) MarshalJSON','int(date/10000), int(date%100), int((date/100)%100))\n}\n\nfunc (date Date) MarshalJSON')
bug('C36',D,"(time.Month)((date/100)%100), int(date%100), 0,","(time.Month)((date/100)%100), int(date%100)-1, 0,")
# written in other ways
same('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	y := year + 1\n	if y%400 == 0 {\n		return true\n	}\n	if y%100 == 0 {\n		return false\n	}\n	return y%4 == 0\n")
same('C36',D,"	return ((year+1)%4 == 0) && ((year+1)%100 != 0 || (year+1)%400 == 0)\n","	y := year + 1\n	return y%400 == 0 || (y%4 == 0 && y%100 != 0)\n")
same('C36',D,"		if (month == 1) &&\n			((year+1)%4 == 0) &&\n			((year+1)%100 != 0 || (year+1)%400 == 0) {","		if month == 1 && YearIsLeapYear(year) {")
same('C36',D,"var monthDays = [12]int{","var monthDays = []int{")
same('C36',D,"	// Add in month-to-date (without leaps)\n	for i := 0; i < month; i++ {\n		days += monthDays[i]\n\n		// if it's February, a year dividable by four,\n		// and NOT dividable by 100 OR it is diviable by 400...\n		// Add a leap day.\n		if (i == 1) && YearIsLeapYear(year) {\n			days += 1\n		}\n	}\n","	for _, n := range monthDays[:month] {\n		days += n\n	}\n	if month > 1 && YearIsLeapYear(year) {\n		days++\n	}\n")
same('C36',D,"	// Add in month-to-date (without leaps)\n	for i := 0; i < month; i++ {\n		days += monthDays[i]\n\n		// if it's February, a year dividable by four,\n		// and NOT dividable by 100 OR it is diviable by 400...\n		// Add a leap day.\n		if (i == 1) && YearIsLeapYear(year) {\n			days += 1\n		}\n	}\n","	for i := 0; i < month; i++ {\n		days += monthLength(i, year)\n	}\n",
 D,"func (date Date) AsDays() int {","func monthLength(month, year int) int {\n	if month == 1 && YearIsLeapYear(year) {\n		return 29\n	}\n	return monthDays[month]\n}\n\nfunc (date Date) AsDays() int {")
same('C36',D,"	// Add in month-to-date (without leaps)\n	for i := 0; i < month; i++ {\n		days += monthDays[i]\n\n		// if it's February, a year dividable by four,\n		// and NOT dividable by 100 OR it is diviable by 400...\n		// Add a leap day.\n		if (i == 1) && YearIsLeapYear(year) {\n			days += 1\n		}\n	}\n","	for i := 0; i < month; i++ {\n		days += monthDays[i]\n	}\n	if month >= 2 && YearIsLeapYear(year) {\n		days++\n	}\n")
same('C36',D,"	year, month, day := int(date/10000), int(date/100)%100, int(date%100)\n	if year < 1 || month < 1 || month > 12 || day < 1 {\n		return false\n	}\n","	year, month, day := int(date)/10000, int(date)/100%100, int(date)%100\n	if year <= 0 || month <= 0 || month >= 13 {\n		return false\n	}\n	if day == 0 || day < 1 {\n		return false\n	}\n")
same('C36',D,"	return day <= days\n","	if day > days {\n		return false\n	}\n	return true\n")
same('C36',D,"	year := int(date/10000) - 1\n	month := int((date/100)%100) - 1\n	day := int(date%100) - 1\n\n	// Calculate previous years\n","	year, month, day := date.parts()\n",
 D,"func (date Date) AsDays() int {","func (date Date) parts() (int, int, int) {\n	return int(date/10000) - 1, int((date/100)%100) - 1, int(date%100) - 1\n}\n\nfunc (date Date) AsDays() int {")
same('C36',D,"	if d := parseDate(date); d.IsValid() {\n		return d\n	}\n	return 0\n","	d := parseDate(date)\n	if !d.IsValid() {\n		return 0\n	}\n	return d\n")
same('C36',D,"	year := days / 365\n	for {\n		leapDays := year/4 + year/400 - year/100\n		if year*365+leapDays <= days {\n			days -= year*365 + leapDays\n			break\n		}\n		year--\n	}\n","	year := days / 365\n	for daysBefore(year) > days {\n		year--\n	}\n	days -= daysBefore(year)\n",
 D,"func GetDateFromDays(","func daysBefore(year int) int {\n	return year*365 + year/4 - year/100 + year/400\n}\n\nfunc GetDateFromDays(")
same('C36',D,"	daysInYear := 365\n	if isLeapYear {\n		daysInYear++\n	}\n","	daysInYear := 365\n	if isLeapYear {\n		daysInYear = 366\n	}\n")
same('C36',D,'fmt.Sprintf("%04d/%02d/%02d", int(date/10000), int((date/100)%100), int(date%100))','fmt.Sprintf("%04d/%02d/%02d", date/10000, date/100%100, date%100)')
# a time counted from today
bug('C36',D,'''		if mat[1] == "last" {
			diff = -1''','''		if mat[1] == "last" {
			diff = -2''')
bug('C36',D,'''		} else if mat[1] == "next" {
			diff = 1''','''		} else if mat[1] == "Next" {
			diff = 1''')
bug('C36',D,'''mat[2] == "quarter" {''','''mat[2] == "quater" {''')
bug('C36',D,'''			d = d.FloorMonth(diff)''','''			d = d.FloorMonth(0)''')
bug('C36',D,'''			d = d.FloorYear(diff)''','''			d = d.FloorQuarter(4 * diff)''')
bug('C36',D,'''		if month == 0 {''','''		if month > 12 {''')
bug('C36',D,'''		if month == 0 {''','''		if month == 0 || mat[3] == "" {''')
bug('C36',D,'''		if day == 0 {''','''		if day >= 0 {''')
same('C36',D,'''		if month == 0 {''','''		if mat[2] == "" || month == 0 {''')
same('C36',D,'''		day, _ := strconv.Atoi(mat[3])
		if day == 0 {
			day = 1
		}
''','''		day := 1
		if d, _ := strconv.Atoi(mat[3]); d != 0 {
			day = d
		}
''')
same('C36',D,'''		diff := 0
		if mat[1] == "last" {
			diff = -1
		} else if mat[1] == "next" {
			diff = 1
		}
''','''		var diff int
		switch mat[1] {
		case "next":
			diff = 1
		case "last":
			diff = -1
		}
''')
same('C36',D,'''		diff := 0
		if mat[1] == "last" {
			diff = -1
		} else if mat[1] == "next" {
			diff = 1
		}
''','''		diff := map[string]int{"last": -1, "next": 1}[mat[1]]
''') if False else None
# heeded
bug('C36','cmd/app/book_op.go','''		if d == book.Date(0) {
			return fmt.Errorf("since''','''		if d == book.Date(0) && len(op_act) > 2 {
			return fmt.Errorf("since''')
bug('C36','book/registry.go','''	if max == 0 && maxdate != "" {''','''	if max == 0 && min != 0 && maxdate != "" {''')
bug('C36','script/starlark.go','''		if ndate == book.Date(0) {''','''		if ndate == book.Date(0) && len(string(date)) == 0 {''')
bug('C36',D,'([0-9]?[0-9])?$")\nvar dateDD','([0-9]?[0-9])?")\nvar dateDD')
bug('C36',D,'var dateYYYYMMDD = regexp.MustCompile("^','var dateYYYYMMDD = regexp.MustCompile("')
bug('C36',D,'month|year|quarter)$")','month|year|quarter)")')
bug('C36',D,'[-/\\\\.]?([0-9]?[0-9])?[-/\\\\.]?([0-9]?[0-9])?$")','[-/\\\\.]?([0-9]?[0-9])?.?([0-9]?[0-9])?$")')
bug('C36',D,'''		year, _ := strconv.Atoi(mat[3])
		return''','''		year, _ := strconv.Atoi(mat[3])
		if month > 12 {
			day, month = month, day
		}
		return''')
same('C36',D,'"^([0-9][0-9][0-9][0-9])[-/\\\\.]?([0-9]?[0-9])?[-/\\\\.]?([0-9]?[0-9])?$"','`^(\\d{4})[-/.]?(\\d{1,2})?[-/.]?(\\d{1,2})?$`')
same('C36',D,'"^([0-9][0-9][0-9][0-9])[-/\\\\.]?([0-9]?[0-9])?[-/\\\\.]?([0-9]?[0-9])?$"','"^([0-9]{4})[-/\\\\.]?([0-9]?[0-9])?(?:[-/\\\\.])?([0-9]?[0-9])?$"')
