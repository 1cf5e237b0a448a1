F='loader/parser.go'; L='loader/lexer.go'
# C03
bug('C03',F,"if rr.ch == ';' || rr.ch == eol || rr.ch == eof {","if rr.ch == ';' || rr.ch == '#' || rr.ch == eol || rr.ch == eof {")
bug('C03',F,"if rr.ch == '=' || rr.ch == 'D' {","if rr.ch == '=' || rr.ch == 'D' || rr.ch == 'Y' {")
bug('C03',F,"	if rr.ch != eol && rr.ch != eof {\n		rr.stop(\"expected end of line, got '%c'\", rr.ch)\n	}\n","	for rr.ch != eol && rr.ch != eof {\n		rr.next()\n	}\n")
bug('C03',F,'''				if err != nil {
					return err
				}
			} else if''','''				if err != nil && !os.IsNotExist(err) {
					return err
				}
			} else if''')
bug('C03',F,'	for rr.ch != eof {\n\n		// Move',"	for rr.ch != eof && rr.ch != 0 {\n\n		// Move")
bug('C03',F,'''				rr.stop("expected include or alias")''','''				rr.skipLine()''')
bug('C03',L,'	} else if err != nil {\n		rr.stop("read error: %v", err)\n	}','	} else if err != nil {\n		r = eof\n	}')
bug('C03',L,'	if err == io.EOF {\n		r = eof','	if err == io.EOF || r == 0xfffd {\n		r = eof')
bug('C03',F,'			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)','			if len(parents) == 1 {\n				reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)\n			}')
bug('C03',F,"	if rr.ch == '=' {\n		// Bal","	if rr.ch == '=' || rr.ch == '{' {\n		// Bal")
bug('C03',F,'	file, err := os.Open(filename)\n	if err != nil {\n		return err\n	}','	file, err := os.Open(filename)\n	if err != nil {\n		if len(parents) > 1 {\n			return nil\n		}\n		return err\n	}')
bug('C03','cmd/app/app.go','	err := loader.ParseFile(','	_ = loader.ParseFile(','cmd/app/app.go','	if err != nil','	var err error\n	if err != nil') if False else None
bug('C03',F,'''			if rr.ch == 'P' {
				rr.parsePrice(loader)
				continue
			}
''','''			if rr.ch == 'P' {
				rr.parsePrice(loader)
				rr.skipLine()
				continue
			}
''')
bug('C03',F,'		if ws == 0 {\n','		if ws == 0 || rr.ch == \'P\' {\n')
same('C03,C05',F,'''		if rr.ch == ';' || rr.ch == eol || rr.ch == eof {
			rr.skipLine()
			continue
		}
''','''		switch rr.ch {
		case ';', eol, eof:
			rr.skipLine()
			continue
		}
''')
same('C03,C05',F,'''			if rr.ch == 'P' {
				rr.parsePrice(loader)
				continue
			}

			// Digit -- parse transaction
			if rr.ch >= '0' && rr.ch <= '9' {
				date, payee, note := rr.parseTransaction()
				loader.NewTransaction(book.Date(date), payee, note)
				continue
			}

			command := rr.parseIdentifier()
''','''			switch {
			case rr.ch == 'P':
				rr.parsePrice(loader)
				continue
			case '0' <= rr.ch && rr.ch <= '9':
				rr.addTransaction(loader)
				continue
			}

			command := rr.parseIdentifier()
''',F,'func (rr *basicReader) parsePosting(','''func (rr *basicReader) addTransaction(loader TransactionLoader) {
	date, payee, note := rr.parseTransaction()
	loader.NewTransaction(date, payee, note)
}

func (rr *basicReader) parsePosting(''')
same('C03,C05',F,'''	// Create local copy
	nmap := make(map[string]string)
	if alias != nil {
		for k, v := range alias {
			nmap[k] = v
		}
	}

	rr :=''','''	nmap := copyAliases(alias)

	rr :=''',F,'func (rr *basicReader) parsePosting(','''func copyAliases(alias map[string]string) map[string]string {
	c := make(map[string]string, len(alias))
	for k, v := range alias {
		c[k] = v
	}
	return c
}

func (rr *basicReader) parsePosting(''')
same('C03,C05',F,'''			if command == "INCLUDE" {
				ifile''','''			switch command {
			case "INCLUDE":
				ifile''',F,'			} else if command == "ALIAS" {\n','			case "ALIAS":\n',F,'			} else {\n				rr.stop("expected include','			default:\n				rr.stop("expected include')
same('C03,C05',F,'''	nacct, ok := alias[acct]
	if ok {
		acct = nacct
	}
''','''	acct = resolve(alias, acct)
''',F,'func (rr *basicReader) parsePosting(','''func resolve(alias map[string]string, acct string) string {
	if long, ok := alias[acct]; ok {
		return long
	}
	return acct
}

func (rr *basicReader) parsePosting(''')
same('C03,C05',F,'''		var ZERO big.Int
		for ccy, dec := range loader.GetLastCCYBals() {
			if dec.Num().Cmp(&ZERO) != 0 {
				var x big.Rat
				x.Neg(dec)
				loader.AddPosting(acct, ccy, &x, note)
			}
		}
	} else {
		// Add post
		loader.AddPosting(acct, ccy, dec, note)
	}
''','''		for ccy, dec := range loader.GetLastCCYBals() {
			if dec.Sign() == 0 {
				continue
			}
			loader.AddPosting(acct, ccy, new(big.Rat).Neg(dec), note)
		}
		return
	}
	loader.AddPosting(acct, ccy, dec, note)
''',F,'	"math/big"\n','	"math/big"\n')
same('C03,C05',F,'''	isNeg := false
	if rr.ch == '-' {
		rr.next()
		isNeg = true
	}
	ccy, dec := rr.parseCCYAmt()
	if isNeg {
		dec.Neg(dec)
	}
''','''	isNeg := rr.ch == '-'
	if isNeg {
		rr.next()
	}
	ccy, dec := rr.parseCCYAmt()
	if isNeg {
		dec = new(big.Rat).Neg(dec)
	}
''')
same('C03',F,'''			return fmt.Errorf("parsing failure: %s: file includes itself", filename)''','''			return fmt.Errorf("parsing failure: %s: included by itself", filename)''')
same('C03,C05',F,'''	defer func() {
		if msg := recover(); msg != nil {
			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)
		}
	}()
''','''	defer recoverAs(&reterr, filename)
''',F,'func (rr *basicReader) parsePosting(','''func recoverAs(err *error, filename string) {
	if msg := recover(); msg != nil {
		*err = fmt.Errorf("parsing failure: %s: %s", filename, msg)
	}
}

func (rr *basicReader) parsePosting(''')
same('C03,C05',L,'''	r, _, err := rr.reader.ReadRune()
	if err == io.EOF {
		r = eof
	} else if err != nil {
		rr.stop("read error: %v", err)
	}
	rr.ch = r
''','''	r, _, err := rr.reader.ReadRune()
	switch {
	case errors.Is(err, io.EOF):
		r = eof
	case err != nil:
		rr.stop("read error: %v", err)
	}
	rr.ch = r
''',L,'	"bytes"\n','	"bytes"\n	"errors"\n')
# C05
bug('C05',F,'loader.NewTransaction(book.Date(date), payee, note)','loader.NewTransaction(book.Date(date), note, payee)')
bug('C05',F,"	if rr.ch == '*' {\n		rr.next()","	if rr.ch == '*' || rr.ch == '(' {\n		rr.next()")
bug('C05',F,'loader.AddPrice(book.Date(date), unit, ccy, amt)','loader.AddPrice(book.Date(date), ccy, unit, amt)')
bug('C05',F,'		loader.AddPosting(acct, ccy, dec, note)\n	}','		loader.AddPosting(nacct, ccy, dec, note)\n	}')
bug('C05',F,'	if ok {\n		acct = nacct\n	}','	if !ok {\n		nacct = acct\n	}\n	if nacct != "" && ccyless(nacct) {\n		acct = nacct\n	}',F,'func (rr *basicReader) parsePosting(','func ccyless(a string) bool { return strings.Contains(a, ":") }\n\nfunc (rr *basicReader) parsePosting(')
bug('C05',F,'	if isNeg {\n		dec.Neg(dec)\n	}','	if isNeg && ccy != "" {\n		dec.Abs(dec)\n		dec.Neg(dec)\n	}')
bug('C05',F,'				x.Neg(dec)\n','				x.Set(dec)\n')
bug('C05',F,'			if dec.Num().Cmp(&ZERO) != 0 {\n','			if dec.Num().Cmp(&ZERO) > 0 {\n')
bug('C05',F,"	for rr.ch != eof && rr.ch != ';' && rr.ch != eol {","	for rr.ch != eof && rr.ch != ';' && rr.ch != '|' && rr.ch != eol {")
bug('C05',F,"	for IsCCYRune(rr.ch) {\n		buf.WriteRune(rr.ch)","	for IsCCYRune(rr.ch) {\n		buf.WriteRune(unicode.ToUpper(rr.ch))")
bug('C05',F,"		c != '-' &&\n","")
bug('C05',L,'	date = (date * 100) + rr.parseNumber(&date, 1, 2)\n	rr.consume','	date = (date * 10) + rr.parseNumber(&date, 1, 2)\n	rr.consume')
bug('C05',L,'	if !book.Date(date).IsValid() {','	if !book.Date(date).IsValid() && date%100 > 31 {')
bug('C05',L,'		retval *= 10\n','		if chars > 0 {\n			retval *= 10\n		}\n		if chars == 2 {\n			retval += 0\n			retval /= 1\n			retval = retval - retval%2\n		}\n')
bug('C05',L,"	for rr.ch != eof && rr.ch != eol && rr.ch != '\"' {\n		buf.WriteRune(rr.ch)\n","	for rr.ch != eof && rr.ch != eol && rr.ch != '\"' {\n		if rr.ch == '\\\\' {\n			rr.next()\n		}\n		buf.WriteRune(rr.ch)\n")
bug('C05',F,"		_, _ = rr.parseCCYAmt()\n	}","		ccy, dec = rr.parseCCYAmt()\n	}")
same('C05',L,'''	chars := 0
	var retval int = 0
	for rr.ch >= '0' && rr.ch <= '9' {
		retval *= 10
		retval += int(rr.ch - rune('0'))
		chars++
		rr.next()
	}
''','''	chars, retval := 0, 0
	for ; '0' <= rr.ch && rr.ch <= '9'; chars++ {
		retval = 10*retval + int(rr.ch-'0')
		rr.next()
	}
''')
same('C05',F,'''	var buf bytes.Buffer
	for rr.ch != eol && rr.ch != eof {
		buf.WriteRune(rr.ch)
		rr.next()
	}

	return buf.String()
}
''','''	var text strings.Builder
	for {
		if rr.ch == eol || rr.ch == eof {
			return text.String()
		}
		text.WriteRune(rr.ch)
		rr.next()
	}
}
''')
same('C05',F,'''	} else {
		rr.next()
		_ = rr.consumeWS()
	}
''','''	}
	rr.next()
	rr.consumeWS()
''')
same('C05',F,'''	return (c != eof &&
		c != ';' &&
		c != '@' &&
		c != eol &&
		!unicode.IsSpace(c) &&
		c != '-' &&
		c != '.' &&
		(c < '0' || c > '9'))
''','''	switch c {
	case eof, ';', '@', eol, '-', '.':
		return false
	}
	if c >= '0' && c <= '9' {
		return false
	}
	return !unicode.IsSpace(c)
''')
same('C05',F,'''	if rr.ch == '"' || IsCCYRune(rr.ch) {
		ccy := rr.parseCCY()
		amt := rr.parseAmt()
		return ccy, amt
	} else {
		amt := rr.parseAmt()
		ccy := rr.parseCCY()
		return ccy, amt
	}
''','''	var ccy string
	first := rr.ch == '"' || IsCCYRune(rr.ch)
	if first {
		ccy = rr.parseCCY()
	}
	amt := rr.parseAmt()
	if !first {
		ccy = rr.parseCCY()
	}
	return ccy, amt
''')
same('C05',L,'''	var date int
	date = rr.parseNumber(&date, 1, 4)
	rr.consume('/')
	date = (date * 100) + rr.parseNumber(&date, 1, 2)
	rr.consume('/')
	date = (date * 100) + rr.parseNumber(&date, 1, 2)
	if !book.Date(date).IsValid() {
		rr.stop("invalid date %s", book.Date(date))
	}
	return book.Date(date)
''','''	var n int
	year := rr.parseNumber(&n, 1, 4)
	rr.consume('/')
	month := rr.parseNumber(&n, 1, 2)
	rr.consume('/')
	day := rr.parseNumber(&n, 1, 2)
	d := book.Date(year*10000 + month*100 + day)
	if d.IsValid() {
		return d
	}
	rr.stop("invalid date %s", d)
	return 0
''')
# C02
bug('C02',L,'			if isDec {\n				mag.Mul(mag, ten)','			if isDec && mag.BitLen() < 64 {\n				mag.Mul(mag, ten)')
bug('C02',L,"		if !isDec && rr.ch == '.' {","		if rr.ch == '.' {")
bug('C02',L,"		if rr.ch == ',' {\n","		if rr.ch == ',' {\n			isDec = false\n")
bug('C02',L,'			num.Add(num, big.NewInt(int64(rr.ch-\'0\')))','			num.Add(num, big.NewInt(int64(uint8(rr.ch-\'0\')%9)))')
bug('C02',L,'	if isNeg {\n		num.Neg(num)','	if isNeg && mag.Sign() > 1 {\n		num.Neg(num)')
bug('C02',L,'''	num := big.NewInt(0)
	mag := big.NewInt(1)
	ten := big.NewInt(10)
''','''	var num int64
	var mag int64 = 1
''',L,'''			num.Mul(num, ten)
			num.Add(num, big.NewInt(int64(rr.ch-'0')))
			if isDec {
				mag.Mul(mag, ten)
			}
''','''			num = num*10 + int64(rr.ch-'0')
			if isDec {
				mag *= 10
			}
''',L,'		num.Neg(num)\n	}\n\n	return new(big.Rat).SetFrac(num, mag)','		num = -num\n	}\n\n	return big.NewRat(num, mag)')
bug('C02',F,'	if isNeg {\n		dec.Neg(dec)\n	}','	if isNeg {\n		dec.SetFrac(new(big.Int).Neg(dec.Num()), big.NewInt(1))\n	}')
bug('C02',F,'loader.AddPrice(book.Date(date), unit, ccy, amt)','loader.AddPrice(book.Date(date), unit, ccy, amt.Abs(amt))')
bug('C02',L,"		if rr.ch == ',' {\n			rr.next()\n			continue","		if rr.ch == ',' || rr.ch == '_' {\n			rr.next()\n			continue")
same('C02,C05,C03',L,'''		if rr.ch >= '0' && rr.ch <= '9' {
			num.Mul(num, ten)
			num.Add(num, big.NewInt(int64(rr.ch-'0')))
			if isDec {
				mag.Mul(mag, ten)
			}
			rr.next()
			continue
		}
		if !isDec && rr.ch == '.' {
			isDec = true
			rr.next()
			continue
		}
		if rr.ch == ',' {
			rr.next()
			continue
		}

		break
	}
''','''		switch c := rr.ch; {
		case '0' <= c && c <= '9':
			appendDigit(num, int64(c-'0'))
			if isDec {
				mag.Mul(mag, ten)
			}
		case c == '.' && !isDec:
			isDec = true
		case c == ',':
		default:
			if isNeg {
				num.Neg(num)
			}
			return new(big.Rat).SetFrac(num, mag)
		}
		rr.next()
	}
}

func appendDigit(n *big.Int, d int64) {
	n.Mul(n, big.NewInt(10))
	n.Add(n, big.NewInt(d))
}
''',L,'''
	if isNeg {
		num.Neg(num)
	}

	return new(big.Rat).SetFrac(num, mag)
}
''','')
same('C02',L,'''	for {
		if rr.ch >= '0' && rr.ch <= '9' {
			num.Mul(num, ten)
			num.Add(num, big.NewInt(int64(rr.ch-'0')))
			if isDec {
				mag.Mul(mag, ten)
			}
			rr.next()
			continue
		}
		if !isDec && rr.ch == '.' {
			isDec = true
			rr.next()
			continue
		}
		if rr.ch == ',' {
			rr.next()
			continue
		}

		break
	}

	if isNeg {
		num.Neg(num)
	}

	return new(big.Rat).SetFrac(num, mag)
''','''	for rr.ch == ',' || rr.ch == '.' && !isDec || rr.ch >= '0' && rr.ch <= '9' {
		switch rr.ch {
		case ',':
		case '.':
			isDec = true
		default:
			num.Mul(num, ten).Add(num, big.NewInt(int64(rr.ch)-'0'))
			if isDec {
				mag.Mul(mag, ten)
			}
		}
		rr.next()
	}

	amt := new(big.Rat).SetFrac(num, mag)
	if isNeg {
		amt.Neg(amt)
	}
	return amt
''')
same('C02',L,'''	for {
		if rr.ch >= '0' && rr.ch <= '9' {
			num.Mul(num, ten)
			num.Add(num, big.NewInt(int64(rr.ch-'0')))
			if isDec {
				mag.Mul(mag, ten)
			}
			rr.next()
			continue
		}
		if !isDec && rr.ch == '.' {
			isDec = true
			rr.next()
			continue
		}
		if rr.ch == ',' {
			rr.next()
			continue
		}

		break
	}
''','''	_ = isDec
	for (rr.ch >= '0' && rr.ch <= '9') || rr.ch == ',' {
		if rr.ch != ',' {
			num.Mul(num, ten)
			num.Add(num, big.NewInt(int64(rr.ch-'0')))
		}
		rr.next()
	}
	if rr.ch == '.' {
		rr.next()
		for (rr.ch >= '0' && rr.ch <= '9') || rr.ch == ',' {
			if rr.ch != ',' {
				num.Mul(num, ten)
				num.Add(num, big.NewInt(int64(rr.ch-'0')))
				mag.Mul(mag, ten)
			}
			rr.next()
		}
	}
''')
# C06
bug('C06',F,'filepath.Join(filepath.Dir(filename), ifile), nmap, parents)','ifile, nmap, parents)')
bug('C06',F,'filepath.Join(filepath.Dir(filename), ifile), nmap, parents)','filepath.Join(filepath.Dir(path), ifile), alias, parents)')
bug('C06',F,'filepath.Join(filepath.Dir(filename), ifile), nmap, parents)','filepath.Join(filepath.Dir(parents[0]), ifile), nmap, parents)')
bug('C06',F,'''	nmap := make(map[string]string)
	if alias != nil {
		for k, v := range alias {
			nmap[k] = v
		}
	}
''','''	nmap := alias
	if alias == nil {
		nmap = make(map[string]string)
	}
''')
bug('C06',F,'			nmap[k] = v\n','			if k != v && len(parents) < 3 {\n				nmap[k] = v\n			}\n')
bug('C06',F,'				nmap[shortAcct] = longAcct','				if _, ok := nmap[shortAcct]; !ok {\n					nmap[shortAcct] = longAcct\n				}')
bug('C06',F,'				nmap[shortAcct] = longAcct','				nmap[longAcct] = shortAcct')
bug('C06',F,'''ifile[len(ifile)-1] == '"' {''','''ifile[len(ifile)-1] != ' ' {''')
bug('C06',F,'		rr.parsePosting(loader, nmap)','		rr.parsePosting(loader, alias)')
same('C06,C03,C23',F,'''				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
					ifile = ifile[1 : len(ifile)-1]
				}
				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
				if err != nil {
					return err
				}
''','''				dir := filepath.Dir(filename)
				if err := parseFileLocal(loader, filepath.Join(dir, unquote(ifile)), nmap, parents); err != nil {
					return err
				}
''',F,'func (rr *basicReader) parsePosting(','''func unquote(s string) string {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s
	}
	return s[1 : len(s)-1]
}

func (rr *basicReader) parsePosting(''')
same('C06,C03,C23',F,'''				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {''','''				if len(ifile) > 1 && strings.HasPrefix(ifile, `"`) && strings.HasSuffix(ifile, `"`) {''')
same('C06',F,'''	nmap := make(map[string]string)
	if alias != nil {
		for k, v := range alias {
			nmap[k] = v
		}
	}
''','''	nmap := map[string]string{}
	for short, long := range alias {
		nmap[short] = long
	}
''')
# C23
bug('C23',F,'filepath.Join(filepath.Dir(filename), ifile), nmap, parents)','filepath.Join(filepath.Dir(filename), ifile), nmap, parents[:1])')
bug('C23',F,'	for _, parent := range parents {\n		if parent == path {','	for i, parent := range parents {\n		if i > 0 && parent == path {')
bug('C23',F,'			return fmt.Errorf("parsing failure: %s: file includes itself", filename)','			return nil')
bug('C23','cmd/app/book_op.go','append(parents[:len(parents):len(parents)], op)','parents')
bug('C23','cmd/app/book_op.go','			if parent == op {','			if parent == op && len(m) > 1 {')
bug('C23','cmd/app/book_op.go','app.bookOp(b, macro, parents)','app.bookOp(b, macro, nil)')
bug('C23','cmd/app/book_op.go','		for _, parent := range parents {\n			if parent == op {\n				return fmt.Errorf("macro \'%s\' includes itself", op)\n			}\n		}\n','		if len(parents) > 0 && parents[len(parents)-1] == op {\n			return fmt.Errorf("macro \'%s\' includes itself", op)\n		}\n')
same('C23,C24','cmd/app/book_op.go','''		for _, parent := range parents {
			if parent == op {
				return fmt.Errorf("macro '%s' includes itself", op)
			}
		}
''','''		if contains(parents, op) {
			return fmt.Errorf("macro '%s' includes itself", op)
		}
''','cmd/app/book_op.go','func (app *App) bookOp(','''func contains(list []string, s string) bool {
	for i := range list {
		if list[i] == s {
			return true
		}
	}
	return false
}

func (app *App) bookOp(''')
