# C44: what a ledger file is refused for
PA='loader/parser.go'; LX='loader/lexer.go'
bug('C44',PA,'unit == "" || ccy == "" || amt.Sign() == 0','unit == "" || ccy == "" || amt.Sign() != 0')
bug('C44',PA,'unit == "" || ccy == "" || amt.Sign() == 0','unit == "" || ccy == "" || amt.Sign() <= 0')
bug('C44',PA,'unit == "" || ccy == "" || amt.Sign() == 0','unit == "" || ccy == "" || unit == ccy || amt.Sign() == 0')
bug('C44',PA,'if longAcct == "" {','if longAcct != "" {')
bug('C44',PA,'if longAcct == "" {','if longAcct == "" || longAcct == shortAcct {')
bug('C44',PA,'				rr.consumeWS()\n				if rr.ch != \'=\' {','				if rr.ch != \'=\' {')
bug('C44',PA,'func (rr *basicReader) parseCCY() string {\n	_ = rr.consumeWS()\n','func (rr *basicReader) parseCCY() string {\n')
bug('C44',PA,'	loader.AddPrice(book.Date(date), unit, ccy, amt)\n	_ = rr.parseNote()\n','	loader.AddPrice(book.Date(date), unit, ccy, amt)\n')
bug('C44',LX,'chars < min || chars > max','chars < min || chars >= max')
bug('C44',LX,'chars < min || chars > max','chars <= min || chars > max')
bug('C44',LX,'rr.ch != eof && rr.ch != eol && rr.ch != \'"\'','rr.ch != eof && rr.ch != eol && rr.ch != \'"\' && rr.ch != \';\'')
bug('C44',LX,'	if !book.Date(date).IsValid() {','	if !book.Date(date).IsValid() || date < 19700101 {')
bug('C44',PA,'		if dec.Sign() != 0 {','		if dec.Sign() != 0 || note != "" {')
bug('C44',PA,'				if ifile == "" {','				if ifile == "" || filepath.IsAbs(ifile) {')
bug('C44',PA,'	note := rr.parseNote()\n	rr.parseEOL()\n	return date','	note := rr.parseNote()\n	if payee == "" {\n		rr.stop("expected payee")\n	}\n	rr.parseEOL()\n	return date')
bug('C44',PA,'	rr.parseEOL()\n\n	if ccy == "" {','	rr.parseEOL()\n	if acct == "" {\n		rr.stop("expected account")\n	}\n\n	if ccy == "" {')
same('C44',PA,'unit == "" || ccy == "" || amt.Sign() == 0','len(unit) == 0 || amt.Sign() == 0 || len(ccy) == 0')
same('C44',LX,'chars < min || chars > max','max < chars || !(chars >= min)')
same('C44',LX,'	if rr.ch != e {\n		rr.stop("expected \'%c\', got \'%c\'", e, rr.ch)\n	}\n	rr.next()','	if rr.ch == e {\n		rr.next()\n		return\n	}\n	rr.stop("expected \'%c\', got \'%c\'", e, rr.ch)')
same('C44',PA,'	if ccy == "" {\n		if dec.Sign() != 0 {\n			rr.stop("expected currency for amount %s", dec.RatString())\n		}\n','	if ccy == "" && dec.Sign() != 0 {\n		rr.stop("expected currency for amount %s", dec.RatString())\n	}\n	if ccy == "" {\n')
