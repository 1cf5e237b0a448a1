A='cmd/reports/report.go'; B='cmd/register/register.go'; M='book/book.go'
conv='''		b.MapAmount(func(date book.Date, iccy string) (*big.Rat, string) {
			rate, _ := b.GetPrice(date, iccy, app.BaseCCY)
			return rate, app.BaseCCY
		})
'''
convr='''		b.MapAmount(func(date book.Date, iccy string) (*big.Rat, string) {
			rate, _ := b.GetPrice(date, iccy, rapp.BaseCCY)
			return rate, rapp.BaseCCY
		})
'''
bug('C14',A,'b.GetPrice(date, iccy, app.BaseCCY)','b.GetPrice(date, app.BaseCCY, iccy)')
bug('C14',A,'			return rate, app.BaseCCY','			return rate, iccy')
bug('C14',A,'b.GetPrice(date, iccy, app.BaseCCY)','b.GetPrice(book.GetToday(), iccy, app.BaseCCY)')
bug('C14',B,'			return rate, rapp.BaseCCY','			if rate.Sign() < 0 {\n				return big.NewRat(1, 1), rapp.BaseCCY\n			}\n			return rate, rapp.BaseCCY')
bug('C14',M,'		p[i].val.Mul(p[i].val, v)','		p[i].val.Quo(p[i].val, v)')
bug('C14',M,'		p[i].ccy = ccy\n		p[i].val.Mul','		if i > 0 && p[i-1].ccy == ccy {\n			continue\n		}\n		p[i].ccy = ccy\n		p[i].val.Mul')
bug('C14',M,'mapper(p[i].date, p[i].ccy)\n		p[i].ccy = ccy','mapper(p[0].date, p[i].ccy)\n		p[i].ccy = ccy')
bug('C14',A,'report.Type != "Beancount" && report.Convert {','report.Type != "Beancount" && report.Convert && !report.Sum {')
bug('C14',A,'	// Always combine for reports\n	if report.Type != "Beancount" && report.Combineby != "skip" {\n		b.SplitBy(report.Combineby)\n	}\n','',A,'	var creditre','	if report.Type != "Beancount" && report.Combineby != "skip" {\n		b.SplitBy(report.Combineby)\n	}\n	var creditre')
bug('C14',B,'	if reg.Convert {','	if reg.Convert && reg.Combined {')
bug('C14',B,'		if rapp.BaseCCY == "" {\n			return fmt.Errorf("unable to convert -- no CCY specified")\n		}\n','')
same('C14,C12',A,conv,'		b.Convert(app.BaseCCY)\n',A,'	"math/big"\n','',M,'func (b *Book) MapAccount(','''func (b *Book) Convert(to string) {
	b.MapAmount(func(date Date, ccy string) (*big.Rat, string) {
		r, _ := b.GetPrice(date, ccy, to)
		return r, to
	})
}

func (b *Book) MapAccount(''')
same('C14,C12',M,'''	p := b.post
	for i := range p {
		v, ccy := mapper(p[i].date, p[i].ccy)
		p[i].ccy = ccy
		p[i].val.Mul(p[i].val, v)
	}
''','''	for i := 0; i < len(b.post); i++ {
		p := &b.post[i]
		factor, ccy := mapper(p.date, p.ccy)
		p.val = new(big.Rat).Mul(p.val, factor)
		p.ccy = ccy
	}
''')
same('C14',A,'''	if report.Type != "Beancount" && report.Convert {
		if app.BaseCCY == "" {
			return fmt.Errorf("unable to convert -- no CCY specified")
		}
'''+conv+'''	}
''','''	if report.Type != "Beancount" && report.Convert {
		if err := convert(b, app.BaseCCY); err != nil {
			return err
		}
	}
''',A,'func (report *TransactionReport) run(','''func convert(b *book.Book, ccy string) error {
	if len(ccy) == 0 {
		return fmt.Errorf("unable to convert -- no CCY specified")
	}
	b.MapAmount(func(date book.Date, from string) (*big.Rat, string) {
		rate, _ := b.GetPrice(date, from, ccy)
		return rate, ccy
	})
	return nil
}

func (report *TransactionReport) run(''')
O='cmd/app/book_op.go'
bug('C24',O,'return b.RegexAccounts(args[1], args[2], args[4])','return b.RegexAccounts(args[1], args[2], args[3])')
bug('C24',O,'var map_op = regexp.MustCompile("^/([^/]+)/([^/]+)/(([^/]+)/)?$")','var map_op = regexp.MustCompile("^/([^/]+)/([^/]+)/(([^/]+)/)?")')
bug('C24',O,'b.AdjustPost(args[1], args[2], factor)','b.AdjustPost(args[2], args[1], factor)')
bug('C24',O,'		b.FilterByDateAsof(d)','		b.FilterByDateSince(d)')
bug('C24',O,'strings.EqualFold(op_act, typ)','strings.HasPrefix(typ, op_act)')
bug('C24',O,'"monthly", months','"quarterly", months')
bug('C24',O,'			err = app.bookOp(b, macro, parents)\n','			_ = macro\n			err = app.bookOp(b, m[0], parents)\n')
bug('C24',O,'		return nil\n	}\n\n	op_type','	}\n\n	op_type')
bug('C24',O,'	for _, op := range ops {\n		if err','	for i := len(ops) - 1; i >= 0; i-- {\n		op := ops[i]\n		if err')
bug('C24',O,'	default:\n		return fmt.Errorf("operation type','	default:\n		if b != nil {\n			return nil\n		}\n		return fmt.Errorf("operation type')
bug('C24',O,'strconv.ParseInt(args[3], 10, 64)','strconv.ParseInt(args[3], 0, 64)')
same('C24',O,'''		if err := app.bookOp(b, op, nil); err != nil {
			return fmt.Errorf("error applying operation '%s': %w", op, err)
		}
	}

	return nil
''','''		err := app.bookOp(b, op, nil)
		if err == nil {
			continue
		}
		return fmt.Errorf("error applying operation '%s': %w", op, err)
	}
	return nil
''')
same('C24',O,'''	op_type := re_op_prefix.FindString(op)
	if op_type == "" {
		return fmt.Errorf("missing type: must be format '%s' or a valid macro", re_op_prefix.String())
	}

	op_act := op[len(op_type):]

	switch op_type {
''','''	op_type := re_op_prefix.FindString(op)
	if len(op_type) == 0 {
		return fmt.Errorf("missing type: must be format '%s' or a valid macro", re_op_prefix.String())
	}
	return applyOp(b, op_type, strings.TrimPrefix(op, op_type))
}

func applyOp(b *book.Book, op_type string, op_act string) error {
	switch op_type {
''')
same('C24',O,'''		d := book.DateFromString(op_act)
		if d == book.Date(0) {
			return fmt.Errorf("asof date '%s', invalid", op_act)
		}
		b.FilterByDateAsof(d)
		return nil
	case "since=":
		d := book.DateFromString(op_act)
		if d == book.Date(0) {
			return fmt.Errorf("since date '%s', invalid", op_act)
		}
		b.FilterByDateSince(d)
		return nil
''','''		d, err := parseOpDate("asof", op_act)
		if err == nil {
			b.FilterByDateAsof(d)
		}
		return err
	case "since=":
		d, err := parseOpDate("since", op_act)
		if err == nil {
			b.FilterByDateSince(d)
		}
		return err
''',O,'func (app *App) BookOps(','''func parseOpDate(name, text string) (book.Date, error) {
	d := book.DateFromString(text)
	if d == book.Date(0) {
		return d, fmt.Errorf("%s date '%s', invalid", name, text)
	}
	return d, nil
}

func (app *App) BookOps(''')
bug('C24',A,'	// Apply ops\n	err = app.BookOps(b, args...)\n	if err != nil {\n		return err\n	}\n','',A,'	var creditre','	if err = app.BookOps(b, args...); err != nil {\n		return err\n	}\n\n	var creditre')
bug('C24',A,'report.Type != "Beancount" && report.Combineby','report.Type == "Text" && report.Combineby')
bug('C24',A,'		trans = b.Accumulate(app.BaseCCY, app.Divider, creditre, report.Hidden)','		if report.Hidden != "" {\n			creditre = nil\n		}\n		trans = b.Accumulate(app.BaseCCY, app.Divider, creditre, report.Hidden)')
bug('C24',A,'report.Type == "Json" {\n		return bp.PrintJSON(trans,','report.Type == "Json" {\n		return bp.PrintJSON(b.Transactions(),')
bug('C24',B,'args[0:len(args)-1]...','args[1:]...')
bug('C24',B,'if len(args) > 1 {','if len(args) > 2 {')
bug('C24',B,'regexp.Compile("^" + regexp.QuoteMeta(acct) + "$")','regexp.Compile("^" + regexp.QuoteMeta(acct))')
bug('C24',B,'b.Accounts(arg, !rapp.All)','b.Accounts(arg, rapp.All)')
bug('C24',B,'		rep = b.ExtractRegister(rapp.BaseCCY, re, reg.Split)','		rep = b.ExtractRegister("", re, reg.Split)')
same('C24,C14',A,'''	if report.Type == "Text" {
		return ShowTransactions(bp, trans)
	} else if report.Type == "Json" {
		return bp.PrintJSON(trans, report.JsonPretty)
	} else if report.Type == "HTML" {
		return ShowHTMLTransactions(bp, trans, report.HTMLCSS)
	} else if report.Type == "Beancount" {
		return ShowBeancount(bp, trans)
	} else {
		return ShowLedger(bp, trans)
	}
''','''	return report.show(bp, trans)
''',A,'func (report *TransactionReport) run(','''func (report *TransactionReport) show(bp *app.BookPrinter, trans []book.Transaction) error {
	switch report.Type {
	case "Text":
		return ShowTransactions(bp, trans)
	case "Json":
		return bp.PrintJSON(trans, report.JsonPretty)
	case "HTML":
		return ShowHTMLTransactions(bp, trans, report.HTMLCSS)
	case "Beancount":
		return ShowBeancount(bp, trans)
	}
	return ShowLedger(bp, trans)
}

func (report *TransactionReport) run(''')
same('C24,C14,C09',B,'''	for _, acct := range accts {
		bp.Printf("\\n%s\\n", bp.Ansi(app.BlueUL, acct))
''','''	for _, acct := range accts {
		if err := reg.showAccount(rapp, bp, b, acct); err != nil {
			return err
		}
	}

	return nil

}

func (reg *RegisterReport) showAccount(rapp *app.App, bp *app.BookPrinter, b *book.Book, acct string) error {
	bp.Printf("\\n%s\\n", bp.Ansi(app.BlueUL, acct))
''',B,'''		rep = b.ExtractRegister(rapp.BaseCCY, acctRe, reg.Split)
		if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {
			return err
		}
''','''		rep := b.ExtractRegister(rapp.BaseCCY, acctRe, reg.Split)
		if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {
			return err
		}
''',B,'''			return fmt.Errorf("error writing report '%s': %w", acct, err)
		}
	}

	return bp.Err()

}''','''			return fmt.Errorf("error writing report '%s': %w", acct, err)
		}
	return nil
}''')
