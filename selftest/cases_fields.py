# C18: JSON, CSV and scripts
P='book/posting.go'; T_='book/transaction.go'; R='book/registry.go'; X='cmd/export/csv.go'; S='cmd/register/show_register.go'; B='script/book.go'; A='cmd/app/print.go'; E_='cmd/export/export.go'
bug('C18',P,'		CCY:     p.ccy,\n		Amount:  amt,\n','		CCY:     p.acct,\n		Amount:  amt,\n')
bug('C18',P,'	amt, _ := p.val.Float64()\n	return json','	amt, _ := p.bal.Float64()\n	return json')
bug('C18',P,'Amount  float64 `json:"amount"`','Amount  float64 `json:"amount,omitempty"`')
bug('C18',P,'		Note    string  `json:"note,omitempty"`\n','		Note    string  `json:"-"`\n')
bug('C18',P,'		Account string  `json:"account"`\n		CCY     string  `json:"ccy"`\n','		Account string  `json:"ccy"`\n		CCY     string  `json:"account"`\n')
bug('C18',P,'		Account: p.acct,\n','		Account: p.acctterm,\n')
bug('C18',T_,'		Note:  t[0].tnote,\n','		Note:  t[0].note,\n')
bug('C18',T_,'		Posts: t,\n','		Posts: t[1:],\n')
bug('C18',T_,'GetTime().Format(time.RFC3339)','GetTime().Format(time.RFC1123)')
bug('C18',T_,'		Date:  t[0].date.GetTime()','		Date:  t[0].date.AddDays(1).GetTime()')
bug('C18',R,'	baseAmt, _ := re.BaseAmount.Float64()','	baseAmt, _ := re.Amount.Float64()')
bug('C18',R,'		Note:           re.Note,\n		TNote:          re.TNote,\n','		Note:           re.TNote,\n		TNote:          re.TNote,\n')
bug('C18',R,'Balance        float64 `json:"balance"`','Balance        float64 `json:"balance,omitempty"`')
bug('C18',R,'BaseSource:  re.BaseSource.String(),','BaseSource:  PriceType(PriceTypeExact).String(),')
bug('C18','book/price.go','[5]string{"OutOfRange", "Inferred", "Exact",','[5]string{"OutOfRange", "Exact", "Inferred",')
bug('C18',X,'		"account",\n		"currency",\n','		"currency",\n		"account",\n')
bug('C18',X,'				posts.GetTransactionNote(),\n','				p.GetPostNote(),\n')
bug('C18',X,'b.FormatExact(p.GetCCY(), p.GetAmount())','b.FormatNumber(p.GetCCY(), p.GetAmount())')
bug('C18',X,'		for _, p := range posts {\n','		for _, p := range posts[1:] {\n')
bug('C18',X,'		for _, p := range posts {\n','		for _, p := range posts {\n			if p.GetAmount().Sign() == 0 {\n				continue\n			}\n')
bug('C18',X,'			if err != nil {\n				return err\n			}\n','			if err != nil {\n				break\n			}\n')
bug('C18',X,'	csvwrite.Flush()\n','')
bug('C18',X,'	csvwrite.Flush()\n\n	return csvwrite.Error()','	err := csvwrite.Error()\n	csvwrite.Flush()\n	return err')
bug('C18',S,'			p.Account,\n			p.CounterAccount,\n			p.CCY,\n','			p.CounterAccount,\n			p.Account,\n			p.CCY,\n')
bug('C18',S,'b.FormatExact(p.CCY, p.Balance),','b.FormatExact(p.CCY, p.BaseBalance),')
bug('C18',S,'		"ccy",\n		"amount",\n		"balance",\n','		"ccy",\n		"balance",\n		"amount",\n')
bug('C18',S,'	for _, p := range report {\n		rows = append(rows, []string{','	for i, p := range report {\n		if i > 0 && report[i-1].Payee == p.Payee {\n			continue\n		}\n		rows = append(rows, []string{')
bug('C18',A,'	for _, row := range rows {\n		if err := csvwrite','	for _, row := range rows[1:] {\n		if err := csvwrite')
bug('C18',A,'	csvwrite.Flush()\n\n	return csvwrite.Error()','	csvwrite.Flush()\n\n	return nil')
bug('C18',A,'		ob, err = json.Marshal(v)','		ob, err = json.Marshal(&pretty)')
bug('C18',A,'	if err != nil {\n		return err\n	}\n\n	if _, err = b.Write(ob); err != nil {\n		return err\n	}\n','	if _, err = b.Write(ob); err != nil {\n		return err\n	}\n')
bug('C18',A,'	if _, err = b.Write(ob); err != nil {\n		return err\n	}\n','	b.Write(ob)\n')
bug('C18',E_,'	} else if export.Type == "CSV" {\n','	} else if export.Type == "Csv" {\n')
bug('C18',E_,'return ShowCSV(bp, b)','return ShowLedger(bp, b)')
bug('C18',E_,'	err = app.BookOps(b, args...)\n','	err = app.BookOps(b.Duplicate(), args...)\n')
bug('C18',B,'		return starlark.String(post.GetPostNote()), nil','		return starlark.String(post.GetTransactionNote()), nil')
bug('C18',B,'		return starlark.String(trans.GetTransactionNote()), nil','		return starlark.String(trans[0].GetPostNote()), nil')
bug('C18',B,'v, _ := post.GetBalance().Float64()','v, _ := post.GetAmount().Float64()')
bug('C18',B,'	case "ccy":\n','	case "currency":\n')
bug('C18',B,'		"amount", "ccy", "posting_note", "balance",\n','		"amount", "currency", "posting_note", "balance",\n')
bug('C18',B,'	if p.i == p.Len() {','	if p.i == p.Len()-1 {')
bug('C18',B,'	*v = p.Index(p.i)\n	p.i += 1\n','	p.i += 1\n	*v = p.Index(p.i - 1 + p.i%2)\n')
bug('C18',B,'	return &starlarkIterator{s, 0}\n}\nfunc (s starlarkTransaction)','	return &starlarkIterator{s, 1}\n}\nfunc (s starlarkTransaction)')
bug('C18',B,'	return starlarkTransaction(s[i])','	return starlarkTransaction(s[len(s)-1-i])')
bug('C18',B,'func (s starlarkTransactions) Len() int {\n	return len(s)','func (s starlarkTransactions) Len() int {\n	return len(s) - 1')
bug('C18','script/book_op.go','		return starlarkTransactions(s.b.Transactions()), nil','		return starlarkTransactions(s.b.Duplicate().Transactions()), nil') if False else None

same('C18',P,'''	type JsonPosting struct {
		Account string  `json:"account"`
		CCY     string  `json:"ccy"`
		Amount  float64 `json:"amount"`
		Note    string  `json:"note,omitempty"`
	}

	amt, _ := p.val.Float64()
	return json.Marshal(&JsonPosting{
		Account: p.acct,
		CCY:     p.ccy,
		Amount:  amt,
		Note:    p.note,
	})
''','''	type JsonPosting struct {
		Account string  `json:"account"`
		CCY     string  `json:"ccy"`
		Amount  float64 `json:"amount"`
		Note    string  `json:"note,omitempty"`
	}
	var out JsonPosting
	out.Note = p.GetPostNote()
	out.Amount, _ = p.GetAmount().Float64()
	out.Account, out.CCY = p.GetAccount(), p.GetCCY()
	buf, err := json.Marshal(out)
	if err != nil {
		return nil, err
	}
	return buf, nil
''')
same('C18',T_,'''	return json.Marshal(&JsonTransaction{
		Date:  t[0].date.GetTime().Format(time.RFC3339),
		Payee: t[0].payee,
		Note:  t[0].tnote,
		Posts: t,
	})''','''	first := t[0]
	when := first.GetDate().GetTime()
	return json.Marshal(JsonTransaction{when.Format(time.RFC3339), first.GetPayee(), t.GetTransactionNote(), t})''')
same('C18',R,'''	amt, _ := re.Amount.Float64()
	bal, _ := re.Balance.Float64()
''','''	toFloat := func(r *big.Rat) float64 {
		v, _ := r.Float64()
		return v
	}
	amt := toFloat(re.Amount)
	bal := toFloat(re.Balance)
''')
same('C18','book/price.go','	return [5]string{"OutOfRange", "Inferred", "Exact", "Trade", "None"}[d]','''	switch d {
	case PriceTypeOutOfRange:
		return "OutOfRange"
	case PriceTypeInferred:
		return "Inferred"
	case PriceTypeExact:
		return "Exact"
	case PriceTypeTrade:
		return "Trade"
	case PriceTypeNone:
		return "None"
	}
	panic("no such price type")''')
same('C18',X,'''			err := csvwrite.Write([]string{
				posts.GetDate().String(),
				posts.GetPayee(),
				posts.GetTransactionNote(),
				p.GetAccount(),
				p.GetCCY(),
				b.FormatExact(p.GetCCY(), p.GetAmount()),
				p.GetPostNote(),
			})
			if err != nil {
				return err
			}
''','''			ccy := p.GetCCY()
			amt := b.FormatExact(ccy, p.GetAmount())
			row := make([]string, len(hdrs))
			row[0] = p.GetDate().String()
			row[1] = p.GetPayee()
			row[2] = p.GetTransactionNote()
			row[3], row[4], row[5] = p.GetAccount(), ccy, amt
			row[6] = p.GetPostNote()
			if err := csvwrite.Write(row); err != nil {
				return err
			}
''')
same('C18',X,'''	for _, posts := range bk.Transactions() {
		for _, p := range posts {
			err := csvwrite.Write([]string{''','''	all := bk.Transactions()
	for i := 0; i < len(all); i++ {
		posts := all[i]
		for j := range posts {
			p := posts[j]
			err := csvwrite.Write([]string{''')
same('C18',X,'''			err := csvwrite.Write([]string{
				posts.GetDate().String(),
				posts.GetPayee(),
				posts.GetTransactionNote(),
				p.GetAccount(),
				p.GetCCY(),
				b.FormatExact(p.GetCCY(), p.GetAmount()),
				p.GetPostNote(),
			})
			if err != nil {
				return err
			}
		}
	}

	csvwrite.Flush()

	return csvwrite.Error()
}''','''			if err := writeRow(csvwrite, b, posts, p); err != nil {
				return err
			}
		}
	}

	csvwrite.Flush()
	if err := csvwrite.Error(); err != nil {
		return err
	}
	return nil
}

func writeRow(w *csv.Writer, b *app.BookPrinter, posts book.Transaction, p book.Posting) error {
	return w.Write([]string{
		posts.GetDate().String(),
		posts.GetPayee(),
		posts.GetTransactionNote(),
		p.GetAccount(),
		p.GetCCY(),
		b.FormatExact(p.GetCCY(), p.GetAmount()),
		p.GetPostNote(),
	})
}''')
same('C18',S,'''	for _, p := range report {
		rows = append(rows, []string{
			p.Date.String(),
			p.Payee,
			p.Account,
			p.CounterAccount,
			p.CCY,
			b.FormatExact(p.CCY, p.Amount),
			b.FormatExact(p.CCY, p.Balance),
		})
	}
''','''	toRow := func(p *book.RegistryEntry) []string {
		amount := b.FormatExact(p.CCY, p.Amount)
		balance := b.FormatExact(p.CCY, p.Balance)
		return []string{p.Date.String(), p.Payee, p.Account, p.CounterAccount, p.CCY, amount, balance}
	}
	for i := range report {
		rows = append(rows, toRow(report[i]))
	}
''')
same('C18',A,'''	for _, row := range rows {
		if err := csvwrite.Write(row); err != nil {
			return fmt.Errorf("error writing csv: %w", err)
		}
	}

	csvwrite.Flush()

	return csvwrite.Error()''','''	if err := csvwrite.WriteAll(rows); err != nil {
		return fmt.Errorf("error writing csv: %w", err)
	}
	return nil''')
same('C18',A,'''	if _, err = b.Write(ob); err != nil {
		return err
	}

	return nil
}

func (b *BookPrinter) PrintCSV''','''	_, err = b.Write(ob)
	return err
}

func (b *BookPrinter) PrintCSV''')
same('C18',E_,'''	if export.Type == "Json" {
		return bp.PrintJSON(b.Transactions(), export.JsonPretty)
	} else if export.Type == "Beancount" {
		return ShowBeancount(bp, b, app.BaseCCY)
	} else if export.Type == "CSV" {
		return ShowCSV(bp, b)
	} else {
		return ShowLedger(bp, b)
	}
''','''	switch export.Type {
	case "CSV":
		return ShowCSV(bp, b)
	case "Beancount":
		return ShowBeancount(bp, b, app.BaseCCY)
	case "Json":
		trans := b.Transactions()
		return bp.PrintJSON(trans, export.JsonPretty)
	}
	return ShowLedger(bp, b)
''')
same('C18',B,'''	case "amount":
		v, _ := post.GetAmount().Float64()
		return starlark.Float(v), nil
	case "ccy":''','''	case "amount":
		return toFloat(post.GetAmount()), nil
	case "ccy":''',B,'func (s starlarkPosting) AttrNames()','''func toFloat(r *big.Rat) starlark.Float {
	v, _ := r.Float64()
	return starlark.Float(v)
}

func (s starlarkPosting) AttrNames()''',B,'	"go.starlark.net/starlark"\n','	"go.starlark.net/starlark"\n	"math/big"\n')
same('C18',B,'''	if p.i == p.Len() {
		return false
	}
	*v = p.Index(p.i)
	p.i += 1
	return true
''','''	if i := p.i; i < p.Len() {
		p.i++
		*v = p.Index(i)
		return true
	}
	return false
''')
same('C18',B,'''	switch name {
	case "date":
		return starlark.String(trans.GetDate().String()), nil
	case "payee":''','''	if name == "date" {
		d := trans[0].GetDate()
		return starlark.String(d.String()), nil
	}
	switch name {
	case "payee":''')
