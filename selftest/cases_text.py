T='cmd/reports/text.go'; P='cmd/app/print.go'
import glob
G='cmd/register/register.go' if 'func ShowText' in open('/repo/cmd/register/register.go').read() else 'cmd/register/show_register.go'
# --- report
bug('C20',T,'''		header[i+1] = app.ColumnRightString(b.Ansi(app.UL, t.GetDate().String()))
''','''		header[i+1] = app.ColumnRightString(b.Ansi(app.UL, postingTrans.GetDate().String())); _ = t
''')
bug('C20',T,'''		header[i+1] = app.ColumnRightString(b.Ansi(app.UL, t.GetDate().String()))
''','''		header[i+1] = app.ColumnRightString(b.Ansi(app.UL, t.GetPayee()))
''')
bug('C20',T,'''			t = strings.Repeat("  ", lvl) + acctterm
''','''			t = strings.Repeat("  ", lvl-1) + acctterm
''')
bug('C20',T,'''			t = strings.Repeat("  ", lvl) + acctterm
''','''			t = acctterm; _ = strings.Repeat
''')
bug('C20',T,'''			acctterm := v.GetAccountTerm()
''','''			acctterm := v.GetAccount()
''')
bug('C20',T,'''		if i > 0 && v.GetAccountLevel() == 0 {
			rows = append(rows, nil)
		}

		pidx := len(rows)
''','''		pidx := len(rows)
		if i > 0 && v.GetAccountLevel() == 0 {
			rows = append(rows, nil)
		}

''')
bug('C20',T,'''		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
''','''		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), ""}] = pidx
''',T,'''			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]
''','''			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), ""}]
''')
bug('C20',T,'''			if !ok {
				return fmt.Errorf("account %s (term %s) currency %s not on all transactions; must summarise!",
					v.GetAccount(),
					v.GetAccountTerm(),
					v.GetCCY())
			}
''','''			if !ok {
				continue
			}
''')
bug('C20',T,'''			if !ok {
				return''','''			if !ok && i == 0 {
				return''')
bug('C20',T,'''			if rows[pidx][i+1] != nil {
				return fmt.Errorf("account %s (term %s) currency %s more than once in a transaction; must summarise!",
					v.GetAccount(),
					v.GetAccountTerm(),
					v.GetCCY())
			}
''','')
bug('C20',T,'''			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''','''			rows[pidx][len(trans)-i] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''')
bug('C20',T,'''			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''','''			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetBalance())
''')
bug('C20',T,'''			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''','''			rows[pidx][i+1] = b.GetColumnMoney(trans[i][0].GetCCY(), v.GetAmount())
''')
bug('C20',T,'''			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''','''			if v.GetAmount().Sign() < 0 && pidx == 1 {
				continue
			}
			rows[pidx][i+1] = b.GetColumnMoney(v.GetCCY(), v.GetAmount())
''')
bug('C20',T,'''			if row[i] == nil {
''','''			if row[i] == nil || i > 8 {
''')
bug('C20',T,'''	fmts[0] = false
	for i := range trans {
		fmts[i+1] = false
	}
''','''	fmts[0] = false
	for i := range trans {
		fmts[i+1] = true
	}
''')
bug('C20',T,'''		for _, v := range trans[i] {
''','''		for _, v := range trans[i][1:] {
''')
bug('C20',T,'''	for i := range trans {

		for''','''	for i := range trans[1:] {

		for''')
bug('C20',T,'''	for i, v := range postingTrans {

''','''	for i, v := range postingTrans {
		if v.GetAmount().Sign() == 0 {
			continue
		}
''')
bug('C20',T,'''	b.PrintColumns(rows, fmts)
''','''	b.PrintColumns(rows[1:], fmts)
''')
bug('C20',T,'''	b.PrintColumns(rows, fmts)
''','''	if len(rows) > 2 {
		b.PrintColumns(rows, fmts)
	}
''')
same('C20',T,'''		// Get account name
		lvl := v.GetAccountLevel()
		var t string
		if lvl == 0 {
			t = b.Ansi(app.BlueUL, v.GetAccountTerm())
		} else {
			acctterm := v.GetAccountTerm()
			t = strings.Repeat("  ", lvl) + acctterm
		}
''','''		// Get account name
		t := strings.Repeat("  ", v.GetAccountLevel()) + v.GetAccountTerm()
		if v.GetAccountLevel() == 0 {
			t = b.Ansi(app.BlueUL, t)
		}
''')
same('C20',T,'''		pidx := len(rows)
		rows = append(rows, make([]app.ColumnValue, len(trans)+1))
		rows[pidx][0] = app.ColumnString(t)

		// Record the index
		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
''','''		row := make([]app.ColumnValue, len(trans)+1)
		row[0] = app.ColumnString(t)
		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = len(rows)
		rows = append(rows, row)
''')
same('C20',T,'''		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
''','''		idx[key(v)] = pidx
''',T,'''			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]
''','''			pidx, ok := idx[key(v)]
''',T,'''func ShowTransactions(''','''func key(v book.Posting) [3]string {
	return [3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}
}

func ShowTransactions(''')
same('C20',T,'''	fmts := make([]bool, len(trans)+1)
	fmts[0] = false
	for i := range trans {
		fmts[i+1] = false
	}
''','''	fmts := make([]bool, 1+len(trans))
''')
same('C20',T,'''	for i := range trans {

		for _, v := range trans[i] {
''','''	for i, t := range trans {

		for _, v := range t {
''')
same('C20',T,'''			if rows[pidx][i+1] != nil {
				return''','''			cell := &rows[pidx][i+1]
			if *cell != nil {
				return''',T,'''			rows[pidx][i+1] = b.G''','''			*cell = b.G''')
same('C20',T,'''	for _, row := range rows {
		for i := range row {
			if row[i] == nil {
				row[i] = app.ColumnString("")
			}
		}
	}

	b.PrintColumns(rows, fmts)
''','''	fill(rows)
	b.PrintColumns(rows, fmts)
''',T,'''func ShowTransactions(''','''func fill(rows [][]app.ColumnValue) {
	for r := range rows {
		for i, v := range rows[r] {
			if v == nil {
				rows[r][i] = app.ColumnString("")
			}
		}
	}
}

func ShowTransactions(''')
same('C20',T,'''	header := make([]app.ColumnValue, len(trans)+1)
	header[0] = app.ColumnString(b.Ansi(app.UL, "Account"))
	for i, t := range trans {
		header[i+1] = app.ColumnRightString(b.Ansi(app.UL, t.GetDate().String()))
	}
''','''	header := make([]app.ColumnValue, 1, len(trans)+1)
	header[0] = app.ColumnString(b.Ansi(app.UL, "Account"))
	for _, t := range trans {
		header = append(header, app.ColumnRightString(b.Ansi(app.UL, t.GetDate().String())))
	}
''')
same('C20',T,'''	// Nothing to show
	if len(trans) == 0 {
		return b.Err()
	}

	// Main transaction (reference one)
	postingTrans := trans[len(trans)-1]
''','''	n := len(trans)
	if n < 1 {
		return b.Err()
	}
	postingTrans := trans[n-1]
''')
# --- register
bug('C20',G,'''		row = append(row, b.GetColumnMoney(p.CCY, p.Amount))
		if withBal {
			row = append(row, b.GetColumnMoney(p.CCY, p.Balance))
''','''		row = append(row, b.GetColumnMoney(p.CCY, p.Amount))
		if withBal {
			row = append(row, b.GetColumnMoney(p.CCY, p.BaseBalance))
''')
bug('C20',G,'''		row = append(row, b.GetColumnMoney(p.CCY, p.Amount))
		if withBal {''','''		row = append(row, b.GetColumnMoney(p.CCY, p.BaseAmount))
		if withBal {''')
bug('C20',G,'''		row = append(row, app.ColumnString(p.Payee))
		if withAcct {
			row = append(row, app.ColumnString(p.Account))
		}
		row = append(row, app.ColumnString(p.CounterAccount))
''','''		row = append(row, app.ColumnString(p.Payee))
		row = append(row, app.ColumnString(p.CounterAccount))
		if withAcct {
			row = append(row, app.ColumnString(p.Account))
		}
''')
bug('C20',G,'''	fmts = append(fmts, true)
	fmts = append(fmts, false)
	if withBal {''','''	fmts = append(fmts, false)
	fmts = append(fmts, true)
	if withBal {''')
bug('C20',G,'''		rows = append(rows, row)
	}

	b.PrintColumns''','''		if p.Amount.Sign() != 0 {
			rows = append(rows, row)
		}
	}

	b.PrintColumns''')
bug('C20',G,'''		rows = append(rows, row)
	}

	b.PrintColumns(''','''		rows = append(rows, row)
		if len(rows) > 1000 {
			break
		}
	}

	b.PrintColumns(''')
same('C20',G,'''		row := make([]app.ColumnValue, 0, cols)
		row = append(row, app.ColumnString(p.Date.String()))
		row = append(row, app.ColumnString(p.Payee))
''','''		row := []app.ColumnValue{app.ColumnString(p.Date.String()), app.ColumnString(p.Payee)}
''')
same('C20',G,'''		row := make([]app.ColumnValue, 0, cols)
		row = append(row, app.ColumnString(p.Date.String()))
		row = append(row, app.ColumnString(p.Payee))
		if withAcct {
			row = append(row, app.ColumnString(p.Account))
		}
		row = append(row, app.ColumnString(p.CounterAccount))
		row = append(row, b.GetColumnMoney(p.CCY, p.Amount))
		if withBal {
			row = append(row, b.GetColumnMoney(p.CCY, p.Balance))
		}
		rows = append(rows, row)
''','''		rows = append(rows, rowFor(b, p, withAcct, withBal))
''',G,'''func ShowText(''','''func rowFor(b *app.BookPrinter, p *book.RegistryEntry, withAcct bool, withBal bool) (row []app.ColumnValue) {
	row = append(row, app.ColumnString(p.Date.String()), app.ColumnString(p.Payee))
	if withAcct {
		row = append(row, app.ColumnString(p.Account))
	}
	row = append(row, app.ColumnString(p.CounterAccount), b.GetColumnMoney(p.CCY, p.Amount))
	if withBal {
		row = append(row, b.GetColumnMoney(p.CCY, p.Balance))
	}
	return row
}

func ShowText(''')
# --- columns
bug('C20',P,'''			if ls > colWidths[j] {
				colWidths[j] = ls
			}
''','''			if ls < colWidths[j] || colWidths[j] == 0 {
				colWidths[j] = ls
			}
''')
bug('C20',P,'''	for i := 0; i < len(rows); i++ {
		if rows[i] == nil {
			continue
		}
		for j''','''	for i := 1; i < len(rows); i++ {
		if rows[i] == nil {
			continue
		}
		for j''')
bug('C20',P,'''			if !shrinkToTerm[j] {
				continue
			}

			// Shrink''','''			// Shrink''')
bug('C20',P,'''			if !shrinkToTerm[j] {
				continue
			}

			// Shrink''','''			if !shrinkToTerm[j] && j > 0 {
				continue
			}

			// Shrink''')
bug('C20',P,'''		if rows[i] == nil {
			b.Write([]byte("\\n"))
			continue
''','''		if rows[i] == nil {
			b.Write([]byte("\\n"))
			break
''')
bug('C20',P,'''			if j < (len(colWidths) - 1) {
				b.Write([]byte(" "))
			} else {
				b.Write([]byte("\\n"))
			}
''','''			if j < (len(colWidths) - 2) {
				b.Write([]byte(" "))
			} else {
				b.Write([]byte("\\n"))
			}
''')
bug('C20',P,'''			b.Write([]byte(rows[i][j].Pad(colWidths[j])))
''','''			b.Write([]byte(rows[i][j].Pad(colWidths[0])))
''')
bug('C20',P,'''			b.Write([]byte(rows[i][j].Pad(colWidths[j])))
''','''			b.Write([]byte(rows[0][j].Pad(colWidths[j])))
''')
bug('C20',P,'''	amountWidth := width - Length(v.symbol)
''','''	amountWidth := width - len(v.symbol)
''')
bug('C20',P,'''	return v.symbol + PadString(v.amount, amountWidth, false)
''','''	return v.symbol + PadString(v.amount, amountWidth-1, false)
''')
bug('C20',P,'''	return Length(v.symbol) + Length(v.amount)
''','''	return Length(v.amount)
''')
bug('C20',P,'''		amount: b.FormatNumber(symbol, amount),
''','''		amount: b.FormatNumber("", amount),
''')
bug('C20',P,'''	f, _ := amount.Float64()
	dec, ok := b.decs[symbol]
''','''	f, _ := new(big.Rat).Abs(amount).Float64()
	dec, ok := b.decs[symbol]
''')
bug('C20',P,'''	if !ok {
		dec = 2
	}
''','''	if !ok || dec > 4 {
		dec = 2
	}
''')
bug('C20',P,'''		return symbol + " "
''','''		return symbol[:1] + " "
''')
bug('C20',P,'''		if !unicode.IsPrint(r) && r != '\\t' {
			continue
		}

		// Another character
		count++
	}
''','''		if !unicode.IsPrint(r) {
			continue
		}

		// Another character
		count++
	}
''')
bug('C20',P,'''		if !unicode.IsPrint(r) && r != '\\t' {
			continue
		}

		// Another character
		count++
	}
''','''		if r > 127 {
			continue
		}

		// Another character
		count++
	}
''')
bug('C20',P,'''		if count <= max {
''','''		if count < max {
''')
bug('C20',P,'''	if count >= max {
		return sb.String()
	}
''','''	if count >= max-1 {
		return sb.String()
	}
''')
bug('C20',P,'''	padding := strings.Repeat(" ", max-count)
''','''	padding := strings.Repeat(" ", max-len(s))
''')
same('C20',P,'''	for i := 0; i < len(rows); i++ {
		if rows[i] == nil {
			continue
		}
		for j := 0; j < len(colWidths); j++ {
			ls := rows[i][j].Length()
			if ls > colWidths[j] {
				colWidths[j] = ls
			}
		}
	}
''','''	for _, row := range rows {
		if row == nil {
			continue
		}
		for j, w := range colWidths {
			if ls := row[j].Length(); w < ls {
				colWidths[j] = ls
			}
		}
	}
''')
same('C20',P,'''		for j := 0; j < len(colWidths); j++ {
			b.Write([]byte(rows[i][j].Pad(colWidths[j])))
			if j < (len(colWidths) - 1) {
				b.Write([]byte(" "))
			} else {
				b.Write([]byte("\\n"))
			}
		}
''','''		for j := range colWidths {
			sep := " "
			if j == len(colWidths)-1 {
				sep = "\\n"
			}
			b.Write([]byte(rows[i][j].Pad(colWidths[j]) + sep))
		}
''')
same('C20',P,'''	// Calculate content width per column
	colWidths := make([]int, len(rows[0]), len(rows[0]))
	for i := 0; i < len(rows); i++ {
		if rows[i] == nil {
			continue
		}
		for j := 0; j < len(colWidths); j++ {
			ls := rows[i][j].Length()
			if ls > colWidths[j] {
				colWidths[j] = ls
			}
		}
	}
''','''	colWidths := widths(rows)
''',P,'''func (b *BookPrinter) PrintColumns(''','''func widths(rows [][]ColumnValue) []int {
	colWidths := make([]int, len(rows[0]))
	for _, row := range rows {
		if row != nil {
			for j := range colWidths {
				if ls := row[j].Length(); ls > colWidths[j] {
					colWidths[j] = ls
				}
			}
		}
	}
	return colWidths
}

func (b *BookPrinter) PrintColumns(''')
same('C20',P,'''		if !unicode.IsPrint(r) && r != '\\t' {
			continue
		}

		// Another character
		count++
	}
''','''		if unicode.IsPrint(r) || r == '\\t' {
			count++
		}
	}
''')
same('C20',P,'''	if count >= max {
		return sb.String()
	}

	padding := strings.Repeat(" ", max-count)
	if justify_left {
		return sb.String() + padding
	} else {
		return padding + sb.String()
	}
''','''	out := sb.String()
	if n := max - count; n > 0 {
		padding := strings.Repeat(" ", n)
		if justify_left {
			out += padding
		} else {
			out = padding + out
		}
	}
	return out
''')
same('C20',P,'''	var zero big.Rat
	if amount.Cmp(&zero) >= 0 {
		col.amount = b.Ansi(Blue, col.amount)
		col.symbol = b.Ansi(Blue, col.symbol)
	} else {
		col.amount = b.Ansi(Red, col.amount)
		col.symbol = b.Ansi(Blue, col.symbol)
	}

	return col
''','''	colour := Blue
	if amount.Sign() < 0 {
		colour = Red
	}
	return ColumnMoney{symbol: b.Ansi(Blue, col.symbol), amount: b.Ansi(colour, col.amount)}
''')
same('C20',P,'''	amountWidth := width - Length(v.symbol)

	return v.symbol + PadString(v.amount, amountWidth, false)
''','''	return v.symbol + PadString(v.amount, width-Length(v.symbol), false)
''')
same('C20',P,'''	dec, ok := b.decs[symbol]
	if !ok {
		dec = 2
	}
	return b.pr.Sprintf("%.*f", dec, f)
''','''	dec := 2
	if d, ok := b.decs[symbol]; ok {
		dec = d
	}
	return b.Sprintf("%.*f", dec, f)
''')
