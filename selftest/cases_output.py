RL='cmd/reports/ledger.go'; XL='cmd/export/ledger.go'; RB='cmd/reports/beancount.go'; XB='cmd/export/beancount.go'; AL='cmd/app/ledger.go'; PR='cmd/app/print.go'
# C17
bug('C17',RL,'app.LedgerPayee(posts.GetPayee())','posts.GetPayee()')
bug('C17',RL,'app.LedgerNote(posts.GetTransactionNote())','app.LedgerNote(posts[0].GetPostNote())')
bug('C17',RL,'b.FormatExact(p.GetCCY(), p.GetAmount())','b.FormatNumber(p.GetCCY(), p.GetAmount())')
bug('C17',RL,'b.FormatExact(p.GetCCY(), p.GetAmount())','b.FormatExact(ccy, p.GetAmount())')
bug('C17',RL,'b.FormatExact(p.GetCCY(), p.GetAmount())','b.FormatExact(p.GetCCY(), p.GetBalance())')
bug('C17',RL,'				if !loader.IsCCYRune(rune(c)) {\n					needsQuotes = true','				if !loader.IsCCYRune(rune(c)) {\n					needsQuotes = c != \'-\'')
bug('C17',RL,'				if !loader.IsCCYRune(rune(c)) {\n					needsQuotes = true\n				}','				needsQuotes = !loader.IsCCYRune(rune(c))')
bug('C17',RL,'range ccy {','range p.GetAccount() {')
bug('C17',RL,'				needsQuotes = true','				needsQuotes = len(ccy) > 1')
bug('C17',RL,'pnote := app.LedgerNote(p.GetPostNote())','pnote := app.LedgerNote(p.GetTransactionNote())')
bug('C17',RL,'p.GetAccount(), b','p.GetAccountTerm(), b')
bug('C17',RL,'for _, posts := range trans {','for i, posts := range trans {\n		if i > 0 && len(posts) == 1 {\n			continue\n		}')
bug('C17',RL,'		for _, p := range posts {','		for i := len(posts) - 1; i >= 0; i-- {\n			p := posts[i]')
bug('C17',RL,'		for _, p := range posts {','		for _, p := range posts {\n			if p.GetAmount().Sign() == 0 {\n				continue\n			}')
bug('C17',RL,'b.Printf("  %s  %s%s%s\\n"','b.Printf("%s  %s%s%s\\n"')
bug('C17',RL,'b.Printf("  %s  %s%s%s\\n"','b.Printf("  %s %s%s%s"')
bug('C17',XL,'LedgerFormatCurrency(pair.Unit), b','pair.Unit, b')
bug('C17',XL,'b.FormatExact(pair.CCY, p.GetPrice())','b.FormatExact(pair.Unit, p.GetPrice())')
bug('C17',XL,'pl := bk.GetPriceList(pair.Unit, pair.CCY)','pl := bk.GetPriceList(pair.CCY, pair.Unit)')
bug('C17',XL,'		for _, p := range pl {','		for _, p := range pl[:len(pl)/2] {')
bug('C17',XL,'	for _, pair := range bk.GetPricePairs() {','	for _, pair := range bk.GetPricePairs() {\n		if pair.Unit > pair.CCY {\n			continue\n		}')
bug('C17',XL,'b.FormatSymbol(LedgerFormatCurrency(pair.CCY))','b.FormatSymbol(pair.CCY)')
bug('C17',XL,'	if needsQuotes {','	if needsQuotes && len(ccy) > 3 {')
bug('C17',XL,'			needsQuotes = true\n','			needsQuotes = true\n		} else {\n			needsQuotes = false\n')
bug('C17',RB,'beancountString.Replace(posts.GetPayee())','posts.GetPayee()')
bug('C17',RB,'beancountString.Replace(posts.GetPayee())','strings.ReplaceAll(posts.GetPayee(), "\\"", "\'")')
bug('C17',XB,'"\\"", "\\\\\\"", "\\n", " ",','"\\"", "\\\\\\"",')
bug('C17',XB,'"\\\\", "\\\\\\\\", ','')
bug('C17',XB,'ccy := FormatCurrency(p.GetCCY())','ccy := FormatCurrency(baseCCY)')
bug('C17',XB,'unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)','ccy, b.FormatExact(pair.CCY, p.GetPrice()), unit)')
bug('C17',XB,'FormatAccount(p.GetAccount()), b','FormatAccount(p.GetAccountTerm()), b')
bug('C17',AL,'strings.HasPrefix(payee, "*") || ','')
bug('C17',AL,'strings.Contains(payee, ";")','strings.Contains(payee, "; ")')
bug('C17',AL,'strings.HasPrefix(payee, "\\"")','strings.HasPrefix(payee, "\\"\\"")')
bug('C17',AL,'strings.ReplaceAll(payee, "\\"", "\'")','payee')
bug('C17',AL,'"\\r\\n", " ", "\\n", " ", "\\r", " "','"\\r\\n", " ", "\\n", " "')
bug('C17',AL,'	payee = ledgerLine.Replace(payee)\n','')
bug('C17',AL,'return "  ; " + ledgerLine.Replace(note)','return "  ; " + note')
bug('C17',AL,'return "  ; " + ledgerLine.Replace(note)','return "  " + ledgerLine.Replace(note)')
bug('C17',AL,'if note == "" {','if len(note) <= 1 {')
bug('C17',AL,'exact && n > dec','exact && !ok && n > dec')
bug('C17',AL,'exact && n > dec {\n		dec = n','exact && n > dec && n < 8 {\n		dec = n')
bug('C17',AL,'return amount.FloatString(dec)','f, _ := amount.Float64()\n	return b.Sprintf("%.*f", dec, f)')
bug('C17','loader/parser.go',"		c != ';' &&\n		c != '@'","		c != '@'")
bug('C17',PR,"return symbol + \" \"\n	}\n	return symbol",'return symbol[:1] + " "\n	}\n	return symbol')
same('C17,C37',RL,'''			needsQuotes := false
			for _, c := range ccy {
				if !loader.IsCCYRune(rune(c)) {
					needsQuotes = true
				}
			}
			if needsQuotes {
				ccy = "\\"" + ccy + "\\""
			}
''','''			ccy = quoted(ccy)
''',RL,'func ShowLedger','''func quoted(ccy string) string {
	for _, c := range ccy {
		if !loader.IsCCYRune(c) {
			return "\\"" + ccy + "\\""
		}
	}
	return ccy
}

func ShowLedger''')
same('C17',RL,'''			needsQuotes := false
			for _, c := range ccy {
				if !loader.IsCCYRune(rune(c)) {
					needsQuotes = true
				}
			}
			if needsQuotes {
				ccy = "\\"" + ccy + "\\""
			}
''','''			plain := true
			for _, c := range []rune(ccy) {
				plain = plain && loader.IsCCYRune(c)
			}
			if !plain {
				ccy = fmt.Sprintf("\\"%s\\"", ccy)
			}
''',RL,'import (','import (\n	"fmt"')
same('C17',RL,'''		b.Printf("%s %s%s\\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
''','''		b.Printf("%s ", posts.GetDate())
		b.Printf("%s", app.LedgerPayee(posts.GetPayee()))
		b.Printf("%s\\n", tnote)
''')
same('C17',RL,'''		b.Printf("%s %s%s\\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
''','''		io.WriteString(b, posts.GetDate().String()+" "+app.LedgerPayee(posts.GetPayee())+tnote+"\\n")
''',RL,'import (','import (\n	"io"')
same('C17',RL,'''		b.Printf("%s %s%s\\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
''','''		b.Write([]byte(posts.GetDate().String() + " " + app.LedgerPayee(posts.GetPayee()) + tnote + "\\n"))
''')
same('C17',RL,'	for _, posts := range trans {\n','	for i := 0; i < len(trans); i++ {\n		posts := trans[i]\n')
same('C17',XL,'''		b.Printf("%s %s%s\\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
		for _, p := range posts {
			pnote := app.LedgerNote(p.GetPostNote())

			ccy := LedgerFormatCurrency(p.GetCCY())

			b.Printf("  %s  %s%s%s\\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
		}
		b.Printf("\\n")
	}
''','''		b.Printf("%s %s%s\\n", posts.GetDate(), app.LedgerPayee(posts.GetPayee()), tnote)
		for _, p := range posts {
			showPosting(b, p)
		}
		b.Printf("\\n")
	}
''',XL,'func ShowLedger','''func showPosting(b *app.BookPrinter, p book.Posting) {
	line := "  " + p.GetAccount() + "  " + b.FormatSymbol(LedgerFormatCurrency(p.GetCCY()))
	line += b.FormatExact(p.GetCCY(), p.GetAmount()) + app.LedgerNote(p.GetPostNote())
	b.Printf("%s\\n", line)
}

func ShowLedger''')
same('C17',XL,'''			b.Printf("  %s  %s%s%s\\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatExact(p.GetCCY(), p.GetAmount()), pnote)
''','''			var line strings.Builder
			line.WriteString("  ")
			line.WriteString(p.GetAccount())
			line.WriteString("  ")
			line.WriteString(b.FormatSymbol(ccy))
			line.WriteString(b.FormatExact(p.GetCCY(), p.GetAmount()))
			line.WriteString(pnote)
			line.WriteRune('\\n')
			b.Write([]byte(line.String()))
''',XL,'import (','import (\n	"strings"')
same('C17',AL,'''	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "*") || strings.HasPrefix(payee, "\\"") {
		payee = "\\"" + strings.ReplaceAll(payee, "\\"", "'") + "\\""
	}
	return payee''','''	switch {
	case strings.HasPrefix(payee, "*"), strings.HasPrefix(payee, "\\""), strings.IndexByte(payee, ';') >= 0:
	default:
		return payee
	}
	return "\\"" + strings.Replace(payee, "\\"", "'", -1) + "\\""''')
same('C17',AL,'''	if note == "" {
		return ""
	}
	return "  ; " + ledgerLine.Replace(note)''','''	if len(note) > 0 {
		return "  ; " + ledgerLine.Replace(note)
	}
	return note''')
same('C17',AL,'''	if n, exact := book.GetDecimals(amount); exact && n > dec {
		dec = n
	}''','''	n, exact := book.GetDecimals(amount)
	if exact && dec < n {
		dec = n
	}''')
same('C17,C37',XB,'			b.Printf("  %s  %s %s%s\\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)','			acct, amt := FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount())\n			b.Printf("  %s  %s %s%s\\n", acct, amt, ccy, pnote)')
# C37
bug('C37',RB,'				stats.last = p.GetDate()\n','')
bug('C37',RB,'first:   p.GetDate(),','first:   trans[0].GetDate(),')
bug('C37',RB,'				stats.last = p.GetDate()\n','				stats.last = p.GetDate()\n				stats.first = p.GetDate()\n')
bug('C37',RB,'stats.last.AddDays(1)','stats.last')
bug('C37',RB,'stats.last.AddDays(1)','stats.first.AddDays(1)')
bug('C37',RB,'			if bal.Sign() != 0 {\n				isZero = false\n			}','			isZero = bal.Sign() == 0')
bug('C37',RB,'bal.Sign() != 0','bal.Sign() > 0')
bug('C37',RB,'stats.balance[p.GetCCY()] = bal','stats.balance[p.GetAccount()] = bal')
bug('C37',RB,'			bal.Add(bal, p.GetAmount())','			if p.GetDate() == t.GetDate() && p.GetAccountLevel() == 0 {\n				bal.Add(bal, p.GetAmount())\n			}')
bug('C37',RB,'				bal = big.NewRat(0, 1)','				bal = p.GetAmount()')
bug('C37',RB,'			acct := FormatAccount(p.GetAccount())\n','			acct := p.GetAccount()\n')
bug('C37',RB,'	sort.Strings(accts)\n','',RB,'	"sort"\n','')
bug('C37',RB,'		if isZero {','		if isZero && len(stats.balance) == 1 {')
bug('C37',RB,'		b.Printf("%s open %s\\n", stats.first, acct)\n','		if stats.first != stats.last {\n			b.Printf("%s open %s\\n", stats.first, acct)\n		}\n')
bug('C37',XB,'		accts = append(accts, acct)','		if len(acct) > 1 {\n			accts = append(accts, acct)\n		}')
bug('C37',XB,'balance: make(map[string]*big.Rat),','balance: shared,',XB,'	lstats := make(map[string]*accountInfo)','	lstats := make(map[string]*accountInfo)\n	shared := make(map[string]*big.Rat)')
bug('C37',XB,'	for _, t := range trans {\n		for _, p := range t {','	for _, t := range trans[1:] {\n		for _, p := range t {')
same('C37,C17',RB,'''		isZero := true
		for _, bal := range stats.balance {
			if bal.Sign() != 0 {
				isZero = false
			}
		}
		if isZero {
			b.Printf("%s close %s\\n", stats.last.AddDays(1), acct)
		}
''','''		open := false
		for _, bal := range stats.balance {
			open = open || bal.Sign() != 0
		}
		if !open {
			b.Printf("%s close %s\\n", stats.last.AddDays(1), acct)
		}
''')
same('C37,C17',RB,'''		isZero := true
		for _, bal := range stats.balance {
			if bal.Sign() != 0 {
				isZero = false
			}
		}
		if isZero {
''','''		if settled(stats.balance) {
''',RB,'func ShowBeancount','''func settled(balance map[string]*big.Rat) bool {
	for _, bal := range balance {
		if bal.Sign() != 0 {
			return false
		}
	}
	return true
}

func ShowBeancount''')
same('C37,C17',RB,'''			stats, ok := lstats[acct]
			if !ok {
				stats = &accountInfo{
					first:   p.GetDate(),
					last:    p.GetDate(),
					balance: make(map[string]*big.Rat),
				}
				lstats[acct] = stats
			} else {
				stats.last = p.GetDate()
			}
''','''			if _, seen := lstats[acct]; !seen {
				lstats[acct] = &accountInfo{first: t.GetDate(), balance: map[string]*big.Rat{}}
			}
			stats := lstats[acct]
			stats.last = t.GetDate()
''')
same('C37,C17',RB,'''			bal, ok := stats.balance[p.GetCCY()]
			if !ok {
				bal = big.NewRat(0, 1)
				stats.balance[p.GetCCY()] = bal
			}
			bal.Add(bal, p.GetAmount())
''','''			if bal, ok := stats.balance[p.GetCCY()]; ok {
				bal.Add(bal, p.GetAmount())
			} else {
				stats.balance[p.GetCCY()] = new(big.Rat).Set(p.GetAmount())
			}
''')

bug('C17','cmd/export/beancount.go','ccy = strings.ReplaceAll(ccy, " ", "")','ccy = strings.Replace(ccy, " ", "", 1)')
bug('C17','cmd/reports/beancount.go','	ccy = strings.ToUpper(ccy)\n','')
bug('C17','cmd/reports/beancount.go','acct = strings.Title(acct)','acct = strings.ToUpper(acct)')
same('C17,C37','cmd/reports/beancount.go','	ccy = strings.ReplaceAll(ccy, " ", "")\n	ccy = strings.ToUpper(ccy)\n	return ccy','	return strings.Replace(strings.ToUpper(ccy), " ", "", -1)')
