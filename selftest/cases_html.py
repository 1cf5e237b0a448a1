H='cmd/reports/html.go'
bug('C16',H,'html.EscapeString(payee)','payee',H,'	"html"\n','	"html"\n')
bug('C16',H,'html.EscapeString(v.GetAccountTerm())','v.GetAccountTerm()')
bug('C16',H,'html.EscapeString(b.FormatSymbol(v.GetCCY()))','b.FormatSymbol(v.GetCCY())')
bug('C16',H,'html.EscapeString(v.GetAccountTerm())','html.UnescapeString(v.GetAccountTerm())')
bug('C16',H,'html.EscapeString(payee)','html.EscapeString(payee[:1])+payee[1:]')
bug('C16',H,'<div class=\\"post indent%d %s\\">\\n", thisIndent, thisLevel, diff)','<div class=\\"post indent%d %s\\" title=\\"%s\\">\\n", thisIndent, thisLevel, diff, v.GetPostNote())')
bug('C16',H,'for i := lastLevel - 1; i >= thisLevel; i-- {','for i := lastLevel - 1; i > thisLevel; i-- {')
bug('C16',H,'for i := lastLevel; i < thisLevel; i++ {','for i := lastLevel; i <= thisLevel; i++ {')
bug('C16',H,'''		for i := lastLevel - 1; i >= 0; i-- {
			b.Printf("%s  </div>\\n", indentedString(i))
		}
''','')
bug('C16',H,'''		for i := lastLevel - 1; i >= 0; i-- {''','''		if lastLevel > 0 {
			i := lastLevel''')
bug('C16',H,'			lastLevel = thisLevel\n','			if diff != "sameindent" || thisLevel > 1 {\n				lastLevel = v.GetAccountLevel() + len(diff) - 9\n			}\n')
bug('C16',H,'		lastLevel := 0\n		zero','		zero',H,'	for _, posts := range trans {\n','	lastLevel := 0\n	for _, posts := range trans {\n')
bug('C16',H,'		if payee != "" {','		if payee != "" && len(posts) > 1 {')
bug('C16',H,'		for _, v := range posts {\n','		for _, v := range posts {\n			if v.GetAmount().Sign() == 0 {\n				continue\n			}\n')
bug('C16',H,'b.FormatNumber(v.GetCCY(), amt)','b.FormatNumber(v.GetCCY(), v.GetBalance())')
bug('C16',H,'b.FormatNumber(v.GetCCY(), amt)','b.FormatNumber(posts[0].GetCCY(), amt)')
bug('C16',H,'html.EscapeString(v.GetAccountTerm())','html.EscapeString(v.GetAccount())')
bug('C16',H,'b.Printf("  <div class=\\"payee\\">%s</div>\\n"','b.Printf("  <div class=\\"payee\\">%s\\n"')
bug('C16',H,'	for _, posts := range trans {\n','	for _, posts := range trans {\n		if len(posts) == 0 || posts[0].GetPayee() == "" {\n			continue\n		}\n')
bug('C16',H,'b.Printf("%s    <div class=\\"amount %s\\">%s%s</div>\\n", thisIndent, sign, ','b.Printf("%s    <div class=\\"amount %s\\">%s%s</div>\\n", thisIndent, sign+v.GetAccountTerm(), ')
same('C16',H,'''			diff := "sameindent"
			if thisLevel > lastLevel {
				diff = "moreindent"
				for i := lastLevel; i < thisLevel; i++ {
					b.Printf("%s  <div class=\\"indentbox\\">\\n", indentedString(i))
				}
			} else if thisLevel < lastLevel {
				diff = "lessindent"
				for i := lastLevel - 1; i >= thisLevel; i-- {
					b.Printf("%s  </div>\\n", indentedString(i))
				}
			}
''','''			diff := indent(b, lastLevel, thisLevel)
''',H,'func ShowHTML','''func indent(b *app.BookPrinter, from, to int) string {
	switch {
	case from < to:
		for from < to {
			b.Printf("%s  <div class=\\"indentbox\\">\\n", indentedString(from))
			from++
		}
		return "moreindent"
	case from > to:
		for from > to {
			from--
			b.Printf("%s  </div>\\n", indentedString(from))
		}
		return "lessindent"
	}
	return "sameindent"
}

func ShowHTML''')
bug('C16',H,'''		payee := posts.GetPayee()
		if payee != "" {
			b.Printf("  <div class=\\"payee\\">%s</div>\\n", html.EscapeString(payee))
		}
''','''		if p := html.EscapeString(posts.GetPayee()); len(p) > 0 {
			b.Printf("  <div class=\\"payee\\">" + p + "</div>\\n")
		}
''')
same('C16',H,'''		if payee != "" {
			b.Printf("  <div class=\\"payee\\">%s</div>\\n", html.EscapeString(payee))
		}
''','''		if len(payee) > 0 {
			b.Printf("  <div class=\\"payee\\">")
			b.Printf("%s", html.EscapeString(payee))
			b.Printf("</div>\\n")
		}
''')
same('C16',H,'''			b.Printf("%s  <div class=\\"post indent%d %s\\">\\n", thisIndent, thisLevel, diff)
			b.Printf("%s    <div class=\\"account\\">%s</div>\\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
''','''			name := html.EscapeString(v.GetAccountTerm())
			b.Printf("%s  <div class=\\"post indent%d %s\\">\\n%s    <div class=\\"account\\">%s</div>\\n", thisIndent, thisLevel, diff, thisIndent, name)
''')
same('C16',H,'b.Printf("%s    <div class=\\"amount %s\\">%s%s</div>\\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))','money := html.EscapeString(b.FormatSymbol(v.GetCCY())) + b.FormatNumber(v.GetCCY(), amt)\n			b.Printf("%s    <div class=\\"amount %s\\">%s</div>\\n", thisIndent, sign, money)')

same('C16',H,"""		payee := posts.GetPayee()
		if payee != "" {
			b.Printf("  <div class=\\"payee\\">%s</div>\\n", html.EscapeString(payee))
		}
""","""		if p := html.EscapeString(posts.GetPayee()); len(p) > 0 {
			b.Printf("  <div class=\\"payee\\">%s</div>\\n", p)
		}
""")
