B, P, G = 'book/book.go', 'book/price.go', 'cmd/generate/generate.go'
bug('C32', B, "\t\tp.val = big.NewRat(0, 1).Set(p.val)\n", "")
bug('C32', B, "\t\tp.bal = big.NewRat(0, 1).Set(p.bal)\n", "")
bug('C32', B, "\t\tp.bal = big.NewRat(0, 1).Set(p.bal)\n", "\t\tp.bal = p.val\n")
bug('C32', B, "\t\tp.bal = big.NewRat(0, 1).Set(p.bal)\n", "\t\tp.bal = big.NewRat(0, 1).Set(p.val)\n")
bug('C32', B, "\t\tnewccy[ccy] = dec\n", "\t\tif dec > 0 {\n\t\t\tnewccy[ccy] = dec\n\t\t}\n")
bug('C32', B, "\t\tccy:    newccy,\n", "\t\tccy:    b.ccy,\n", B, "\t\tnewccy[ccy] = dec\n", "\t\tnewccy[ccy] = dec + 0\n")
bug('C32', B, "prices: b.prices.duplicate(),", "prices: b.prices,")
bug('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pb.data[pair] = plist")
bug('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pb.data[pair] = append(plist[:0], plist...)")
bug('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "if len(plist) > 1 {\n\t\t\tpb.data[pair] = append(PriceList(nil), plist...)\n\t\t}")
bug('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pb.data[pair] = append(PriceList(nil), plist[1:]...)")
bug('C32', B, "\t\tnewp[i] = p\n", "\t\tif !p.date.IsValid() {\n\t\t\tcontinue\n\t\t}\n\t\tnewp[i] = p\n")
bug('C32', B, "\t\tnewp[i] = p\n", "\t\tp.note = \"\"\n\t\tnewp[i] = p\n")
bug('C32', B, "\t\tpost:   newp,\n", "\t\tpost:   append(b.post[:0], newp...),\n")
bug('C32', G, "gen.generate(main.Duplicate(), gen.Code)", "gen.generate(main, gen.Code)")
bug('C32', G, "\tb, err := gen.generate(main.Duplicate(), gen.Code)", "\tcopied := main.Duplicate()\n\tb, err := gen.generate(copied, gen.Code)", G, "b.RemoveDuplicatesOf(main)", "b.RemoveDuplicatesOf(copied)")
bug('C32', P, "return big.NewRat(0, 1).Inv(r), pt", "return r.Inv(r), pt")
bug('C32', 'cmd/export/beancount.go', "bal = big.NewRat(0, 1)\n\t\t\t\tstats.balance[p.GetCCY()] = bal\n\t\t\t}\n\t\t\tbal.Add(bal, p.GetAmount())", "stats.balance[p.GetCCY()] = p.GetAmount()\n\t\t\t} else {\n\t\t\t\tbal.Add(bal, p.GetAmount())\n\t\t\t}")
bug('C32', 'cmd/reports/ledger.go', "func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {\n", "func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {\n\tfor i, j := 0, len(trans)-1; i < j; i, j = i+1, j-1 {\n\t\ttrans[i], trans[j] = trans[j], trans[i]\n\t}\n")
bug('C32', B, "func (b *Book) GetPriceList(unit string, ccy string) PriceList {\n\treturn b.prices.getPrices(unit, ccy)", "func (b *Book) GetPriceList(unit string, ccy string) PriceList {\n\tpl := b.prices.getPrices(unit, ccy)\n\tfor i, j := 0, len(pl)-1; i < j; i, j = i+1, j-1 {\n\t\tpl[i], pl[j] = pl[j], pl[i]\n\t}\n\treturn pl")
same('C32', B, "\tnewp := make([]Posting, len(b.post), len(b.post))\n\tfor i, p := range b.post {", "\tnewp := make([]Posting, 0, len(b.post))\n\tfor _, p := range b.post {", B, "\t\tnewp[i] = p\n", "\t\tnewp = append(newp, p)\n")
same('C32', B, "\tfor i, p := range b.post {\n\t\tp.val = big.NewRat(0, 1).Set(p.val)\n\t\tp.bal = big.NewRat(0, 1).Set(p.bal)\n\t\tnewp[i] = p\n\t}", "\tfor i := 0; i < len(b.post); i++ {\n\t\tnewp[i] = b.post[i]\n\t\tnewp[i].val = new(big.Rat).Set(b.post[i].val)\n\t\tnewp[i].bal = new(big.Rat).Set(b.post[i].bal)\n\t}")
same('C32', B, "\tfor i, p := range b.post {\n\t\tp.val = big.NewRat(0, 1).Set(p.val)\n\t\tp.bal = big.NewRat(0, 1).Set(p.bal)\n\t\tnewp[i] = p\n\t}", "\tfor i, p := range b.post {\n\t\tnewp[i] = p.copied()\n\t}", B, "func (b *Book) Duplicate() *Book {", "func (p Posting) copied() Posting {\n\tp.val = big.NewRat(0, 1).Set(p.val)\n\tp.bal = big.NewRat(0, 1).Set(p.bal)\n\treturn p\n}\n\nfunc (b *Book) Duplicate() *Book {")
same('C32', B, "\tnewccy := make(map[string]int)\n\tfor ccy, dec := range b.ccy {\n\t\tnewccy[ccy] = dec\n\t}\n", "", B, "\t\tccy:    newccy,", "\t\tccy:    copyDecimals(b.ccy),", B, "func (b *Book) Duplicate() *Book {", "func copyDecimals(m map[string]int) map[string]int {\n\tr := make(map[string]int, len(m))\n\tfor k := range m {\n\t\tr[k] = m[k]\n\t}\n\treturn r\n}\n\nfunc (b *Book) Duplicate() *Book {")
same('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pl := make(PriceList, len(plist))\n\t\tcopy(pl, plist)\n\t\tpb.data[pair] = pl")
same('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pl := make(PriceList, 0, len(plist))\n\t\tfor _, x := range plist {\n\t\t\tpl = append(pl, x)\n\t\t}\n\t\tpb.data[pair] = pl")
same('C32', P, "pb.data[pair] = append(PriceList(nil), plist...)", "pb.data[pair] = append(make(PriceList, 0, len(plist)), plist...)")
same('C32', G, "\tb, err := gen.generate(main.Duplicate(), gen.Code)", "\tcopied := main.Duplicate()\n\tb, err := gen.generate(copied, gen.Code)")
same('C32', G, "\tbp := app.NewBookPrinter(main.GetCCYDecimals())", "\tdecimals := main.GetCCYDecimals()\n\tbp := app.NewBookPrinter(decimals)")
same('C32', B, "\tnbook := &Book{\n\t\tpost:   newp,\n\t\tprices: b.prices.duplicate(),\n\t\tccy:    newccy,\n\t}\n\tnbook.compact()\n", "\tnbook := &Book{post: newp, ccy: newccy}\n\tnbook.prices = b.prices.duplicate()\n\tnbook.compact()\n")
