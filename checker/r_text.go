package main

// Text reports: tables with every account, transaction and entry.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tableMode: the function is gone into with its helpers, what makes and prints cells is not
func tableMode(f *ssa.Function) Config {
	pure := map[*ssa.Function]bool{}
	for _, n := range []string{"cmd/app.BookPrinter.GetColumnMoney", "book.Date.String"} {
		pure[lookup(n)] = true
	}
	print := lookup("cmd/app.BookPrinter.PrintColumns")
	return Config{Mode: func(g *ssa.Function) Mode {
		switch {
		case pure[g]:
			return MPure
		case g == print:
			return MEvent
		}
		return MInline
	}}
}

// shownIn are the parts of the text of a cell that are not constant
func shownIn(t *Term) []*Term {
	t = bare(t)
	_, vals := pieces(t)
	return vals
}

// heading is the constant text of a cell, without colours
func heading(t *Term) string {
	consts, vals := pieces(bare(t))
	if len(vals) > 0 {
		return ""
	}
	s := strings.Join(consts, "")
	for {
		i := strings.IndexByte(s, '\033')
		if i < 0 {
			return s
		}
		j := strings.IndexByte(s[i:], 'm')
		if j < 0 {
			return s
		}
		s = s[:i] + s[i+j+1:]
	}
}

// moneyCell: the cell of an amount in a currency
func moneyCell(ccy role, val *Term) role {
	g := lookup("cmd/app.BookPrinter.GetColumnMoney")
	return func(p *Path, t *Term) bool { return callOf(g, nil, ccy, amount(val))(p, bare(t)) }
}

// checkTables: C20
func checkTables(r *Report) {
	checkTextReport(r)
	checkTextRegister(r)
	checkPrintColumns(r)
	checkCells(r)
	checkPadding(r)
	r.atLeast("text-header", 2)
	r.atLeast("text-row", 2)
	r.atLeast("text-cell", 5)
	r.atLeast("text-columns", 6)
	r.atLeast("text-width", 4)
	r.atLeast("text-money", 4)
}

func printedTable(p *Path) *Event {
	evs := p.calls(func(ev *Event) bool { return ev.is("cmd/app.BookPrinter.PrintColumns") })
	if len(evs) == 1 && len(evs[0].Args) == 3 {
		return evs[0]
	}
	return nil
}

// checkTextReport: transactions are columns, accounts are rows
func checkTextReport(r *Report) {
	f := r.fn("cmd/reports.ShowTransactions")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, tableMode(f))
	trans := param(f, 1)
	n := 0
	for _, p := range e.returns() {
		r.need(retErr(p) != 1 || failedCall(p) || noPlace(p), "text-refused", c, p.Pos, "it fails although nothing that it did has failed and every posting has a place of its own")
		if retErr(p) == 1 {
			continue
		}
		ev := printedTable(p)
		if ev == nil {
			empty := p.Holds(cmp0("=", mkLen(trans)))
			r.need(empty || retErr(p) == 1, "text-rows", c, p.Pos, "the table is not printed once")
			continue
		}
		n++
		textReport(r, f, p, trans, ev)
	}
	r.need(n > 0, "text-rows", c, f.Pos(), "no path prints the table")
}

func textReport(r *Report, f *ssa.Function, p *Path, trans *Term, ev *Event) {
	c := shortFn(f)
	rows := ev.Args[1]
	r.need(ev.Args[0] == param(f, 0), "text-rows", c, p.Pos, "it is printed elsewhere")
	// the loop that makes the rows
	var rl *Loop
	for _, l := range p.loopsOn() {
		if l.Entry[rows] != nil {
			rl = l
		}
	}
	if !r.need(rl != nil, "text-rows", c, p.Pos, "the rows are not made by going over postings") {
		return
	}
	ent := rl.Entry[rows]
	var header *Term
	if ent.Op == OAppend && len(ent.Args) == 2 {
		if k, ok := mkLen(ent.Args[0]).intVal(); ok && k == 0 || ent.Args[0].isNil() {
			header = ent.Args[1]
		}
	}
	width := nAdd(mkLen(trans), cInt(1))
	var heads *listing
	if header != nil {
		heads = p.builtAfter(header, trans, 1)
	}
	if r.need(heads != nil && heads.sc.forward() && heads.sc.l.Start < rl.Start, "text-header", c, p.Pos, "there is no header first, with a column for each transaction") {
		for b, x := range heads.elems {
			ok := false
			if x != nil {
				vals := shownIn(x)
				ok = len(vals) == 1 && vals[0].Op == OCall && len(vals[0].Args) == 1 && firstField(b, heads.sc.elem(b), "date")(b, vals[0].Args[0]) && dateText(vals[0].Args[0])(b, vals[0])
			}
			r.need(ok, "text-header", c, p.Pos, "the heading of a column is not the date of its transaction: %v", x)
		}
	}
	// the rows are those of the postings of one of the transactions
	var rs *scan
	for _, s := range p.scans(rl) {
		if s.idx != nil && s.over != trans && isLoad(s.over) && s.over.Args[0].Op == OIdx && s.over.Args[0].Args[0] == trans {
			y := s
			rs = &y
		}
	}
	if !r.need(rs != nil && rs.forward(), "text-rows", c, p.Pos, "the rows are not those of the postings of a transaction, in order") {
		return
	}
	var idx *Term
	key := func(b *Path, s *scan, k *Term) bool {
		return k.Op == OStruct && len(k.Args) == 3 && k.Args[0] == s.field(b, "acct") && k.Args[1] == s.field(b, "acctterm") && k.Args[2] == s.field(b, "ccy")
	}
	for _, b := range rl.Backs {
		nx := b.Next[rows]
		var row *Term
		size := nAdd(mkLen(rows), cInt(-1))
		if nx != nil && nx.Op == OAppend && nx.Args[0] == rows {
			for i, x := range nx.Args[1:] {
				if !x.isNil() {
					ok := row == nil && i == len(nx.Args)-2 && mkLen(x) == width
					r.need(ok, "text-rows", c, b.Pos, "a posting has more than one row, or one of another width")
					row = x
				}
				size = nAdd(size, cInt(1))
			}
		}
		if !r.need(row != nil, "text-rows", c, b.Pos, "a posting has no row") {
			continue
		}
		// its name
		name := b.LoadAt(b.Mem, idxAddr(row, cInt(0), elemType(row.Typ)), elemType(row.Typ))
		vals := shownIn(name)
		term, lvl := rs.field(b, "acctterm"), rs.field(b, "acctlevel")
		shown := false
		indent := b.Holds(cmp0("=", lvl))
		for _, v := range vals {
			switch {
			case v == term:
				shown = true
			case v.Op == OCall && v.Aux == "strings.Repeat" && !shown && len(v.Args) == 2 && v.Args[1] == lvl && strings.TrimSpace(v.Args[0].strVal()) == "" && v.Args[0].strVal() != "":
				indent = true
			default:
				indent = false
			}
		}
		r.need(shown && indent, "text-row", c, b.Pos, "the row of an account does not start with its name, indented by its level: %v", name)
		// where it is kept
		kept := false
		for _, w := range b.writesSince(rl.IterMem) {
			if w.addr.Op == OMapEnt {
				kept = w.val == size && key(b, rs, w.addr.Args[1])
				idx = w.addr.Args[0]
			}
		}
		r.need(kept, "text-row", c, b.Pos, "the place of a row is not kept under account, name and currency")
	}
	if idx == nil {
		return
	}
	// amounts
	var ds *scan
	done := false
	for _, l := range p.loopsOn() {
		i, all := p.idxScan(l, mkLen(trans))
		if !all || l.Start < rl.Start {
			continue
		}
		s := &scan{l, trans, i, nil}
		for _, b := range l.Backs {
			el := s.elem(b)
			for _, in := range b.innerLoops(l) {
				j, ok := b.idxScan(in, mkLen(el))
				if !ok {
					continue
				}
				done = true
				ds = &scan{in, el, j, nil}
				for _, q := range in.Backs {
					k := T.mk(OStruct, "[3]string", nil, ds.field(q, "acct"), ds.field(q, "acctterm"), ds.field(q, "ccy"))
					var at *Term
					for _, ft := range q.Facts() {
						ft.Cond.any(func(x *Term) bool {
							if x.Op == OMapHas && x.Args[0] == idx && key(q, ds, x.Args[1]) && ft.Val {
								at = mapEnt(idx, x.Args[1], idx.Typ.Underlying().(*types.Map))
							}
							return false
						})
					}
					if !r.need(at != nil, "text-cell", c, q.Pos, "an amount may have no row: %v", k) {
						continue
					}
					ri := q.LoadAt(in.IterMem, at, types.Typ[types.Int])
					rt := elemType(rows.Typ)
					row := q.LoadAt(in.IterMem, idxAddr(rows, ri, rt), rt)
					cell := idxAddr(row, nAdd(i, cInt(1)), elemType(rt))
					wrote := false
					for _, w := range q.writesSince(in.IterMem) {
						if w.addr.Op == OIdx && !isNew(rootObj(w.addr)) {
							wrote = w.addr == cell && moneyCell(is(ds.field(q, "ccy")), ds.field(q, "val"))(q, w.val)
							if !wrote {
								break
							}
						}
					}
					r.need(wrote, "text-cell", c, q.Pos, "an amount is not put in the row of its account and the column of its transaction")
					r.need(q.isNil(q.LoadAt(in.IterMem, cell, elemType(rt))), "text-cell", c, q.Pos, "an amount may take the place of another")
				}
			}
			r.need(ds != nil, "text-cell", c, b.Pos, "not every posting of a transaction is shown")
		}
	}
	if !r.need(done, "text-cell", c, p.Pos, "not every transaction is shown") {
		return
	}
	// afterwards only cells that are empty are changed
	for _, l := range p.loopsOn() {
		if l.Start < ds.l.Start {
			continue
		}
		eachBack(l, func(b *Path, in *Loop) {
			for _, w := range b.writesSince(in.IterMem) {
				if w.addr.Op != OIdx || isNew(rootObj(w.addr)) && mkLen(w.addr.Args[0]) == mkLen(ev.Args[2]) && isBoolT(w.val.Typ) {
					continue
				}
				was := b.LoadAt(in.IterMem, w.addr, deref(w.addr.Typ))
				r.need(b.isNil(was), "text-cell", c, b.Pos, "a cell is changed after its amount was put there")
			}
		})
	}
	// no column may shrink
	flags := ev.Args[2]
	if l := p.builtAfter(flags, trans, 1); l != nil {
		for _, x := range l.elems {
			r.need(x != nil && x.isFalse(), "text-width", c, p.Pos, "a column of amounts may be cut")
		}
		return
	}
	r.need(mkLen(flags) == width, "text-width", c, p.Pos, "it is not known for each column whether it may be cut")
	for _, l := range p.loopsOn() {
		for _, b := range l.Backs {
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op == OIdx && w.addr.Args[0] == flags {
					r.need(w.val.isFalse(), "text-width", c, b.Pos, "a column of amounts may be cut")
				}
			}
		}
	}
	for _, w := range p.writesSince(nil) {
		if w.addr.Op == OIdx && w.addr.Args[0] == flags && w.addr.Args[1] != cInt(0) {
			r.need(w.val.isFalse(), "text-width", c, p.Pos, "a column of amounts may be cut")
		}
	}
}

// eachBack: the iterations of the loop and of the loops in it
func eachBack(l *Loop, f func(b *Path, l *Loop)) {
	for _, b := range l.Backs {
		f(b, l)
		for _, in := range b.innerLoops(l) {
			eachBack(in, f)
		}
	}
}

// checkTextRegister: one row for each entry, each value under its heading
func checkTextRegister(r *Report) {
	f := r.fn("cmd/register.ShowText")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, tableMode(f))
	rep := param(f, 1)
	n := 0
	for _, p := range e.returns() {
		ev := printedTable(p)
		if !r.need(ev != nil, "text-rows", c, p.Pos, "the table is not printed once") {
			continue
		}
		n++
		t := tableOf(p, ev.Args[1], rep)
		if !r.need(t != nil && len(t.other) == 0 && len(t.header) > 0, "text-rows", c, p.Pos, "there is not one row for each entry, in order, after the header") {
			continue
		}
		r.need(ev.Args[0] == param(f, 0), "text-rows", c, p.Pos, "it is printed elsewhere")
		flags := cells(p, ev.Mem, ev.Args[2])
		r.need(len(flags) == len(t.header), "text-width", c, p.Pos, "there are %d columns but %d that may shrink or not", len(t.header), len(flags))
		heads := map[string]int{}
		for i, h := range t.header {
			s := heading(h)
			heads[s]++
			if i < len(flags) && (s == "Amount" || s == "Balance" || s == "Date") {
				r.need(flags[i].isFalse(), "text-width", c+" "+s, p.Pos, "the column %s may be cut", s)
			}
		}
		want := map[string]bool{"Date": true, "Payee": true, "Counteraccount": true, "Amount": true}
		for i, k := range map[int]string{2: "Account", 3: "Balance"} {
			if prm := param(f, i); !p.Holds(prm) && !p.Not(prm) {
				r.need(false, "text-header", c, p.Pos, "the column %s does not depend on whether it was asked for", k)
			} else if p.Holds(prm) {
				want[k] = true
			}
		}
		for k := range want {
			r.need(heads[k] == 1, "text-header", c+" "+k, p.Pos, "%d columns are headed %s", heads[k], k)
		}
		for b, row := range t.rows {
			if !r.need(len(row) == len(t.header), "text-rows", c, b.Pos, "a row has %d cells, the header %d", len(row), len(t.header)) {
				continue
			}
			el := t.sc.elem(b)
			at := func(name string) *Term {
				return b.LoadAt(t.sc.l.IterMem, fld(el, "book.RegistryEntry", name), fldT("book.RegistryEntry", name))
			}
			spec := map[string]role{"Date": dateText(at("Date")), "Payee": is(at("Payee")), "Account": is(at("Account")), "Counteraccount": is(at("CounterAccount")),
				"Amount": moneyCell(is(at("CCY")), at("Amount")), "Balance": moneyCell(is(at("CCY")), at("Balance"))}
			for i, h := range t.header {
				k := heading(h)
				w := spec[k]
				if w == nil {
					r.need(false, "text-cell", c, b.Pos, "a column is headed %q", k)
					continue
				}
				r.need(w(b, bare(row[i])), "text-cell", c+" "+k, b.Pos, "what is under %s is not what it says: %v", k, row[i])
			}
		}
	}
	r.need(n > 0, "text-rows", c, f.Pos(), "no path prints the table")
}

// checkPrintColumns: every cell of every row is printed, in order, and wide enough
func checkPrintColumns(r *Report) {
	f := r.fn("cmd/app.BookPrinter.PrintColumns")
	if f == nil {
		return
	}
	c := shortFn(f)
	less := lookup("cmd/app.initialiseLess")
	write := lookup("cmd/app.BookPrinter.Write")
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g == less || g == write || g.Name() == "Printf" {
			return MEvent
		}
		return MInline
	}})
	rows, shrink := param(f, 1), param(f, 2)
	rt := elemType(rows.Typ)
	isPad := func(ev *Event) bool { return ev.Kind == "call" && strings.HasSuffix(ev.Name, "ColumnValue).Pad") }
	isLength := func(ev *Event) bool { return ev.Kind == "call" && strings.HasSuffix(ev.Name, "ColumnValue).Length") }
	n := 0
	for _, p := range e.returns() {
		n++
		var w *Term // the widths
		printed, measured := false, false
		for _, l := range p.loopsOn() {
			i, ok := p.idxScan(l, mkLen(rows))
			if !ok {
				continue
			}
			s := &scan{l, rows, i, nil}
			prints, measures := l.hasEvent(isPad), l.hasEvent(isLength)
			if !prints && !measures {
				continue
			}
			r.need(s.forward(), "text-columns", c, p.Pos, "the rows are not gone over in order")
			for _, b := range l.Backs {
				row := b.LoadAt(l.IterMem, idxAddr(rows, i, rt), rt)
				if b.isNil(row) {
					texts := textsOf(b, l)
					r.need(!prints || len(texts) == 1 && texts[0] == cStr("\n"), "text-columns", c, b.Pos, "an empty row is not a line of its own: %v", texts)
					continue
				}
				// the cells
				var cl *Loop
				for _, in := range b.innerLoops(l) {
					if in.hasEvent(isPad) || in.hasEvent(isLength) {
						cl = in
					}
				}
				if !r.need(cl != nil, "text-columns", c, b.Pos, "the cells of a row are not gone over") {
					continue
				}
				var first *Term = p.LoadAt(nil, idxAddr(rows, cInt(0), rt), rt)
				j, all := b.idxScan(cl, mkLen(first))
				if !all {
					j, all = b.idxScan(cl, mkLen(row))
				}
				cs := &scan{cl, row, j, nil}
				if !r.need(all && cs.forward(), "text-columns", c, b.Pos, "not every cell of a row is gone over, in order") {
					continue
				}
				for _, q := range cl.Backs {
					cell := q.LoadAt(cl.IterMem, idxAddr(row, j, elemType(rt)), elemType(rt))
					if prints {
						w = printCell(r, c, p, b, q, l, cl, cell, j, row, first)
						printed = true
					}
					if measures {
						measured = true
						evs := filterCalls(q.in(cl), isLength)
						if !r.need(len(evs) == 1 && evs[0].Args[0] == cell, "text-width", c, q.Pos, "a cell is not measured") {
							continue
						}
						grows := false
						var ws *Term
						for _, x := range q.writesSince(cl.IterMem) {
							if x.addr.Op == OIdx && x.addr.Args[1] == j && isNew(rootObj(x.addr)) {
								ws = x.addr
								grows = x.val == evs[0].Res
							}
						}
						if ws != nil {
							r.need(grows, "text-width", c, q.Pos, "a column gets another width than that of its cell")
							continue
						}
						// it is wide enough already
						enough := false
						for _, ft := range q.Facts() {
							ft.Cond.any(func(x *Term) bool {
								if isLoad(x) && x.Args[0].Op == OIdx && x.Args[0].Args[1] == j && isNew(rootObj(x.Args[0])) && q.Not(cmp0(">", nSub(evs[0].Res, x))) {
									enough = true
								}
								return enough
							})
						}
						r.need(enough, "text-width", c, q.Pos, "a column may be narrower than its cell")
					}
				}
			}
		}
		if !r.need(printed && measured && w != nil, "text-columns", c, p.Pos, "not every row is measured and printed") {
			continue
		}
		// other changes of widths
		for _, l := range p.loopsOn() {
			if l.hasEvent(isLength) {
				continue
			}
			eachBack(l, func(b *Path, in *Loop) {
				for _, x := range b.writesSince(in.IterMem) {
					if x.addr.Op == OIdx && x.addr.Args[0] == w {
						may := b.Holds(b.LoadAt(in.IterMem, idxAddr(shrink, x.addr.Args[1], elemType(shrink.Typ)), elemType(shrink.Typ)))
						wider := b.Not(cmp0("<", nSub(x.val, b.LoadAt(in.IterMem, x.addr, types.Typ[types.Int]))))
						r.need(may || wider, "text-width", c, b.Pos, "a column that may not shrink gets narrower")
					}
				}
			})
		}
	}
	r.need(n > 0, "text-columns", c, f.Pos(), "nothing is printed")
}

// textsOf are the texts printed in an iteration
func textsOf(b *Path, l *Loop) (r []*Term) {
	for _, ev := range b.in(l) {
		if ev.Kind == "call" {
			if t := printedOrWritten(ev); t != nil {
				r = append(r, bare(t))
			}
		}
	}
	return
}

// printCell: the cell is printed to the width of its column, and after it a space, or the end of the line
func printCell(r *Report, c string, p, b, q *Path, l, cl *Loop, cell, j, row, first *Term) (w *Term) {
	texts := textsOf(q, cl)
	text := cStr("")
	for _, t := range texts {
		text = mkConcat(text, t)
	}
	consts, vals := pieces(text)
	evs := filterCalls(q.in(cl), func(ev *Event) bool { return ev.Kind == "call" && strings.HasSuffix(ev.Name, "ColumnValue).Pad") })
	if !r.need(len(evs) == 1 && len(vals) == 1 && vals[0] == evs[0].Res && evs[0].Args[0] == cell, "text-columns", c, q.Pos, "a cell is not printed once: %v", text) {
		return nil
	}
	x := evs[0].Args[1]
	if r.need(isLoad(x) && x.Args[0].Op == OIdx && x.Args[0].Args[1] == j && isNew(x.Args[0].Args[0]), "text-columns", c, q.Pos, "a cell is not printed to the width of its column: %v", x) {
		w = x.Args[0].Args[0]
	}
	last := cmp0("=", nSub(nAdd(j, cInt(1)), mkLen(first)))
	more := cmp0("<", nSub(nAdd(j, cInt(1)), mkLen(first)))
	after := strings.Join(consts, "")
	switch {
	case q.Holds(more):
		r.need(strings.TrimSpace(after) == "" && after != "" && !strings.Contains(after, "\n"), "text-columns", c, q.Pos, "columns are not kept apart: %q", after)
	case q.Not(more) || q.Holds(last):
		// the line ends here or after the loop
		ends := after == "\n"
		for _, t := range textsAfter(b, l, cl) {
			ends = ends || t == cStr("\n")
		}
		r.need(ends, "text-columns", c, q.Pos, "the line of a row does not end: %q", after)
	default:
		// apart before the loop's end: the line ends after it
		ends := false
		for _, t := range textsAfter(b, l, cl) {
			ends = ends || t == cStr("\n")
		}
		r.need(ends && strings.TrimSpace(after) == "" && after != "", "text-columns", c, q.Pos, "columns are not kept apart, or the line of a row does not end: %q", after)
	}
	return w
}

// textsAfter are the texts printed in the iteration b of l once the inner loop was left
func textsAfter(b *Path, l, in *Loop) (r []*Term) {
	on := false
	for _, ev := range b.in(l) {
		if ev.Loop == in && ev.Loop != nil {
			on = true
		}
		if on && ev.Kind == "call" {
			if t := printedOrWritten(ev); t != nil {
				r = append(r, bare(t))
			}
		}
	}
	return
}

// checkCells: amounts in cells, and how cells are measured and padded
func checkCells(r *Report) {
	symbol, number := lookup("cmd/app.BookPrinter.FormatSymbol"), lookup("cmd/app.BookPrinter.FormatNumber")
	pure := func(fs ...*ssa.Function) Config {
		return Config{Mode: func(g *ssa.Function) Mode {
			for _, f := range fs {
				if f == g {
					return MPure
				}
			}
			return MInline
		}}
	}
	if f := r.fn("cmd/app.BookPrinter.GetColumnMoney"); f != nil && number != nil && symbol != nil {
		for _, p := range r.runFn(f, nil, pure(symbol, number)).returns() {
			res := p.Results[0]
			sym, num := shownIn(getField(res, "symbol")), shownIn(getField(res, "amount"))
			r.need(len(sym) == 1 && callOf(symbol, nil, is(param(f, 1)))(p, sym[0]), "text-money", shortFn(f), p.Pos, "the symbol is not that of the currency: %v", sym)
			r.need(len(num) == 1 && callOf(number, nil, is(param(f, 1)), amount(param(f, 2)))(p, num[0]), "text-money", shortFn(f), p.Pos, "the number is not that of the amount: %v", num)
		}
	}
	if number != nil {
		f := r.fn("cmd/app.BookPrinter.FormatNumber")
		for _, p := range r.runFn(f, nil, Config{}).returns() {
			x := p.Results[0]
			ok := x.Op == OCall && strings.HasPrefix(x.Aux, "locale:%.*f:") && len(x.Args) == 2 && float(param(f, 2))(p, x.Args[0])
			if ok {
				d := x.Args[1]
				m := p.LoadAt(nil, fld(param(f, 0), "cmd/app.BookPrinter", "decs"), fldT("cmd/app.BookPrinter", "decs"))
				mt := m.Typ.Underlying().(*types.Map)
				has := p.LoadAt(nil, T.mk(OMapHas, "", nil, m, param(f, 1)), boolT())
				switch {
				case p.Holds(has):
					ok = d == p.LoadAt(nil, mapEnt(m, param(f, 1), mt), mt.Elem())
				case p.Not(has):
					ok = d == cInt(2)
				default:
					ok = false
				}
			}
			r.need(ok, "text-money", shortFn(f), p.Pos, "the number does not have the decimals of its currency: %v", x)
		}
	}
	if symbol != nil {
		f := r.fn("cmd/app.BookPrinter.FormatSymbol")
		for _, p := range r.runFn(f, nil, Config{}).returns() {
			consts, vals := pieces(p.Results[0])
			r.need(len(vals) == 1 && vals[0] == param(f, 1) && strings.TrimSpace(strings.Join(consts, "")) == "", "text-money", shortFn(f), p.Pos, "the symbol is not the currency: %v", p.Results[0])
		}
	}
	length, pad := lookup("cmd/app.Length"), lookup("cmd/app.PadString")
	n := 0
	for _, f := range allFuncs {
		if !inRepo(f) || f.Synthetic != "" || relPkg(pkgOf(f)) != "cmd/app" || f.Name() != "Pad" || f.Signature.Recv() == nil {
			continue
		}
		n++
		g := methodOf(f.Signature.Recv().Type(), "Length")
		if !r.need(g != nil, "text-width", shortFn(f), f.Pos(), "the length of the cell is not known") {
			continue
		}
		var total *Term
		for _, p := range r.runFn(g, nil, pure(length)).returns() {
			r.need(total == nil || total == p.Results[0], "text-width", shortFn(g), p.Pos, "the length is not one")
			total = p.Results[0]
		}
		for _, p := range r.runFn(f, nil, pure(length, pad)).returns() {
			_, vals := pieces(p.Results[0])
			consts, _ := pieces(p.Results[0])
			sum, shown := cInt(0), cInt(0)
			good := strings.Join(consts, "") == ""
			for _, v := range vals {
				if v.Op == OCall && pad != nil && v.Aux == callName(pad) && len(v.Args) == 3 {
					sum = nAdd(sum, v.Args[1])
					v = v.Args[0]
				} else {
					sum = nAdd(sum, T.mk(OCall, callName(length), types.Typ[types.Int], v))
				}
				shown = nAdd(shown, T.mk(OCall, callName(length), types.Typ[types.Int], v))
			}
			good = good && sum == param(f, 1)
			r.need(good, "text-width", shortFn(f), p.Pos, "the cell does not have the width it should: %v", p.Results[0])
			m := map[*Term]*Term{}
			if total != nil {
				m[param(g, 0)] = param(f, 0)
				r.need(subst(total, m) == shown, "text-width", shortFn(f), p.Pos, "not all that is measured is in the cell, or more is")
			}
		}
	}
	r.need(n >= 3, "text-width", "cells", token.NoPos, "%d kinds of cells", n)
}

// checkPadding: what is counted as a character is the same where a text is measured and padded, and
// each character counted is in the text if there is room for it
func checkPadding(r *Report) {
	for _, n := range []string{"cmd/app.Length", "cmd/app.PadString"} {
		f := r.fn(n)
		if f == nil {
			continue
		}
		c := shortFn(f)
		e := r.runFn(f, nil, Config{})
		pads := f.Name() == "PadString"
		k := 0
		for _, p := range e.returns() {
			if len(p.loopsOn()) == 0 {
				continue
			}
			l := p.loopsOn()[0]
			k++
			checkChars(r, f, p, l, pads)
			res := p.Results[0]
			if !pads {
				isVar := false
				for _, v := range l.Vars {
					isVar = isVar || v == res && l.Entry[v] == cInt(0)
				}
				r.need(isVar, "text-width", c, p.Pos, "the length is not the number of characters: %v", res)
				continue
			}
			max := param(f, 1)
			_, vals := pieces(res)
			var body *Term
			room := false
			cnt := counter(l)
			for _, v := range vals {
				if v.Op == OCall && v.Aux == "strings.Repeat" && len(v.Args) == 2 && v.Args[0] == cStr(" ") && v.Args[1] == nSub(max, cnt) {
					room = true
				} else if body == nil {
					body = v
				} else {
					body = cStr("")
				}
			}
			ok := body != nil && isLoad(body) && body.Args[0].Op == OBufLoc
			r.need(ok, "text-width", c, p.Pos, "what is padded is not the text: %v", res)
			r.need(cnt != nil && (room || p.Not(cmp0("<", nSub(cnt, max)))), "text-width", c, p.Pos, "a text is not padded to the width: %v", res)
		}
		r.need(k > 0, "text-width", c, f.Pos(), "the characters are not gone over")
	}
}

// counter is the variable of the loop that counts by one
func counter(l *Loop) *Term {
	for _, v := range l.Vars {
		if !isIntT(v.Typ) || l.Entry[v] != cInt(0) {
			continue
		}
		ok, some := true, false
		for _, b := range l.Backs {
			d := nSub(b.Next[v], v)
			ok = ok && (d == cInt(0) || d == cInt(1))
			some = some || d == cInt(1)
		}
		if ok && some {
			return v
		}
	}
	return nil
}

func checkChars(r *Report, f *ssa.Function, p *Path, l *Loop, pads bool) {
	c := shortFn(f)
	cnt := counter(l)
	if !r.need(cnt != nil, "text-width", c, p.Pos, "the characters are not counted") {
		return
	}
	for _, b := range l.Backs {
		// the character
		var ch *Term
		b.anyFact(func(x *Term) bool {
			if x.Op == OCall && x.Aux == "utf8.DecodeRuneInString.0" && ch == nil {
				ch = x
			}
			return false
		})
		if !r.need(ch != nil, "text-width", c, b.Pos, "the character is not known") {
			continue
		}
		eq := func(n int64) *Term { return cmp0("=", nSub(ch, cInt(n))) }
		print := T.mk(OCall, "unicode.IsPrint", types.Typ[types.Bool], ch)
		counted := nSub(b.Next[cnt], cnt) == cInt(1)
		esc := b.Holds(eq(27))
		if counted {
			r.need(b.Not(eq(27)) && (b.Holds(print) || b.Holds(eq(9))), "text-width", c, b.Pos, "a character is counted that is not shown")
		} else {
			r.need(esc || b.Not(print) && b.Not(eq(9)), "text-width", c, b.Pos, "a character that is shown is not counted")
		}
		if !pads {
			continue
		}
		max := param(f, 1)
		over := cmp0("<", nSub(nAdd(max, cInt(-1)), cnt))
		fits, full := b.Not(over), b.Holds(over)
		if counted && !full {
			// it is in the text
			shown := false
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op != OBufLoc {
					continue
				}
				_, vals := pieces(w.val)
				consts, _ := pieces(w.val)
				tab := b.Holds(eq(9)) && strings.Join(consts, "") == " " && len(vals) == 1
				shown = tab || len(vals) == 2 && bareNum(vals[1]) == ch && strings.Join(consts, "") == ""
			}
			r.need(shown, "text-width", c, b.Pos, "a character there is room for is not in the text")
			r.need(fits, "text-width", c, b.Pos, "a character may be in the text though there is no room for it")
		} else if counted {
			for _, w := range b.writesSince(l.IterMem) {
				r.need(w.addr.Op != OBufLoc, "text-width", c, b.Pos, "a character there is no room for is in the text")
			}
		}
	}
}

// anyFact: some fact of the path has such a term
func (p *Path) anyFact(f func(x *Term) bool) bool {
	for _, ft := range p.Facts() {
		if ft.Cond.any(f) {
			return true
		}
	}
	return false
}

// noPlace: a posting has no row, or its place in it is taken
func noPlace(p *Path) bool {
	no := false
	for _, f := range p.Facts() {
		f.Cond.any(func(t *Term) bool {
			switch {
			case t.Op == OMapHas, isLoad(t) && t.Args[0].Op == OMapHas:
				no = no || p.Not(t)
			case isLoad(t) && t.Args[0].Op == OIdx && t.Typ != nil && strings.HasSuffix(t.Typ.String(), ".ColumnValue"):
				no = no || p.notNil(t)
			}
			return false
		})
	}
	return no
}
