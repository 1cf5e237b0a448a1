package main

// The accounts and currencies listed.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inOrder: the list of texts is put in ascending order by the call
func inOrder(r *Report, rule string, f *ssa.Function, ev *Event, list *Term) bool {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return false
	}
	a := ev.Args[0]
	for a != list && (a.Op == OIface || a.Op == OConv) && len(a.Args) == 1 {
		if strings.HasSuffix(a.Aux, "reverse") {
			return false
		}
		a = a.Args[0]
	}
	if a != list {
		return false
	}
	switch {
	case ev.Name == "sort.Strings" || ev.Name == "slices.Sort" || strings.HasPrefix(ev.Name, "slices.Sort[") || strings.HasSuffix(ev.Name, "sort.StringSlice).Sort") || ev.Name == "sort.StringSlice.Sort":
		return true
	case (ev.Name == "sort.Sort" || ev.Name == "sort.Stable") && ev.Args[0].Op == OIface && strings.HasSuffix(ev.Args[0].Aux, "sort.StringSlice"):
		return true
	case (ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable") && len(ev.Args) > 1 && ev.Args[1].Op == OClosure && len(ev.Args[1].Fn.Params) == 2:
		cl := ev.Args[1]
		e := AnalyseFrom(cl.Fn, nil, cl.Args, ev.Mem, nil, Config{})
		r.took(e, cl.Fn)
		et := elemType(list.Typ)
		for _, p := range e.Paths {
			if p.Kind != "return" || et == nil {
				return false
			}
			at := func(i int) *Term { return p.LoadAt(ev.Mem, idxAddr(list, param(cl.Fn, i), et), et) }
			if p.Results[0] != cmpT("<", at(0), at(1), et) {
				return false
			}
		}
		return len(e.Paths) > 0
	}
	return false
}

// orderedList: the list is put in order after the loop was left, and not changed from then on
func orderedList(r *Report, rule string, f *ssa.Function, p *Path, list *Term, l *Loop) bool {
	on, ok := false, false
	for _, ev := range p.Events() {
		if (ev.Kind == "endloop" || ev.Kind == "loop") && ev.Loop == l {
			on = true
		}
		if on && inOrder(r, rule, f, ev, list) {
			ok = true
		} else if ok && isSort(ev) && len(ev.Args) > 0 && ev.Args[0].contains(list) {
			ok = false
		}
	}
	return ok
}

// inSet: what the path knows of key being in a set kept in a new map, and the map
func inSet(b *Path, key *Term) (int, *Term) {
	for _, f := range b.Facts() {
		x := f.Cond
		var m *Term
		switch {
		case isLoad(x) && (x.Args[0].Op == OMapEnt || x.Args[0].Op == OMapHas) && x.Args[0].Args[1] == key:
			m = x.Args[0].Args[0]
		case x.Op == OMapHas && x.Args[1] == key:
			m = x.Args[0]
		}
		if m != nil && isNew(m) {
			if f.Val {
				return 1, m
			}
			return -1, m
		}
	}
	return 0, nil
}

// putsIn: the iteration puts key into the set m
func putsIn(b *Path, l *Loop, m, key *Term) bool {
	has, val := false, true
	for _, w := range b.writesSince(l.IterMem) {
		switch {
		case w.addr.Op == OMapHas && w.addr.Args[0] == m:
			if w.addr.Args[1] != key || !w.val.isTrue() {
				return false
			}
			has = true
		case w.addr.Op == OMapEnt && w.addr.Args[0] == m && isBoolT(w.val.Typ):
			val = w.val.isTrue()
		}
	}
	return has && val
}

// checkListed: C31
func checkListed(r *Report) {
	checkAccounts(r)
	checkAccountsShown(r)
	checkCurrencies(r)
	r.atLeast("accounts-all", 4)
	r.atLeast("accounts-balance", 4)
	r.atLeast("accounts-shown", 2)
	r.atLeast("currencies", 2)
}

func checkAccounts(r *Report) {
	f := r.fn("book.Book.Accounts")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, asEvents("book.Book.compact"))
	book, pat, only := param(f, 0), param(f, 1), param(f, 2)
	n := 0
	for _, p := range e.returns() {
		r.need(retErr(p) != 1 || failedCall(p), "refused", c, p.Pos, "it fails although nothing that it did has failed")
		if retErr(p) == 1 || len(p.Results) != 2 {
			continue
		}
		n++
		list := p.Results[0]
		// where the balances were noted
		var bl *Loop
		for _, l := range p.loopsOn() {
			for _, v := range l.Vars {
				if v == list {
					bl = l
				}
			}
		}
		if !r.need(bl != nil, "accounts-all", c, p.Pos, "the list is not made by going over accounts") {
			continue
		}
		entry := bl.Entry[list]
		z, isC := mkLen(entry).intVal()
		r.need(entry.isNil() || isC && z == 0, "accounts-all", c, p.Pos, "the list does not start empty")
		var sc *scan
		for _, s := range p.scans(bl) {
			if s.key != nil && isNew(s.over) {
				y := s
				sc = &y
			}
		}
		if !r.need(sc != nil, "accounts-all", c, p.Pos, "not every account noted is gone over") {
			continue
		}
		// listed are the keys of a set
		var set *Term
		if keysOf(p, list, sc.over) != nil && isStringT(sc.key.Typ) {
			set = sc.over
			ends := sc.l
			sc = nil
			for _, l := range p.loopsOn() {
				if l == ends {
					break
				}
				for _, s := range p.scans(l) {
					if s.key != nil && isNew(s.over) {
						y := s
						sc = &y
					}
				}
			}
			if !r.need(sc != nil, "accounts-all", c, p.Pos, "not every account noted is gone over") {
				continue
			}
		}
		src := sc
		for _, b := range src.l.Backs {
			acct := mkField(src.key, 0, types.Typ[types.String])
			bal := src.elem(b)
			in, known := inSet(b, acct)
			zero := cmp0("=", b.LoadAt(src.l.IterMem, numLoc(bal), nil))
			added, once := false, true
			if set != nil {
				known = set
				added = putsIn(b, src.l, set, acct)
			} else {
				nx := b.Next[list]
				added = nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == list
				if !r.need(added || nx == list, "accounts-all", c, b.Pos, "the list is made of something else: %v", nx) {
					continue
				}
				if added {
					r.need(nx.Args[1] == acct, "accounts-all", c, b.Pos, "what is listed is not the account: %v", nx.Args[1])
					once = in == -1 && putsIn(b, src.l, known, acct)
				}
			}
			if !added { // nothing is taken as listed that isn't
				for _, w := range b.writesSince(src.l.IterMem) {
					once = once && w.addr.Op != OMapEnt && w.addr.Op != OMapHas
				}
			}
			if added {
				r.need(b.Not(only) || b.Not(zero), "accounts-balance", c, b.Pos, "an account may be listed that has no balance")
				r.need(once, "accounts-once", c, b.Pos, "an account may be listed more than once")
				has := T.mk(OMapHas, "", nil, known, T.mk(OParam, "anykey", nil))
				r.need(known == nil || loadTM(src.l.EntryMem, newFacts(), has, boolT()) == cBool(false), "accounts-once", c, b.Pos, "some accounts are taken as listed before any is")
			} else {
				r.need(once && (in == 1 || b.Holds(only) && b.Holds(zero)), "accounts-balance", c, b.Pos, "an account is left out that should be listed")
			}
		}
		r.need(orderedList(r, "accounts-order", f, p, list, bl), "accounts-order", c, p.Pos, "the accounts are not put in order")
		// what is gone over: the last balance of each account and currency that matches
		compacted := false
		var nl *Loop
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.is("book.Book.compact") && ev.Args[0] == book {
				compacted = true
			}
			if ev.Kind == "loop" && nl == nil {
				nl = ev.Loop
				r.need(compacted, "accounts-balance", c, p.Pos, "the balances are those of before the last change of the book")
			}
		}
		if !r.need(nl != nil, "accounts-all", c, p.Pos, "the postings are not gone over") {
			continue
		}
		addr, _ := bookField(book, "post")
		posts := p.LoadAt(nl.EntryMem, addr, fldT("book.Book", "post"))
		i, ok := p.idxScan(nl, mkLen(posts))
		ps := &scan{nl, posts, i, nil}
		if !r.need(ok && ps.forward(), "accounts-all", c, p.Pos, "not every posting is looked at, in order") {
			continue
		}
		m := src.over
		has := T.mk(OMapHas, "", nil, m, T.mk(OParam, "anykey", nil))
		r.need(p.LoadAt(nl.EntryMem, has, boolT()) == cBool(false), "accounts-all", c, p.Pos, "accounts are noted before")
		for _, b := range nl.Backs {
			a := ps.field(b, "acct")
			match, re := matchCond(b, a, pat)
			wrote := 0
			for _, w := range b.writesSince(nl.IterMem) {
				if w.addr.Op != OMapEnt && w.addr.Op != OMapHas || w.addr.Args[0] != m {
					continue
				}
				wrote++
				k := w.addr.Args[1]
				good := k.Op == OStruct && len(k.Args) == 2 && k.Args[0] == a && k.Args[1] == ps.field(b, "ccy")
				r.need(good, "accounts-all", c, b.Pos, "a balance is not noted by account and currency: %v", k)
				if w.addr.Op == OMapEnt {
					same := w.val == ps.field(b, "bal") || b.Load(numLoc(w.val), nil) == b.LoadAt(nl.IterMem, numLoc(ps.field(b, "bal")), nil)
					r.need(same, "accounts-balance", c, b.Pos, "what is noted is not the balance: %v", w.val)
				} else {
					r.need(w.val.isTrue(), "accounts-all", c, b.Pos, "an account noted is removed")
				}
			}
			r.need(wrote > 0 && match == 1 && isRegexpOf(re, pat) || wrote == 0 && match == -1 && isRegexpOf(re, pat), "accounts-all", c, b.Pos, "not exactly the accounts that match are noted")
		}
	}
	r.need(n > 0, "accounts-all", c, f.Pos(), "no path lists the accounts")
}

// table is how the rows of a table are made: the first row, and one for each of what is gone over
type table struct {
	header []*Term
	sc     *scan
	rows   map[*Path][]*Term
	other  []*Path // iterations that do not add one row
}

// cells of the row x
func cells(p *Path, mem *Mem, x *Term) []*Term {
	if x != nil && x.Op == OAppend {
		var r []*Term
		if n, ok := mkLen(x.Args[0]).intVal(); !ok || n > 0 {
			if r = cells(p, mem, x.Args[0]); r == nil {
				return nil
			}
		}
		return append(r, x.Args[1:]...)
	}
	return rowOf(p, mem, x)
}

// tableOf: the rows are a first one and then one for each of src, in order
func tableOf(p *Path, rows, src *Term) *table {
	for _, l := range p.loopsOn() {
		ent := l.Entry[rows]
		if ent == nil || ent.Op != OAppend || len(ent.Args) != 2 {
			continue
		}
		if n, ok := mkLen(ent.Args[0]).intVal(); !(ok && n == 0) && !ent.Args[0].isNil() {
			continue
		}
		i, ok := p.idxScan(l, mkLen(src))
		if !ok {
			continue
		}
		s := &scan{l, src, i, nil}
		if !s.forward() {
			continue
		}
		t := &table{cells(p, l.EntryMem, ent.Args[1]), s, map[*Path][]*Term{}, nil}
		for _, b := range l.Backs {
			nx := b.Next[rows]
			if nx != nil && nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == rows {
				t.rows[b] = cells(b, b.Mem, nx.Args[1])
			} else {
				t.other = append(t.other, b)
			}
		}
		return t
	}
	return nil
}

func checkAccountsShown(r *Report) {
	f := commandRun(r, "cmd/accounts")
	if f == nil {
		return
	}
	c := "accounts"
	cfg := asEvents("book.Book.Accounts", "book.Book.GetCCYDecimals", "cmd/app.App.LoadBook", "cmd/app.BookPrinter.PrintColumns", "cmd/app.BookPrinter.PrintJSON")
	e := r.runFn(f, nil, cfg)
	args := param(f, 1)
	rows, json := 0, 0
	for _, p := range e.returns() {
		var load, asked *Event
		var shown []*Event
		for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn != nil }) {
			switch {
			case ev.is("cmd/app.App.LoadBook"):
				load = ev
			case ev.is("book.Book.Accounts"):
				asked = ev
			case ev.is("cmd/app.BookPrinter.PrintColumns") || ev.is("cmd/app.BookPrinter.PrintJSON"):
				shown = append(shown, ev)
			}
		}
		r.need(retErr(p) != 1 || failedCall(p), "refused", c, p.Pos, "it fails although nothing that it did has failed")
		if retErr(p) == 1 || len(shown) == 0 && retErr(p) == 0 {
			continue // an error
		}
		if !r.need(load != nil && asked != nil && asked.Args[0] == load.part(0) && len(shown) == 1, "accounts-shown", c, p.Pos, "the accounts of the book are not shown once") {
			continue
		}
		list := asked.part(0)
		pat := asked.Args[1]
		if pat.isStrC() {
			r.need(in(pat.strVal(), []string{"", ".*", "^.*$", "^"}) && p.Holds(cmp0("<", nSub(mkLen(args), cInt(1)))) || p.Not(cmp0(">", mkLen(args))) || in(pat.strVal(), []string{"", ".*", "^.*$", "^"}) && p.Not(cmp0("=", nSub(mkLen(args), cInt(1)))), "accounts-asked", c, p.Pos, "not all accounts are shown if none are asked for: %v", pat)
		} else {
			et := types.Typ[types.String]
			r.need(pat == p.LoadAt(nil, idxAddr(args, cInt(0), et), et), "accounts-asked", c, p.Pos, "the accounts shown are not those asked for: %v", pat)
		}
		all := bNot(asked.Args[2])
		r.need(fieldOf(all) == "All" || asked.Args[2].isTrue() && setting(p, "All") == -1 || asked.Args[2].isFalse() && setting(p, "All") == 1, "accounts-asked", c, p.Pos, "whether accounts without a balance are shown is not as asked: %v", asked.Args[2])
		if shown[0].is("cmd/app.BookPrinter.PrintJSON") {
			json++
			r.need(bare(shown[0].Args[1]) == list, "accounts-shown", c+" json", p.Pos, "what is shown are not the accounts")
			continue
		}
		rows++
		t := tableOf(p, shown[0].Args[1], list)
		if !r.need(t != nil && len(t.header) == 1 && len(t.other) == 0, "accounts-shown", c+" rows", p.Pos, "there is not a row for each account") {
			continue
		}
		for b, row := range t.rows {
			r.need(len(row) == 1 && bare(row[0]) == t.sc.elem(b), "accounts-shown", c+" rows", b.Pos, "the row of an account does not show it: %v", row)
		}
	}
	r.need(rows > 0 && json > 0, "accounts-shown", c, f.Pos(), "the accounts are not shown")
}

// commandRun is the function that carries out the only command of the package
func commandRun(r *Report, pkg string) *ssa.Function {
	var fs []*ssa.Function
	for _, f := range allFuncs {
		if !inRepo(f) || relPkg(pkgOf(f)) != pkg || f.Synthetic != "" {
			continue
		}
		if len(callsOf(f, func(_ string, g *ssa.Function) bool { return g != nil && shortFn(g) == "(*cmd/app.App).LoadBook" })) > 0 {
			fs = append(fs, f)
		}
	}
	if !r.need(len(fs) == 1, "anchor", pkg, noPos, "the command is carried out by %d functions", len(fs)) {
		return nil
	}
	return fs[0]
}

func checkCurrencies(r *Report) {
	f := commandRun(r, "cmd/currencies")
	if f == nil {
		return
	}
	c := "currencies"
	e := r.runFn(f, nil, asEvents("book.Book.GetCCYDecimals", "cmd/app.App.LoadBook"))
	n := 0
	for _, p := range e.returns() {
		var load, asked *Event
		for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn != nil }) {
			switch {
			case ev.is("cmd/app.App.LoadBook"):
				load = ev
			case ev.is("book.Book.GetCCYDecimals"):
				asked = ev
			}
		}
		if retErr(p) != -1 {
			continue
		}
		if !r.need(load != nil && asked != nil && asked.Args[0] == load.part(0), "currencies", c, p.Pos, "the currencies are not those of the book") {
			continue
		}
		m := asked.part(0)
		ok := false
		for _, l := range p.loopsOn() {
			for _, s := range p.scans(l) {
				s := s
				b := (*listing)(nil)
				if s.idx != nil && s.forward() {
					b = keysOf(p, s.over, m)
				}
				if b == nil {
					continue
				}
				ok = true
				r.need(orderedList(r, "currencies", f, p, s.over, b.sc.l), "currencies", c, p.Pos, "the currencies are not put in order")
				for _, q := range l.Backs {
					texts, _ := outputOf(q, l)
					var vals []*Term
					for _, t := range texts {
						_, v := pieces(t)
						vals = append(vals, v...)
					}
					el := s.elem(q)
					good := len(vals) == 2 && vals[0] == el && vals[1].Op == OCall && (strings.HasPrefix(vals[1].Aux, "fmt:%d") || strings.HasPrefix(vals[1].Aux, "fmt:%v") || vals[1].Aux == "strconv.Itoa") && len(vals[1].Args) == 1
					if good {
						x := vals[1].Args[0]
						good = isLoad(x) && x.Args[0].Op == OMapEnt && x.Args[0].Args[0] == m && x.Args[0].Args[1] == el
					}
					r.need(good, "currencies", c, q.Pos, "a currency and its decimals are not shown: %v", vals)
				}
			}
		}
		if r.need(ok, "currencies", c, p.Pos, "not every currency is shown") {
			n++
		}
	}
	r.need(n > 0, "currencies", c, f.Pos(), "the currencies are not shown")
	if g := r.fn("book.Book.GetCCYDecimals"); g != nil {
		for _, p := range r.runFn(g, nil, Config{}).returns() {
			_, m := bookField(param(g, 0), "ccy")
			r.need(p.Results[0] == m, "currencies", shortFn(g), p.Pos, "the decimals are not those of the book")
		}
	}
}
