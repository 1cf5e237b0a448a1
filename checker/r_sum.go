package main

// Summary reports: what accounts that group others come to.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// helperLike: the function of f's package that f reaches with that signature
func helperLike(f *ssa.Function, sig string) *ssa.Function {
	var g *ssa.Function
	for h := range reach(f) {
		if h.Pkg != f.Pkg || h.Signature.Recv() != nil || h.Parent() != nil || h == f {
			continue
		}
		if s := types.TypeString(h.Signature, func(p *types.Package) string { return p.Name() }); plainSig(h.Signature) == sig || s == sig {
			if g == nil || shortFn(h) < shortFn(g) {
				g = h
			}
		}
	}
	return g
}

// plainSig: the types of a signature without names
func plainSig(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Name() }
	t := ""
	for i := 0; i < s.Params().Len(); i++ {
		t += types.TypeString(s.Params().At(i).Type(), q) + ","
	}
	t += ">"
	for i := 0; i < s.Results().Len(); i++ {
		t += types.TypeString(s.Results().At(i).Type(), q) + ","
	}
	return t
}

// unchanged: nothing is written but what was made on the way
func unchanged(p *Path) (string, bool) {
	for _, w := range p.writesSince(nil) {
		if r := rootObj(w.addr); isNew(r) || r.Op == OMake || r.Op == OAlloc || made(r, 0) {
			continue
		}
		if w.addr.Op == ONumLoc && isNew(w.addr.Args[0]) {
			continue
		}
		return w.addr.String(), false
	}
	return "", true
}

// made: the list was made on the way, and only added to
func made(v *Term, depth int) bool {
	switch {
	case depth > 6:
		return false
	case v.isNil() || isNew(v) || isNew(baseSlice(v)):
		return true
	case v.Op == OAppend || v.Op == OAppendS || v.Op == OSlice:
		return made(v.Args[0], depth+1)
	case v.Op == OLoopVar && v.Loop != nil && v.Loop.Entry[v] != nil:
		if !made(v.Loop.Entry[v], depth+1) {
			return false
		}
		for _, b := range v.Loop.Backs {
			x := b.Next[v]
			for x != v && (x.Op == OAppend || x.Op == OAppendS || x.Op == OSlice || x.Op == OLoopVar && x.Loop.Entry[x] != nil) {
				if x.Op == OLoopVar {
					x = x.Loop.Entry[x]
				} else {
					x = x.Args[0]
				}
			}
			if x != v && !made(x, depth+3) {
				return false
			}
		}
		return true
	}
	return false
}

// summary is what is known of the function that sums up
type summary struct {
	r                           *Report
	f, prefix, level, order     *ssa.Function
	add, price                  *ssa.Function
	book, ccy, div, credit, hid *Term
	c                           string
}

// checkSummary: C38
func checkSummary(r *Report) {
	f := r.fn("book.Book.Accumulate")
	if f == nil {
		return
	}
	s := &summary{r: r, f: f, c: shortFn(f), book: param(f, 0), ccy: param(f, 1), div: param(f, 2), credit: param(f, 3), hid: param(f, 4),
		prefix: helperLike(f, "string,string,string,>string,"),
		level:  helperLike(f, "map[string]bool,string,bool,string,>int,string,"),
		order:  helperLike(f, "map[string]*big.Rat,string,string,>string,"),
		add:    helperLike(f, "[]book.Posting,>[]book.Posting,"),
		price:  lookup("book.Book.GetPrice")}
	compact, less := lookup("book.Book.compact"), lookup("book.Posting.isLess")
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		switch g {
		case nil:
		case compact, s.add:
			return MEvent
		case s.prefix, s.level, s.order, s.price, less:
			return MPure
		}
		return MInline
	}})
	n := 0
	for _, p := range e.Paths {
		w, ok := unchanged(p)
		r.need(ok, "sum-book-kept", s.c, p.Pos, "the postings of the book are changed: %s", w)
	}
	for _, p := range e.returns() {
		if s.full(p) {
			n++
		}
	}
	r.need(n > 0, "sum-total", s.c, f.Pos(), "never sums anything up")
	if s.add != nil {
		s.checkZeros()
	}
	if s.prefix != nil {
		s.checkPrefix()
	}
	if s.level != nil {
		s.checkLevel()
	}
	r.atLeast("sum-total", 4)
	r.atLeast("sum-level", 8)
	r.atLeast("sum-group", 4)
	r.atLeast("sum-kept", 3)
	r.atLeast("sum-zero", 8)
	r.atLeast("sum-shown", 4)
	r.atLeast("sum-prefix", 6)
	// what it is asked for with
	checkReportOrder(r)
}

// full: a path that gives summed up transactions
func (s *summary) full(p *Path) bool {
	r, c := s.r, s.c
	evs := p.Events()
	grouped := false
	var posts *Term
	for _, ev := range evs {
		if ev.Kind == "call" && ev.is("book.Book.compact") {
			grouped = true
		}
		if ev.Kind == "call" && s.add != nil && ev.Fn == s.add {
			posts = ev.Res
			from := ev.Args[0]
			_, b0 := bookField(s.book, "post")
			b0 = p.LoadAt(ev.Mem, fld(s.book, "book.Book", "post"), fldT("book.Book", "post"))
			ok := from.Op == OAppendS && len(from.Args) == 2 && from.Args[1] == b0 && (from.Args[0].isNil() || p.Holds(cmp0("=", mkLen(from.Args[0]))))
			if !ok && p.builtFrom(from, b0) != nil && isNew(baseSlice(from)) {
				ok = s.copied(p.builtFrom(from, b0))
			}
			if !ok && isNew(baseSlice(from)) {
				for _, cp := range evs {
					if cp.Kind == "call" && cp.Name == "copy" && len(cp.Args) == 2 && cp.Args[0] == from && cp.Args[1] == b0 && mkLen(from) == mkLen(b0) {
						ok = true
					}
				}
			}
			r.need(ok, "sum-kept", c, ev.Pos, "what is summed up is not a copy of every posting of the book: %v", from)
			r.need(grouped, "sum-kept", c, ev.Pos, "the postings are not put in order first")
		}
	}
	if posts == nil {
		_, b0 := bookField(s.book, "post")
		none := p.anyFact(func(y *Term) bool { return isLoad(y) && isFieldLoad(y, "book.Book", "post") })
		r.need(none && (len(p.Results) == 1), "sum-kept", c, p.Pos, "the accounts without a posting are left out (%v)", b0)
		return false
	}
	// the transactions given
	var shown *Term
	for _, l := range p.loopsOn() {
		for _, b := range l.Backs {
			for _, v := range b.Next {
				if v.Op == OAppend && len(v.Args) == 2 && v.Args[1].Op == OSlice && isPostList(v.Args[1].Typ) {
					shown = baseSlice(v.Args[1])
				}
			}
		}
	}
	if !r.need(shown != nil, "sum-shown", c, p.Pos, "the postings are not divided into transactions") {
		return true
	}
	checkPartition(r, s.f, p, shown, nil)
	// all of it, before some is left out
	var all *Term
	var allAt *Event
	for _, ev := range evs {
		if ev.Kind == "call" && sortEv(ev) && elemIsType(ev, tPosting) {
			all = ev.Args[0]
			if all.Op == OIface {
				all = all.Args[0]
			}
			allAt = ev
		}
	}
	if !r.need(all != nil, "sum-shown", c, p.Pos, "the postings are not put in order") {
		return true
	}
	s.sorted(allAt)
	if all != shown {
		if ls := p.builtFrom(shown, all); r.need(ls != nil, "sum-shown", c, p.Pos, "not all of the postings are shown") {
			s.shown(ls)
		}
	}
	// made of the postings and the groups
	var eposts, sposts *Term
	if all.Op == OAppendS && len(all.Args) == 2 {
		eposts, sposts = all.Args[0], all.Args[1]
	}
	if !r.need(eposts != nil, "sum-total", c, p.Pos, "the postings shown are not those of the accounts and of the groups: %v", all) {
		return true
	}
	s.main(p, posts, eposts, sposts)
	return true
}

// copied: each element is the one of the source
func (s *summary) copied(ls *listing) bool {
	for b, el := range ls.elems {
		if el == nil {
			return false
		}
		for i := 0; i < postT().Underlying().(*types.Struct).NumFields(); i++ {
			n := postT().Underlying().(*types.Struct).Field(i).Name()
			if getF(el, tPosting, n) != ls.sc.field(b, n) {
				return false
			}
		}
	}
	return true
}

// sorted: the order is that of the book
func (s *summary) sorted(ev *Event) { checkSort(s.r, "sum-shown", s.f, ev, tPosting, postOrder) }

// shown: just the hidden account is left out, and just those that match are turned
func (s *summary) shown(ls *listing) {
	r, c := s.r, s.c
	for b, el := range ls.elems {
		acct := ls.sc.field(b, "acct")
		isHid := cmpT("==", acct, s.hid, types.Typ[types.String])
		none := cmp0("=", mkLen(s.hid))
		if el == nil {
			r.need(b.Holds(isHid) && b.Not(none), "sum-shown", c, b.Pos, "an account that may not be the hidden one is left out")
			continue
		}
		r.need(b.Holds(none) || b.Not(isHid), "sum-shown", c, b.Pos, "the hidden account may be shown")
		for i, st := 0, postT().Underlying().(*types.Struct); i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			if n != "val" {
				r.need(getF(el, tPosting, n) == ls.sc.field(b, n), "sum-shown", c+" "+n, b.Pos, "the %s of the posting is changed", n)
			}
		}
		m, _ := matchCond(b, acct, s.credit)
		if b.isNil(s.credit) {
			m = -1
		}
		was := b.LoadAt(ls.sc.l.IterMem, numLoc(ls.sc.field(b, "val")), nil)
		now := b.Load(numLoc(getF(el, tPosting, "val")), nil)
		switch m {
		case 1:
			r.need(now == nNeg(was), "sum-sign", c, b.Pos, "the sign of an account that matches is not turned: %v", now)
		case -1:
			r.need(now == was, "sum-sign", c, b.Pos, "an account that does not match is not shown as it is: %v", now)
		default:
			r.need(false, "sum-sign", c, b.Pos, "whether the account matches is not asked")
		}
	}
	r.atLeast("sum-sign", 2)
}

// main: the loop that takes the postings one by one and sums up after each transaction
func (s *summary) main(p *Path, posts, eposts, sposts *Term) {
	r, c := s.r, s.c
	if eposts.Op != OLoopVar {
		r.need(false, "sum-total", c, p.Pos, "the postings are not taken one by one: %v", eposts)
		return
	}
	m := eposts.Loop
	i, ok := p.idxRun(m, mkLen(posts), false)
	if !r.need(ok, "sum-total", c, p.Pos, "not every posting is taken") {
		return
	}
	n, isC := mkLen(m.Entry[eposts]).intVal()
	r.need(isC && n == 0, "sum-total", c, p.Pos, "the list of postings does not start empty")
	// what the list of groups is before an iteration
	var groups *Term
	for _, v := range m.Vars {
		if v != eposts && isPostList(v.Typ) {
			groups = v
		}
	}
	if !r.need(groups != nil, "sum-total", c, p.Pos, "the postings of groups are not collected") {
		return
	}
	n, isC = mkLen(m.Entry[groups]).intVal()
	r.need(isC && n == 0, "sum-total", c, p.Pos, "the list of groups does not start empty")
	// where the transaction starts
	var start, conv *Term
	for _, v := range m.Vars {
		if isIntT(v.Typ) && v != i && m.Entry[v] == cInt(0) {
			start = v
			for _, b := range m.Backs {
				if b.Next[v] != v && b.Next[v] != i {
					start = nil
				}
			}
			if start != nil {
				break
			}
		}
	}
	if !r.need(start != nil, "sum-total", c, p.Pos, "where a transaction starts is not kept") {
		return
	}
	// the converted amounts: a list of an account and a number
	for _, v := range m.Vars {
		if et := elemType(v.Typ); et != nil && v != eposts && v != groups {
			if st, ok := et.Underlying().(*types.Struct); ok && st.NumFields() >= 2 {
				conv = v
			}
		}
	}
	if !r.need(conv != nil, "sum-total", c, p.Pos, "the amounts of a transaction are not collected") {
		return
	}
	n, isC = mkLen(m.Entry[conv]).intVal()
	r.need(isC && n == 0, "sum-total", c, p.Pos, "the amounts do not start empty")
	accum := s.accum(p, posts, m)
	if accum == nil {
		return
	}
	step := func(q *Path, last bool) {
		g := q.Next[groups]
		if last {
			g = sposts
		}
		el := func(at *Term, fd string) *Term { return elemF(q, m.IterMem, posts, at, fd) }
		end := q.Holds(bNot(cmp0("<", nSub(i, mkLen(posts)))))
		changes, goesOn := end, true
		for _, fd := range []string{"date", "payee"} {
			changes = changes || q.differ(el(i, fd), el(start, fd), fldT(tPosting, fd))
			goesOn = goesOn && q.same(el(i, fd), el(start, fd), fldT(tPosting, fd))
		}
		empty := cInt(0)
		base := conv
		if g == groups {
			r.need(goesOn && !last, "sum-total", c, q.Pos, "a transaction may end without being summed up")
			r.need(last || q.Next[start] == start, "sum-total", c, q.Pos, "the start of the transaction moves")
		} else {
			r.need(changes, "sum-total", c, q.Pos, "the sums are made before the transaction ends")
			s.flush(q, m, g, groups, conv, posts, accum, start)
			r.need(last || q.Next[start] == i, "sum-total", c, q.Pos, "the next transaction does not start where the one before ended")
			base = nil
		}
		s.levels(q, m, eposts, accum, start, i, g != groups)
		if last {
			return
		}
		// one posting more
		nx := q.Next[eposts]
		if r.need(nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == eposts, "sum-kept", c, q.Pos, "a posting is not kept") {
			for k, st := 0, postT().Underlying().(*types.Struct); k < st.NumFields(); k++ {
				fd := st.Field(k).Name()
				if !in(fd, []string{"acctlevel", "acctterm", "acctsort"}) {
					r.need(getF(nx.Args[1], tPosting, fd) == el(i, fd), "sum-kept", c+" "+fd, q.Pos, "the %s of the posting is changed", fd)
				}
			}
			v := getF(nx.Args[1], tPosting, "val")
			r.need(q.Load(numLoc(v), nil) == q.LoadAt(m.IterMem, numLoc(v), nil), "sum-kept", c, q.Pos, "the amount of the posting is changed")
		}
		// and its amount, in the currency of the report
		nc := q.Next[conv]
		ok := nc.Op == OAppend && len(nc.Args) == 2
		if ok {
			if base != nil {
				ok = nc.Args[0] == base
			} else {
				ok = q.Holds(cmp0("=", nSub(mkLen(nc.Args[0]), empty)))
			}
		}
		if !r.need(ok, "sum-amount", c, q.Pos, "the amounts are not those of the transaction: %v", nc) {
			return
		}
		a, v := amountOf(nc.Args[1])
		r.need(a == el(i, "acct"), "sum-amount", c, q.Pos, "the amount is not taken for its account: %v", a)
		num := cInt(0)
		if v != nil {
			num = q.Load(numLoc(v), nil)
		}
		was := q.LoadAt(m.IterMem, numLoc(el(i, "val")), nil)
		switch same := cmpT("==", el(i, "ccy"), s.ccy, types.Typ[types.String]); {
		case q.Holds(same):
			r.need(num == was, "sum-amount", c, q.Pos, "the amount is changed: %v", num)
		case q.Not(same):
			rate := priceOf(q, s.book, el(i, "date"), el(i, "ccy"), s.ccy)
			if r.need(rate != nil, "sum-amount", c, q.Pos, "the price of the posting's own date and currency is not looked up") {
				r.need(num == nMul(was, q.Load(numLoc(rate), nil)), "sum-amount", c, q.Pos, "the amount is not the amount times the price: %v", num)
			}
		default:
			rate := priceOf(q, s.book, el(i, "date"), el(i, "ccy"), s.ccy)
			r.need(rate != nil && num == nMul(was, q.Load(numLoc(rate), nil)), "sum-amount", c, q.Pos, "whether the amount has another currency is not asked")
		}
	}
	for _, b := range m.Backs {
		step(b, false)
	}
	step(p, true)
	r.atLeast("sum-amount", 4)
}

// amountOf: the account and the number of an element
func amountOf(el *Term) (acct, val *Term) {
	st, ok := el.Typ.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		switch {
		case isStringT(t):
			acct = mkField(el, i, t)
		case isRatPtr(t):
			val = mkField(el, i, t)
		}
	}
	return
}

func isRatPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.TypeString(p.Elem(), nil) == "math/big.Rat"
}

// accum: the set of accounts that group others, noted by going over all postings
func (s *summary) accum(p *Path, posts *Term, m *Loop) *Term {
	r, c := s.r, s.c
	var set *Term
	var at *Loop
	for _, l := range p.loopsOn() {
		if l == m {
			break
		}
		if _, ok := p.idxScan(l, mkLen(posts)); !ok {
			continue
		}
		for _, b := range l.Backs {
			asked := b.anyFact(func(x *Term) bool { return x == s.ccy }) // whether the currency is another
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op == OMapHas && isNew(w.addr.Args[0]) && asked {
					set, at = w.addr.Args[0], l
				}
			}
		}
	}
	if !r.need(set != nil && s.prefix != nil, "sum-group", c, p.Pos, "the accounts that group others are not found") {
		return nil
	}
	i, _ := p.idxScan(at, mkLen(posts))
	for _, b := range at.Backs {
		el := func(k *Term, fd string) *Term { return elemF(b, at.IterMem, posts, k, fd) }
		prev := nSub(i, cInt(1))
		var put []*Term
		for _, w := range b.writesSince(at.IterMem) {
			if w.addr.Op == OMapHas && w.addr.Args[0] == set {
				if w.val.isTrue() {
					put = append(put, w.addr.Args[1])
				} else {
					r.need(false, "sum-group", c, b.Pos, "a group is taken away")
				}
			}
		}
		has := func(x *Term) bool {
			for _, k := range put {
				if k == x {
					return true
				}
			}
			return false
		}
		key := T.mk(OCall, callName(s.prefix), types.Typ[types.String], el(prev, "acct"), el(i, "acct"), s.div)
		key2 := T.mk(OCall, callName(s.prefix), types.Typ[types.String], el(i, "acct"), el(prev, "acct"), s.div)
		same := cmpT("==", el(i, "ccy"), s.ccy, types.Typ[types.String])
		r.need(b.Holds(same) || has(el(i, "acct")), "sum-group", c, b.Pos, "an account with another currency is not summed up in the currency of the report")
		first := b.Holds(cmp0("=", i)) || b.Holds(bNot(cmp0(">", i)))
		no := first || b.Holds(cmp0("=", mkLen(key))) || b.Holds(cmp0("=", mkLen(key2)))
		r.need(no || has(key) || has(key2), "sum-group", c, b.Pos, "the account two neighbours have in common is not taken as a group")
		for _, k := range put {
			switch k {
			case el(i, "acct"):
				r.need(b.Not(same) || k == key, "sum-group", c, b.Pos, "an account is taken as a group without others under it")
			case key, key2:
				r.need(b.Not(cmp0("=", mkLen(k))) && !first, "sum-group", c, b.Pos, "a group without a name")
			default:
				r.need(false, "sum-group", c, b.Pos, "something else is taken as a group: %v", k)
			}
		}
	}
	s.above(p, posts, set, at, m)
	return set
}

// above: so are the accounts with postings of their own that others are under
func (s *summary) above(p *Path, posts, set *Term, at, m *Loop) {
	r, c := s.r, s.c
	found := false
	for _, l := range p.loopsOn() {
		if l == m {
			break
		}
		i, ok := p.idxScan(l, mkLen(posts))
		if !ok || l == at {
			continue
		}
		for _, b := range l.Backs {
			acct := elemF(b, l.IterMem, posts, i, "acct")
			here := false
			for _, il := range b.innerLoops(l) {
				j, all := b.idxScan(il, mkLen(acct))
				for _, ib := range il.Backs {
					// ends: a component ends there; known: what is before it is an account
					ends, known, put := 0, 0, false
					pre := func(x *Term) bool {
						return x.Op == OSlice && x.Args[0] == acct && x.Args[1] == cInt(0) && x.Args[2] == j
					}
					val := func(v bool) int {
						if v {
							return 1
						}
						return -1
					}
					for _, ft := range ib.Facts() {
						x := ft.Cond
						if x.Op == OCall && x.Aux == "strings.HasPrefix" && x.Args[1] == s.div && x.Args[0].Op == OSlice && x.Args[0].Args[0] == acct && x.Args[0].Args[1] == j {
							ends = val(ft.Val)
						}
						if k := keyIn(x); k != nil && pre(k) && s.allAccounts(p, setIn(x), posts, l) {
							known = val(ft.Val)
						}
					}
					for _, w := range ib.writesSince(il.IterMem) {
						if w.addr.Op == OMapHas && w.addr.Args[0] == set {
							put = true
							r.need(w.val.isTrue() && pre(w.addr.Args[1]), "sum-group", c, ib.Pos, "something else is taken as a group: %v", w.addr.Args[1])
						}
					}
					if put {
						here = all
						r.need(ends == 1 && known == 1, "sum-group", c, ib.Pos, "something is taken as a group that may not be an account")
					} else if known != 0 || ends != 0 {
						r.need(ends == -1 || known == -1, "sum-group", c, ib.Pos, "an account that others are under is not taken as a group")
					}
				}
			}
			found = found || here
		}
	}
	r.need(found, "sum-group", c, p.Pos, "accounts that others are under are not all taken as groups")
}

// allAccounts: set is that of the accounts of all postings, when l is come to
func (s *summary) allAccounts(p *Path, set, posts *Term, l *Loop) bool {
	for _, x := range p.loopsOn() {
		if x == l {
			return false
		}
		i, ok := p.idxScan(x, mkLen(posts))
		if !ok || len(x.Backs) == 0 {
			continue
		}
		all := true
		for _, b := range x.Backs {
			in, only := false, true
			for _, w := range b.writesSince(x.IterMem) {
				if w.addr.Op == OMapHas && w.addr.Args[0] == set {
					is := w.addr.Args[1] == elemF(b, x.IterMem, posts, i, "acct") && w.val.isTrue()
					in, only = in || is, only && is
				}
			}
			all = all && in && only
		}
		if all {
			return true
		}
	}
	return false
}

// flush: the groups of a transaction are added, each with the sum of the amounts at or under it
func (s *summary) flush(q *Path, m *Loop, g, groups, conv, posts, accum, start *Term) {
	r, c := s.r, s.c
	if !r.need(g.Op == OLoopVar && g.Loop.Entry[g] == groups, "sum-total", c, q.Pos, "the groups are not added one by one: %v", g) {
		return
	}
	l := g.Loop
	k, ok := q.mapScan(l, accum)
	if !r.need(ok, "sum-total", c, q.Pos, "not every group is gone over") {
		return
	}
	for _, b := range l.Backs {
		nx := b.Next[g]
		if !r.need(nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == g, "sum-total", c, b.Pos, "a group is not added") {
			continue
		}
		el := nx.Args[1]
		for _, fd := range []string{"date", "payee", "tnote"} {
			r.need(getF(el, tPosting, fd) == elemF(b, m.IterMem, posts, start, fd), "sum-total", c+" "+fd, b.Pos, "the %s of a group is not that of the transaction", fd)
		}
		r.need(getF(el, tPosting, "acct") == k, "sum-total", c, b.Pos, "the account of the group is %v", getF(el, tPosting, "acct"))
		r.need(getF(el, tPosting, "ccy") == s.ccy, "sum-total", c, b.Pos, "the currency of the group is not that of the report")
		bal := getF(el, tPosting, "bal")
		r.need(b.Load(numLoc(bal), nil) == cInt(0) && isNew(bal), "sum-total", c, b.Pos, "the balance of the group does not start at zero")
		s.levelOf(b, getF(el, tPosting, "acctlevel"), getF(el, tPosting, "acctterm"), accum, k, false)
		s.sumOf(q, m, l, b, getF(el, tPosting, "val"), k, conv, accum)
	}
}

// sumOf: v is the sum of the amounts of the transaction at or under account k
func (s *summary) sumOf(q *Path, m, l *Loop, b *Path, v, k, conv, accum *Term) {
	r, c := s.r, s.c
	if isNew(v) && !isLoad(v) {
		s.sumLoop(b, l, v, k, conv)
		return
	}
	if !r.need(isLoad(v) && v.Args[0].Op == OMapEnt && v.Args[0].Args[1] == k && isNew(v.Args[0].Args[0]), "sum-amounts", c, b.Pos, "the sum of a group is not what was summed up for it: %v", v) {
		return
	}
	sums := v.Args[0].Args[0]
	found := false
	for _, sl := range q.innerLoops(m) {
		if sl == l {
			break
		}
		sk, ok := q.mapScan(sl, accum)
		if !ok {
			// other amounts may be noted before
			if found {
				for _, sb := range sl.Backs {
					for _, w := range sb.writesSince(sl.IterMem) {
						if (w.addr.Op == OMapEnt || w.addr.Op == OMapHas) && w.addr.Args[0] == sums {
							found = false
						}
					}
				}
			}
			continue
		}
		for _, sb := range sl.Backs {
			var to *Term
			only := true
			for _, w := range sb.writesSince(sl.IterMem) {
				if w.addr.Op == OMapEnt && w.addr.Args[0] == sums {
					only = only && w.addr.Args[1] == sk && to == nil
					to = w.val
				}
			}
			if to == nil {
				continue
			}
			found = true
			if r.need(only && isNew(to) && !isLoad(to), "sum-amounts", c, sb.Pos, "the sum is noted for another account") {
				s.sumLoop(sb, sl, to, sk, conv)
			}
		}
	}
	r.need(found, "sum-amounts", c, b.Pos, "the sum of a group is not made before")
}

// sumLoop: in an iteration of l on b, number v becomes the sum for k
func (s *summary) sumLoop(b *Path, l *Loop, v, k, conv *Term) {
	r, c := s.r, s.c
	n := 0
	for _, il := range b.innerLoops(l) {
		idx, ok := b.idxScan(il, mkLen(conv))
		if !ok {
			continue
		}
		at := numLoc(v)
		cur, entry := b.LoadAt(il.IterMem, at, nil), b.LoadAt(il.EntryMem, at, nil)
		adds := false
		for _, ib := range il.Backs {
			adds = adds || ib.Load(at, nil) != cur
		}
		if !adds {
			continue
		}
		n++
		r.need(entry == cInt(0), "sum-amounts", c, b.Pos, "the sum does not start at zero: %v", entry)
		sc := &scan{il, conv, idx, nil}
		under := mkConcat(k, s.div)
		for _, ib := range il.Backs {
			acct, val := amountOf(sc.elem(ib))
			is := cmpT("==", acct, k, types.Typ[types.String])
			pre := mkHasPrefix(acct, under)
			nx, num := ib.Load(at, nil), ib.LoadAt(il.IterMem, numLoc(val), nil)
			switch {
			case ib.Holds(is) || ib.Holds(pre):
				r.need(nx == nAdd(cur, num), "sum-amounts", c, ib.Pos, "an amount at or under the account is not added: %v", nx)
			case ib.Not(is) && ib.Not(pre):
				r.need(nx == cur, "sum-amounts", c, ib.Pos, "an amount of another account is added")
			default:
				r.need(false, "sum-amounts", c, ib.Pos, "whether the account is at or under the group is not asked")
			}
		}
	}
	r.need(n == 1, "sum-amounts", c, b.Pos, "the amounts of the transaction are not gone over once")
}

// levelOf: the place of an account among the groups is worked out for that account
func (s *summary) levelOf(b *Path, level, term, accum, acct *Term, self bool) {
	if s.level == nil {
		return
	}
	for i, t := range []*Term{level, term} {
		ok := t.Op == OCall && len(t.Args) == 4 && t.Aux == callName(s.level)+[]string{".0", ".1"}[i] &&
			t.Args[0] == accum && t.Args[1] == acct && t.Args[2] == cBool(self) && t.Args[3] == s.div
		s.r.need(ok, "sum-level", s.c, b.Pos, "the name or level of an account is not that of the account among the groups: %v", t)
	}
}

// levels: nothing but the place among the groups is changed in the postings taken
func (s *summary) levels(q *Path, m *Loop, eposts, accum, start, end *Term, must bool) {
	r, c := s.r, s.c
	done := false
	for _, l := range q.innerLoops(m) {
		touches := false
		for _, b := range l.Backs {
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op == OFld && isFieldAddr(w.addr, tPosting) && baseSlice(rootObj(w.addr)) == eposts {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		for _, v := range l.Vars {
			if !isIntT(v.Typ) || l.Entry[v] != start || !q.Holds(bNot(cmp0("<", nSub(v, end)))) {
				continue
			}
			ok := true
			for _, b := range l.Backs {
				ok = ok && b.Next[v] == nAdd(v, cInt(1))
			}
			if !ok {
				continue
			}
			done = true
			for _, b := range l.Backs {
				acct := elemF(b, l.IterMem, eposts, v, "acct")
				for _, w := range b.writesSince(l.IterMem) {
					if w.addr.Op != OFld || !isFieldAddr(w.addr, tPosting) {
						continue
					}
					t := postT()
					at := func(n string) *Term { return fldAddr(idxAddr(eposts, v, t), t, fieldIdx(t, n)) }
					r.need(w.addr == at("acctlevel") || w.addr == at("acctterm") || w.addr == at("acctsort"), "sum-kept", c, b.Pos, "something else of the posting is changed: %v", w.addr)
				}
				get := func(n string) *Term { return elemF(b, b.Mem, eposts, v, n) }
				s.levelOf(b, get("acctlevel"), get("acctterm"), accum, acct, true)
			}
		}
		r.need(done, "sum-level", c, q.Pos, "which postings are given their place is not decided")
	}
	r.need(done || !must || s.level == nil, "sum-level", c, q.Pos, "the postings of the transaction are not given their place among the groups")
}

// checkZeros: each transaction gets a posting of zero for every account and currency it lacks
func (s *summary) checkZeros() {
	r, f := s.r, s.add
	c := shortFn(f)
	less := lookup("book.Posting.isLess")
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g != nil && g == less {
			return MPure
		}
		return MInline
	}})
	posts := param(f, 0)
	n := 0
	for _, p := range e.returns() {
		n++
		list := p.Results[0]
		// the loop that adds to the postings
		var m *Loop
		var v *Term
		for _, l := range p.loopsOn() {
			for _, x := range l.Vars {
				if isPostList(x.Typ) && l.Entry[x] == posts {
					m, v = l, x
				}
			}
		}
		if !r.need(m != nil && v == list, "sum-zero", c, p.Pos, "the postings given are not only added to: %v", list) {
			continue
		}
		// the accounts and currencies
		var want *Term
		for _, x := range p.loopsOn() {
			if x == m {
				break
			}
			for _, y := range x.Vars {
				if et := elemType(y.Typ); et != nil && p.builtFrom(y, posts) != nil {
					want = y
				}
			}
		}
		if !r.need(want != nil, "sum-zero", c, p.Pos, "the accounts and currencies are not those of all postings") {
			continue
		}
		ls := p.builtFrom(want, posts)
		for b, el := range ls.elems {
			acct, ccy := ls.sc.field(b, "acct"), ls.sc.field(b, "ccy")
			if el == nil {
				ok := false
				for _, ft := range b.Facts() {
					k := keyIn(ft.Cond)
					ok = ok || ft.Val && k != nil && pairOf(k, acct, ccy)
				}
				r.need(ok, "sum-zero", c, b.Pos, "an account and currency may be left out")
				for _, w := range b.writesSince(ls.sc.l.IterMem) {
					r.need(w.addr.Op != OMapEnt && w.addr.Op != OMapHas, "sum-zero", c, b.Pos, "an account and currency is taken as listed that isn't")
				}
				continue
			}
			r.need(pairOf(el, acct, ccy), "sum-zero", c, b.Pos, "the account and currency listed are not those of the posting: %v", el)
			once := false
			for _, ft := range b.Facts() {
				if k := keyIn(ft.Cond); k != nil && !ft.Val && pairOf(k, acct, ccy) {
					for _, w := range b.writesSince(ls.sc.l.IterMem) {
						once = once || w.addr.Op == OMapHas && w.val.isTrue() && w.addr.Args[0] == setIn(ft.Cond) && w.addr.Args[1] == k
					}
				}
			}
			r.need(once, "sum-zero", c, b.Pos, "an account and currency may be listed twice")
		}
		sorted := false
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && ev.Loop == m {
				break
			}
			if ev.Kind == "call" && sortEv(ev) && len(ev.Args) > 1 {
				a := ev.Args[0]
				if a.Op == OIface {
					a = a.Args[0]
				}
				if a == want {
					sorted = true
					s.pairOrder(ev, want, f)
				}
			}
		}
		r.need(sorted, "sum-zero", c, p.Pos, "the accounts and currencies are not in the order of the postings")
		s.zeros(p, f, m, v, posts, want)
		again := false
		for _, ev := range p.Events() {
			if ev.Kind == "call" && sortEv(ev) && len(ev.Args) > 1 && (ev.Args[0] == list || ev.Args[0].Op == OIface && ev.Args[0].Args[0] == list) {
				checkSort(r, "sum-zero", f, ev, tPosting, postOrder)
				again = true
			}
		}
		r.need(again, "sum-zero", c, p.Pos, "the postings are not put in order again")
	}
	r.need(n > 0, "sum-zero", c, f.Pos(), "never completes")
}

// keyIn, setIn: the key asked for in a set made here
func keyIn(x *Term) *Term {
	switch {
	case isLoad(x) && (x.Args[0].Op == OMapEnt || x.Args[0].Op == OMapHas) && isNew(x.Args[0].Args[0]):
		return x.Args[0].Args[1]
	case x.Op == OMapHas && isNew(x.Args[0]):
		return x.Args[1]
	}
	return nil
}
func setIn(x *Term) *Term {
	if isLoad(x) {
		x = x.Args[0]
	}
	return x.Args[0]
}

// pairOf: the element is just the account and the currency
func pairOf(el, acct, ccy *Term) bool {
	st, ok := el.Typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return false
	}
	a, b := mkField(el, 0, st.Field(0).Type()), mkField(el, 1, st.Field(1).Type())
	return a == acct && b == ccy || a == ccy && b == acct
}

// pairOrder: by account, then currency
func (s *summary) pairOrder(ev *Event, list *Term, f *ssa.Function) {
	r := s.r
	cl := ev.Args[1]
	if !r.need(cl.Op == OClosure && cl.Fn != nil && len(cl.Fn.Params) == 2 && strings.HasPrefix(ev.Name, "sort.Slice"), "sum-zero", shortFn(f), ev.Pos, "the order of the accounts is not known") {
		return
	}
	e := AnalyseFrom(cl.Fn, nil, cl.Args, ev.Mem, nil, Config{})
	r.took(e, cl.Fn)
	et := elemType(list.Typ)
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		return
	}
	at := func(i *Term) func(p *Path, n string) *Term {
		return func(p *Path, n string) *Term {
			k := s.pairField(list, n)
			return p.LoadAt(ev.Mem, fldAddr(idxAddr(list, i, et), et, k), st.Field(k).Type())
		}
	}
	lexOrder(r, "sum-zero", shortFn(f), ev.Pos, e, at(param(cl.Fn, 0)), at(param(cl.Fn, 1)), "", []string{"acct", "ccy"})
}

// pairField: which part of the listed pairs is the account, which the currency
func (s *summary) pairField(list *Term, n string) int {
	for _, b := range list.Loop.Backs {
		nx := b.Next[list]
		if nx.Op != OAppend || len(nx.Args) != 2 {
			continue
		}
		st := nx.Args[1].Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if fieldOf(mkField(nx.Args[1], i, st.Field(i).Type())) == n {
				return i
			}
		}
	}
	return 0
}

// zeros: the loop that adds what is missing
func (s *summary) zeros(p *Path, f *ssa.Function, m *Loop, v, posts, want *Term) {
	r, c := s.r, shortFn(f)
	// the places: in the postings, in the accounts, and where the transaction starts
	var post, scan, start *Term
	for _, x := range m.Vars {
		if !isIntT(x.Typ) || m.Entry[x] != cInt(0) {
			continue
		}
		back, one := false, false
		for _, b := range m.Backs {
			switch nx := b.Next[x]; {
			case nx == nAdd(x, cInt(1)):
				one = true
			case nx != x:
				back = true
			}
		}
		switch {
		case one && back:
			scan = x
		case one:
			post = x
		case back:
			start = x
		}
	}
	if !r.need(post != nil && scan != nil && start != nil, "sum-zero", c, p.Pos, "how the postings are gone over is not known") {
		return
	}
	et := elemType(want.Typ)
	st := et.Underlying().(*types.Struct)
	wantF := func(q *Path, n string) *Term {
		k := s.pairField(want, n)
		return q.LoadAt(m.IterMem, fldAddr(idxAddr(want, scan, et), et, k), st.Field(k).Type())
	}
	str := types.Typ[types.String]
	left := func(q *Path) bool { return q.Holds(cmp0("<", nSub(post, mkLen(posts)))) }
	more := cmp0("<", nSub(scan, mkLen(want)))
	added := 0
	for _, b := range m.Backs {
		el := func(at *Term, n string) *Term { return elemF(b, m.IterMem, v, at, n) }
		sameT, otherT := true, false
		for _, fd := range []string{"date", "payee"} {
			sameT = sameT && b.same(el(post, fd), el(start, fd), fldT(tPosting, fd))
			otherT = otherT || b.differ(el(post, fd), el(start, fd), fldT(tPosting, fd))
		}
		hit := b.same(el(post, "acct"), wantF(b, "acct"), str) && b.same(el(post, "ccy"), wantF(b, "ccy"), str)
		miss := b.differ(el(post, "acct"), wantF(b, "acct"), str) || b.differ(el(post, "ccy"), wantF(b, "ccy"), str)
		nx := b.Next[v]
		if nx != v {
			added++
			if !r.need(nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == v, "sum-zero", c, b.Pos, "the postings are changed otherwise: %v", nx) {
				continue
			}
			g := nx.Args[1]
			for _, fd := range []string{"date", "payee", "tnote"} {
				r.need(getF(g, tPosting, fd) == el(start, fd), "sum-zero", c+" "+fd, b.Pos, "the %s of the posting added is not that of the transaction", fd)
			}
			for _, fd := range []string{"acct", "ccy"} {
				r.need(getF(g, tPosting, fd) == wantF(b, fd), "sum-zero", c+" "+fd, b.Pos, "the %s of the posting added is not the one missing", fd)
			}
			for _, fd := range []string{"val", "bal"} {
				x := getF(g, tPosting, fd)
				r.need(b.Load(numLoc(x), nil) == cInt(0) && isNew(x), "sum-zero", c+" "+fd, b.Pos, "the posting added is not of zero")
			}
			r.need(getF(g, tPosting, "val") != getF(g, tPosting, "bal"), "sum-zero", c, b.Pos, "the amount and balance of the posting added are one number")
			r.need(b.Holds(more), "sum-zero", c, b.Pos, "there may be no account missing")
			r.need(otherT || miss || b.Not(cmp0("<", nSub(post, mkLen(posts)))), "sum-zero", c, b.Pos, "the account may be there already")
			r.need(b.Next[scan] == nAdd(scan, cInt(1)) && b.Next[post] == post && b.Next[start] == start, "sum-zero", c, b.Pos, "after adding a posting it does not go on with the next account")
			continue
		}
		switch {
		case b.Next[scan] == scan:
			r.need(b.Next[post] == post && b.Next[start] == start, "sum-zero", c, b.Pos, "a posting is passed over")
		case b.Next[scan] == nAdd(scan, cInt(1)):
			r.need(left(b) && sameT && hit, "sum-zero", c, b.Pos, "an account is taken to be there that may not be")
			r.need(b.Next[post] == nAdd(post, cInt(1)) && b.Next[start] == start, "sum-zero", c, b.Pos, "the posting that is there is not passed")
		default:
			r.need(b.Not(more), "sum-zero", c, b.Pos, "a transaction is left before all accounts are there")
			r.need(b.Next[scan] == cInt(0) && b.Next[start] == post && b.Next[post] == post && otherT, "sum-zero", c, b.Pos, "the next transaction is not gone through from its first posting")
		}
		for _, w := range b.writesSince(m.IterMem) {
			r.need(isNew(rootObj(w.addr)) || !(w.addr.Op == OFld && isFieldAddr(w.addr, tPosting)), "sum-zero", c, b.Pos, "a posting is changed")
		}
	}
	r.need(added > 0, "sum-zero", c, p.Pos, "nothing is ever added")
	r.need(p.Not(more) && p.Holds(cmp0("=", nSub(post, mkLen(posts)))) || p.Not(more) && p.Not(cmp0("<", nSub(post, mkLen(posts)))), "sum-zero", c, p.Pos, "it may end before the last transaction has all accounts")
}

// checkPrefix: what two accounts have in common ends where a part of the name ends
func (s *summary) checkPrefix() {
	r, f := s.r, s.prefix
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	left, right, div := param(f, 0), param(f, 1), param(f, 2)
	n := 0
	for _, p := range e.returns() {
		// the place up to which the two agree
		var i, kept *Term
		var l *Loop
		for _, x := range p.loopsOn() {
			for _, v := range x.Vars {
				if isIntT(v.Typ) && x.Entry[v] == cInt(0) && len(x.Backs) > 0 {
					up := true
					for _, b := range x.Backs {
						up = up && b.Next[v] == nAdd(v, cInt(1))
					}
					if up {
						i, l = v, x
					} else {
						kept = v
					}
				}
			}
		}
		if i == nil && p.Results[0] == cStr("") {
			continue
		}
		if !r.need(i != nil && len(p.Results) == 1, "sum-prefix", c, p.Pos, "how the two are compared is not known") {
			continue
		}
		at := func(q *Path, of *Term) int {
			for _, ft := range q.Facts() {
				x := ft.Cond
				if x.Op == OCall && x.Aux == "strings.HasPrefix" && x.Args[1] == div && x.Args[0].Op == OSlice && x.Args[0].Args[0] == of && x.Args[0].Args[1] == i {
					if ft.Val {
						return 1
					}
					return -1
				}
			}
			return 0
		}
		eq := func(q *Path, of *Term) bool { return q.Holds(cmp0("=", nSub(i, mkLen(of)))) }
		// the place is never past the end, as each step is from before it
		past := func(of *Term) bool {
			return p.Not(cmp0("<", nSub(i, mkLen(of)))) && p.Not(cmp0("=", nSub(i, mkLen(of))))
		}
		if past(left) || past(right) {
			n++
			continue
		}
		res := p.Results[0]
		n++
		// whether the component ends there: 1 yes, -1 no
		stop := func(of *Term) int {
			switch k := at(p, of); {
			case eq(p, of) || p.Not(cmp0("<", nSub(i, mkLen(of)))):
				return 1
			case k != 0:
				return k
			}
			return 0
		}
		ends, goes := stop(left) == 1 && stop(right) == 1, stop(left) == -1 || stop(right) == -1
		switch {
		case res.Op == OSlice && (res.Args[0] == left || res.Args[0] == right) && res.Args[1] == cInt(0) && res.Args[2] == i:
			r.need(ends, "sum-prefix", c, p.Pos, "what they have in common may end within a part of the name")
		case res.Op == OSlice && (res.Args[0] == left || res.Args[0] == right) && res.Args[1] == cInt(0) && kept != nil && res.Args[2] == kept:
			r.need(goes, "sum-prefix", c, p.Pos, "a shorter account is given than the two may have in common")
		default:
			r.need(false, "sum-prefix", c, p.Pos, "what is given is not the start of an account: %v", res)
		}
		for _, b := range l.Backs {
			g := func(of *Term) bool { return b.Holds(cmp0("<", nSub(i, mkLen(of)))) }
			same := false
			for _, ft := range b.Facts() {
				x := ft.Cond
				same = same || ft.Val && x.any(func(y *Term) bool { return y == left }) && x.any(func(y *Term) bool { return y == right }) && x.Op == OCmp
			}
			r.need(g(left) && g(right) && same, "sum-prefix", c, b.Pos, "it goes on where the accounts may differ")
			if kept != nil {
				switch b.Next[kept] {
				case i:
					r.need(at(b, left) == 1 && at(b, right) == 1, "sum-prefix", c, b.Pos, "the end of a part of the name is noted where there may be none")
				case kept:
					r.need(at(b, left) == -1 || at(b, right) == -1, "sum-prefix", c, b.Pos, "the end of a part of the name is passed over")
				default:
					r.need(false, "sum-prefix", c, b.Pos, "the end of a part of the name is noted elsewhere: %v", b.Next[kept])
				}
			}
		}
	}
	r.need(n > 0, "sum-prefix", c, f.Pos(), "never finds anything")
}

// checkLevel: the name of an account starts after the last group it is under, its level is how
// many those are
func (s *summary) checkLevel() {
	r, f := s.r, s.level
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	groups, acct, self, div := param(f, 0), param(f, 1), param(f, 2), param(f, 3)
	has := func(q *Path, key *Term) int {
		for _, ft := range q.Facts() {
			x := ft.Cond
			if isLoad(x) {
				x = x.Args[0]
			}
			if (x.Op == OMapHas || x.Op == OMapEnt) && x.Args[0] == groups && x.Args[1] == key {
				if ft.Val {
					return 1
				}
				return -1
			}
		}
		return 0
	}
	end := mkLen(acct)
	n := 0
	for _, p := range e.returns() {
		if !r.need(len(p.Results) == 2, "sum-level", c, p.Pos, "the level and the name are not given") {
			continue
		}
		n++
		var l *Loop
		var i, last *Term
		for _, x := range p.loopsOn() {
			for _, v := range x.Vars {
				if !isIntT(v.Typ) || x.Entry[v] != cInt(0) || len(x.Backs) == 0 {
					continue
				}
				up, jumps := true, false
				for _, b := range x.Backs {
					up = up && b.Next[v] == nAdd(v, cInt(1))
					jumps = jumps || b.Next[v] != v && b.Next[v] != nAdd(v, cInt(1))
				}
				if up {
					i, l = v, x
				} else if jumps {
					last = v
				}
			}
		}
		if !r.need(i != nil && last != nil, "sum-level", c, p.Pos, "how the account is gone through is not known") {
			continue
		}
		r.need(p.Holds(cmp0("=", nSub(i, end))) || p.Holds(bNot(cmp0("<", nSub(i, end)))), "sum-level", c, p.Pos, "the account is not gone through to its end")
		// what counts the groups
		size := func(v *Term) *Term {
			if isIntT(v.Typ) {
				return v
			}
			return mkLen(v)
		}
		var cnt *Term
		for _, v := range l.Vars {
			if v == i || v == last || elemType(v.Typ) == nil && !isIntT(v.Typ) {
				continue
			}
			if p.Results[0].any(func(y *Term) bool { return y == v }) {
				cnt = v
			}
		}
		if !r.need(cnt != nil, "sum-level", c, p.Pos, "the groups are not counted: %v", p.Results[0]) {
			continue
		}
		own := p.Holds(self) && has(p, acct) == 1
		none := p.Not(self) || has(p, acct) == -1
		r.need(own || none, "sum-level", c, p.Pos, "whether the account is a group itself is not asked")
		lvl := nAdd(nSub(size(cnt), size(l.Entry[cnt])), cInt(0))
		from := last
		if own {
			lvl = nAdd(lvl, cInt(1))
			from = end
		}
		r.need(p.Results[0] == lvl || p.Holds(cmp0("=", nSub(p.Results[0], lvl))), "sum-level", c, p.Pos, "the level is not the number of groups above: %v", p.Results[0])
		t := p.Results[1]
		ok := t.Op == OSlice && t.Args[0] == acct && t.Args[2] == end && (t.Args[1] == from || p.Holds(cmp0("=", nSub(t.Args[1], from))))
		r.need(ok || own && t == cStr(""), "sum-level", c, p.Pos, "the name is not the rest of the account: %v", t)
		for _, b := range l.Backs {
			d := 0
			for _, ft := range b.Facts() {
				x := ft.Cond
				if x.Op == OCall && x.Aux == "strings.HasPrefix" && x.Args[1] == div && x.Args[0].Op == OSlice && x.Args[0].Args[0] == acct && x.Args[0].Args[1] == i {
					if d = -1; ft.Val {
						d = 1
					}
				}
			}
			g := has(b, T.mk(OSlice, "", types.Typ[types.String], acct, cInt(0), i))
			if g == 0 {
				for _, ft := range b.Facts() {
					ft.Cond.any(func(y *Term) bool {
						if y.Op == OSlice && y.Args[0] == acct && y.Args[1] == cInt(0) && y.Args[2] == i {
							g = has(b, y)
						}
						return false
					})
				}
			}
			more := nSub(size(b.Next[cnt]), size(cnt))
			switch {
			case d == 1 && g == 1:
				r.need(b.Next[last] == nAdd(i, mkLen(div)) && more == cInt(1), "sum-level", c, b.Pos, "the name does not start after the group")
			case d == -1 || g == -1:
				r.need(b.Next[last] == last && more == cInt(0), "sum-level", c, b.Pos, "the name starts elsewhere than after a group")
			default:
				r.need(false, "sum-level", c, b.Pos, "whether the account is under a group is not asked")
			}
		}
	}
	r.need(n > 0, "sum-level", c, f.Pos(), "never completes")
}
