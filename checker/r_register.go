package main

// Registers: the entries of the accounts asked for, and their balances.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const tEntry = "book.RegistryEntry"

type register struct {
	r                     *Report
	f, infer, price       *ssa.Function
	book, base, re, split *Term
	c                     string
	n                     int
}

// checkRegister: C35
func checkRegister(r *Report) {
	f := r.fn("book.Book.ExtractRegister")
	if f == nil {
		return
	}
	g := &register{r: r, f: f, c: shortFn(f), infer: lookup("book.Transaction.InferRate"), price: lookup("book.Book.GetPrice"),
		book: param(f, 0), base: param(f, 1), re: param(f, 2), split: param(f, 3)}
	compact := lookup(compactEv)
	e := r.runFn(f, nil, Config{Mode: func(h *ssa.Function) Mode {
		switch h {
		case nil:
		case compact:
			return MEvent
		case g.infer, g.price:
			return MPure
		}
		return MInline
	}})
	for _, p := range e.Paths {
		g.kept(p)
	}
	for _, p := range e.returns() {
		g.path(p)
	}
	r.need(g.n > 0, "register-entry", g.c, f.Pos(), "never gives an entry")
	r.atLeast("register-entry", 3)
	r.atLeast("register-counter", 4)
	r.atLeast("register-share", 3)
	r.atLeast("register-balance", 4)
	checkInferRate(r)
	checkShown(r)
}

// kept: nothing is written but what was made on the way
func (g *register) kept(p *Path) {
	for _, w := range p.writesSince(nil) {
		a := w.addr
		if a.Op == ONumLoc {
			a = a.Args[0]
			if isLoad(a) {
				a = a.Args[0]
			}
		}
		x := rootObj(a)
		g.r.need(isNew(x) || made(x, 0), "register-book-kept", g.c, p.Pos, "the postings of the book are changed: %v", w.addr)
	}
}

func (l *Loop) after(t *Term) bool { return isNew(t) && t.Seq > l.Start }

// path: goes over every posting of every transaction
func (g *register) path(p *Path) {
	r, c := g.r, g.c
	grouped := false
	for _, ev := range p.Events() {
		if ev.Kind == "loop" {
			break
		}
		grouped = grouped || ev.Kind == "call" && ev.is(compactEv) && ev.Args[0] == g.book
	}
	r.need(grouped || lookup(compactEv) == nil, "register-all", c, p.Pos, "the book is not brought in order first")
	if !r.need(len(p.Results) == 1 && p.Results[0].Op == OLoopVar && p.Results[0].Loop != nil, "register-entry", c, p.Pos, "the entries are not collected: %v", p.Results) {
		return
	}
	data := p.Results[0]
	l0 := data.Loop
	n, isC := mkLen(l0.Entry[data]).intVal()
	r.need(isC && n == 0, "register-entry", c, p.Pos, "the list of entries does not start empty")
	trans := p.LoadAt(l0.EntryMem, fld(g.book, "book.Book", "trans"), fldT("book.Book", "trans"))
	i, ok := p.idxScan(l0, mkLen(trans))
	if !r.need(ok, "register-all", c, p.Pos, "not every transaction is gone over") {
		return
	}
	for _, b := range l0.Backs {
		d1 := b.Next[data]
		tr := b.LoadAt(l0.IterMem, idxAddr(trans, i, elemType(trans.Typ)), elemType(trans.Typ))
		if !r.need(d1.Op == OLoopVar && d1.Loop != nil && d1.Loop != l0 && d1.Loop.Entry[d1] == data, "register-all", c, b.Pos, "the entries of a transaction are not added: %v", d1) {
			continue
		}
		j, ok := b.idxScan(d1.Loop, mkLen(tr))
		if !r.need(ok, "register-all", c, b.Pos, "not every posting is gone over") {
			continue
		}
		for _, w := range b.writesSince(l0.IterMem) {
			r.need(w.addr.Op != ONumLoc || l0.after(w.addr.Args[0]), "register-balance", c, b.Pos, "a balance changes without an entry: %v", w.addr)
		}
		for _, q := range d1.Loop.Backs {
			g.posting(q, l0, d1, tr, j)
		}
	}
	r.atLeast("register-all", 2)
}

// posting: what one posting gives
func (g *register) posting(q *Path, l0 *Loop, d1, tr, j *Term) {
	r, c, l1 := g.r, g.c, d1.Loop
	el := func(k *Term, fd string) *Term { return elemF(q, l1.IterMem, tr, k, fd) }
	m, _ := matchCond(q, el(j, "acct"), g.re)
	d3 := q.Next[d1]
	for _, w := range q.writesSince(l1.IterMem) {
		r.need(w.addr.Op != ONumLoc || l1.after(w.addr.Args[0]), "register-balance", c, q.Pos, "a balance changes without an entry: %v", w.addr)
	}
	if m == -1 {
		r.need(d3 == d1, "register-match", c, q.Pos, "an entry for an account that was not asked for")
		return
	}
	if !r.need(m == 1, "register-match", c, q.Pos, "whether the account was asked for is not looked at") {
		return
	}
	// the accounts on the other side
	var l2 *Loop
	var accts, amts *Term
	for _, l := range q.innerLoops(l1) {
		var a, v *Term
		for x := range l.Entry {
			if et := elemType(x.Typ); et != nil && isStringT(et) {
				a = x
			} else if et != nil && isRatPtr(et) {
				v = x
			}
		}
		if a != nil && v != nil && l2 == nil {
			l2, accts, amts = l, a, v
		}
	}
	if !r.need(l2 != nil, "register-counter", c, q.Pos, "the accounts on the other side are not collected") {
		return
	}
	sum := g.counter(q, l1, l2, accts, amts, tr, j)
	if d3 == d1 {
		r.need(q.Holds(cmp0("=", mkLen(accts))), "register-match", c, q.Pos, "a posting of an account asked for may give no entry")
		return
	}
	if !r.need(d3.Op == OLoopVar && d3.Loop != nil && d3.Loop.Entry[d3] == d1 && d3.Loop != l1, "register-entry", c, q.Pos, "the entries of a posting are not added: %v", d3) {
		return
	}
	l3 := d3.Loop
	many := cmp0(">", nSub(mkLen(accts), cInt(1)))
	val := q.LoadAt(l1.IterMem, numLoc(el(j, "val")), nil)
	var k *Term
	var ok bool
	switch {
	case q.Holds(many) && q.Not(g.split):
		k, ok = q.idxScan(l3, cInt(1))
		a0 := q.LoadAt(l3.EntryMem, idxAddr(accts, cInt(0), types.Typ[types.String]), types.Typ[types.String])
		want := T.mk(OCall, "strings.Join", types.Typ[types.String], accts, cStr(";"))
		r.need(a0 == want, "register-share", c, q.Pos, "the accounts on the other side are not joined: %v", a0)
		v0 := q.LoadAt(l3.EntryMem, idxAddr(amts, cInt(0), elemType(amts.Typ)), elemType(amts.Typ))
		r.need(l1.after(v0) && q.LoadAt(l3.EntryMem, numLoc(v0), nil) == val, "register-share", c, q.Pos, "the amount is not that of the posting: %v", v0)
	case q.Not(many) || q.Holds(g.split):
		k, ok = q.idxScan(l3, mkLen(accts))
		if !ok {
			k, ok = q.idxScan(l3, mkLen(amts))
		}
		g.share(q, l1, l2, l3, amts, sum, el(j, "val"))
	default:
		r.need(false, "register-share", c, q.Pos, "whether to split is not looked at")
		return
	}
	if !r.need(ok, "register-entry", c, q.Pos, "not every account on the other side has an entry") {
		return
	}
	g.n++
	for _, b := range l3.Backs {
		g.entry(b, q, l0, d1, d3, accts, amts, tr, j, k)
	}
	// the balance when the entries start
	ccy := el(j, "ccy")
	bals := g.balances(q, ccy)
	if !r.need(bals != nil && isNew(bals) && bals.Seq < l0.Start, "register-balance", c, q.Pos, "no balance by currency is kept from the start") {
		return
	}
	T1 := ratPtrT(bals)
	now := q.LoadAt(l3.EntryMem, ent(bals, ccy), T1)
	switch has := q.LoadAt(l1.IterMem, T.mk(OMapHas, "", nil, bals, ccy), boolT()); {
	case q.Holds(has):
		r.need(now == q.LoadAt(l1.IterMem, ent(bals, ccy), T1),
			"register-balance", c, q.Pos, "the balance does not go on from where it was")
	case q.Not(has):
		r.need(l1.after(now) && q.LoadAt(l3.EntryMem, numLoc(now), nil) == cInt(0), "register-balance", c, q.Pos, "the balance of a currency does not start at zero: %v", now)
	default:
		r.need(false, "register-balance", c, q.Pos, "whether the currency has a balance is not asked")
	}
	for _, w := range q.writesSince(l1.IterMem) {
		if a := w.addr; rootObj(a) == bals {
			r.need(a.Args[1] == ccy && (a.Op == OMapEnt || w.val.isTrue()), "register-balance", c, q.Pos, "the balance of another currency changes: %v", a)
		}
	}
}

func ent(m, k *Term) *Term {
	mt, _ := mapOf(m)
	if mt == nil {
		return T.mk(OMapEnt, "", nil, m, k)
	}
	return mapEnt(m, k, mt)
}

func ratPtrT(m *Term) types.Type {
	if mt, _ := mapOf(m); mt != nil {
		return mt.Elem()
	}
	return nil
}

// balances: the map the currency is looked up in
func (g *register) balances(q *Path, ccy *Term) (m *Term) {
	q.anyFact(func(x *Term) bool {
		if x.Op == OMapHas && len(x.Args) == 2 && x.Args[1] == ccy && isNew(x.Args[0]) {
			m = x.Args[0]
		}
		return false
	})
	return
}

// counter: those of the same currency in the other direction, and what they come to
func (g *register) counter(q *Path, l1, l2 *Loop, accts, amts, tr, j *Term) (sum *Term) {
	r, c := g.r, g.c
	t, ok := q.idxScan(l2, mkLen(tr))
	if !r.need(ok, "register-counter", c, q.Pos, "not every posting of the transaction is gone over") {
		return nil
	}
	for _, v := range []*Term{accts, amts} {
		n, isC := mkLen(l2.Entry[v]).intVal()
		r.need(isC && n == 0 && l1.after(rootObj(l2.Entry[v])), "register-counter", c, q.Pos, "the list does not start empty")
	}
	for _, b := range l2.Backs {
		for _, w := range b.writesSince(l2.IterMem) {
			if a := w.addr; a.Op == ONumLoc && l1.after(a.Args[0]) && !l2.after(a.Args[0]) {
				r.need(sum == nil || sum == a.Args[0], "register-counter", c, b.Pos, "more than one sum")
				sum = a.Args[0]
			} else {
				r.need(a.Op != ONumLoc || l2.after(a.Args[0]), "register-counter", c, b.Pos, "something else is changed: %v", a)
			}
		}
	}
	for _, b := range l2.Backs {
		el := func(k *Term, fd string) *Term { return elemF(b, l2.IterMem, tr, k, fd) }
		num := func(k *Term) *Term { return b.LoadAt(l2.IterMem, numLoc(el(k, "val")), nil) }
		one := cmpT("==", el(t, "acct"), el(j, "acct"), types.Typ[types.String])
		dir := cmp0("=", nSub(nSgn(num(t)), nSgn(num(j))))
		ccy := cmpT("==", el(t, "ccy"), el(j, "ccy"), types.Typ[types.String])
		var was, now *Term
		if sum != nil {
			was, now = b.LoadAt(l2.IterMem, numLoc(sum), nil), b.Load(numLoc(sum), nil)
		}
		na, nv := b.Next[accts], b.Next[amts]
		if na == accts {
			r.need(b.Holds(one) || b.Holds(dir) || b.Not(ccy), "register-counter", c, b.Pos, "an account on the other side may be left out")
			r.need(nv == amts && now == was, "register-counter", c, b.Pos, "an amount is taken for an account that is not on the other side")
			continue
		}
		r.need(b.Not(one) && b.Not(dir) && b.Holds(ccy), "register-counter", c, b.Pos, "an account that may not be on the other side is taken")
		r.need(na.Op == OAppend && na.Args[0] == accts && len(na.Args) == 2 && na.Args[1] == el(t, "acct"), "register-counter", c, b.Pos, "what is taken is not the account: %v", na)
		if r.need(nv.Op == OAppend && nv.Args[0] == amts && len(nv.Args) == 2 && l2.after(nv.Args[1]), "register-counter", c, b.Pos, "the amount is not a copy: %v", nv) {
			r.need(b.Load(numLoc(nv.Args[1]), nil) == num(t), "register-counter", c, b.Pos, "the amount is not that of the account")
		}
		r.need(sum != nil && now == nAdd(was, num(t)), "register-counter", c, b.Pos, "the amounts are not summed up: %v", now)
	}
	if sum != nil {
		r.need(q.LoadAt(l2.EntryMem, numLoc(sum), nil) == cInt(0), "register-counter", c, q.Pos, "the sum does not start at zero")
	}
	return sum
}

// share: each has its part of the amount of the posting
func (g *register) share(q *Path, l1, l2, l3 *Loop, amts, sum, valp *Term) {
	r, c := g.r, g.c
	if sum == nil {
		return
	}
	n := 0
	seen := false
	for _, l := range q.innerLoops(l1) {
		if l == l2 || l == l3 {
			seen = seen || l == l3
			continue
		}
		i, ok := q.idxScan(l, mkLen(amts))
		if seen || !ok {
			continue
		}
		for _, b := range l.Backs {
			at := idxAddr(amts, i, elemType(amts.Typ))
			was := b.LoadAt(l.IterMem, at, elemType(amts.Typ))
			now := b.Load(at, elemType(amts.Typ))
			total := b.LoadAt(l2.IterMem, numLoc(sum), nil)
			got := settled(b.Load(numLoc(now), nil), b, l.EntryMem, []*Term{valp, sum})
			want := nMul(nMul(b.LoadAt(l.IterMem, numLoc(was), nil), b.LoadAt(l.EntryMem, numLoc(valp), nil)), nInv(total))
			r.need((now == was || l.after(now)) && got == want, "register-share", c, b.Pos, "the amount is not the posting's in proportion: %v", got)
			n++
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op == ONumLoc {
					r.need(l.after(w.addr.Args[0]) || w.addr.Args[0] == was, "register-share", c, b.Pos, "something else is changed: %v", w.addr)
				}
			}
		}
	}
	r.need(n > 0, "register-share", c, q.Pos, "the amounts are not made those of the posting")
}

// settled: numbers that nothing writes are what they were in the memory given
func settled(v *Term, b *Path, mem *Mem, still []*Term) *Term {
	m := map[*Term]*Term{}
	v.any(func(t *Term) bool {
		if isLoad(t) && t.Args[0].Op == ONumLoc {
			for _, s := range still {
				if t.Args[0].Args[0] == s {
					m[t] = b.LoadAt(mem, numLoc(s), nil)
				}
			}
		}
		return false
	})
	return subst(v, m)
}

// entry: what an entry says
func (g *register) entry(b, q *Path, l0 *Loop, d1, d3, accts, amts, tr, j, k *Term) {
	r, c := g.r, g.c
	l1, l3 := d1.Loop, d3.Loop
	x := b.Next[d3]
	if !r.need(x.Op == OAppend && len(x.Args) == 2 && x.Args[0] == d3 && l3.after(x.Args[1]), "register-entry", c, b.Pos, "an entry is not added: %v", x) {
		return
	}
	x = x.Args[1]
	get := func(n string) *Term { return b.Load(fld(x, tEntry, n), fldT(tEntry, n)) }
	el := func(k *Term, fd string) *Term { return elemF(b, l1.IterMem, tr, k, fd) }
	says := func(n string, want ...*Term) {
		ok := false
		for _, w := range want {
			ok = ok || get(n) == w
		}
		r.need(ok, "register-entry", c+" "+n, b.Pos, "the %s of the entry is not that of the posting: %v", n, get(n))
	}
	says("Date", el(cInt(0), "date"), el(j, "date"))
	says("Payee", el(cInt(0), "payee"), el(j, "payee"))
	says("Account", el(j, "acct"))
	says("CCY", el(j, "ccy"))
	says("Note", el(j, "note"))
	says("TNote", el(j, "tnote"))
	says("BaseCCY", g.base)
	says("CounterAccount", b.LoadAt(l3.IterMem, idxAddr(accts, k, types.Typ[types.String]), types.Typ[types.String]))
	amt := b.LoadAt(l3.IterMem, idxAddr(amts, k, elemType(amts.Typ)), elemType(amts.Typ))
	A := b.LoadAt(l3.IterMem, numLoc(amt), nil)
	says("Amount", amt)
	ccy := el(j, "ccy")
	// amounts and prices stay what they are: nothing but balances is written (see below)
	var still []*Term
	still = append(still, amt)
	norm := func(v *Term) *Term { return settled(v, b, l3.IterMem, still) }
	// in the currency of the report
	same := cmpT("==", ccy, g.base, types.Typ[types.String])
	ba := get("BaseAmount")
	bn := A
	src := get("BaseSource")
	switch {
	case b.Holds(same):
		r.need(src == constOf("book", "PriceTypeExact"), "register-base", c, b.Pos, "the source of the amount in the base currency is wrong: %v", src)
	case b.Not(same):
		var rate *Term
		inf := T.mk(OCall, callName(g.infer), g.infer.Signature.Results().At(0).Type(), tr, g.base, ccy)
		if b.notNil(inf) {
			rate = inf
			r.need(src == constOf("book", "PriceTypeTrade"), "register-base", c, b.Pos, "the source of the price of the transaction is wrong: %v", src)
		} else if r.need(b.isNil(inf), "register-base", c, b.Pos, "the price of the transaction itself is not asked for") {
			if rate = priceOf(b, g.book, el(cInt(0), "date"), ccy, g.base); rate == nil {
				rate = priceOf(b, g.book, el(j, "date"), ccy, g.base)
			}
			if rate != nil {
				r.need(src.Op == OCall && src.Aux == callName(g.price)+".1" && same4(src, rate), "register-base", c, b.Pos, "the source of the price is wrong: %v", src)
			}
		}
		if !r.need(rate != nil, "register-base", c, b.Pos, "the price of that day is not looked up") {
			return
		}
		still = append(still, rate)
		bn = nMul(A, b.LoadAt(l3.IterMem, numLoc(rate), nil))
	default:
		r.need(false, "register-base", c, b.Pos, "whether the currency is another is not asked")
		return
	}
	r.need((l3.after(ba) || ba == amt && bn == A) && norm(b.Load(numLoc(ba), nil)) == bn, "register-base", c, b.Pos, "the amount in the base currency is wrong: %v", b.Load(numLoc(ba), nil))
	// balances
	bals := g.balances(q, ccy)
	if bals == nil {
		return
	}
	T1 := ratPtrT(bals)
	p0, p1 := b.LoadAt(l3.IterMem, ent(bals, ccy), T1), b.Load(ent(bals, ccy), T1)
	now := b.Load(numLoc(p1), nil)
	r.need(norm(now) == nAdd(b.LoadAt(l3.IterMem, numLoc(p0), nil), A), "register-balance", c, b.Pos, "the balance is not the one before and the amount: %v", now)
	snap := get("Balance")
	r.need(l3.after(snap) && snap != p1 && snap != ba && norm(b.Load(numLoc(snap), nil)) == norm(now), "register-balance", c, b.Pos, "the balance shown is not the balance at that entry: %v", snap)
	bsnap := get("BaseBalance")
	var total *Term
	for _, w := range b.writesSince(l3.IterMem) {
		if a := w.addr; a.Op == ONumLoc && isNew(a.Args[0]) && a.Args[0].Seq < l0.Start {
			r.need(total == nil || total == a.Args[0], "register-balance", c, b.Pos, "more than one total")
			total = a.Args[0]
		}
	}
	if r.need(total != nil && total != p0, "register-base-balance", c, b.Pos, "no balance in the base currency is kept") {
		r.need(q.LoadAt(l0.EntryMem, numLoc(total), nil) == cInt(0), "register-base-balance", c, b.Pos, "the balance does not start at zero")
		after := norm(b.Load(numLoc(total), nil))
		r.need(after == nAdd(b.LoadAt(l3.IterMem, numLoc(total), nil), bn), "register-base-balance", c, b.Pos, "the balance is not the one before and the amount: %v", after)
		r.need(l3.after(bsnap) && bsnap != snap && bsnap != ba && norm(b.Load(numLoc(bsnap), nil)) == after, "register-base-balance", c, b.Pos, "the balance shown is not the balance at that entry: %v", bsnap)
	}
	// nothing but what was made for the entry and the balances is written
	for _, w := range b.writesSince(l3.IterMem) {
		a := w.addr
		x := rootObj(a)
		if a.Op == ONumLoc {
			x = a.Args[0]
		}
		r.need(l3.after(x) || x == total || x == p0 || x == p1 || x == bals && a.Args[1] == ccy, "register-balance", c, b.Pos, "something else is changed: %v", a)
	}
}

func same4(a, b *Term) bool {
	if len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	return true
}

// checkInferRate: the price a transaction itself tells is that of two amounts of one account,
// in opposite directions
func checkInferRate(r *Report) {
	f := r.fn("book.Transaction.InferRate")
	if f == nil {
		return
	}
	c := shortFn(f)
	tr, base, unit := param(f, 0), param(f, 1), param(f, 2)
	e := r.runFn(f, nil, Config{})
	str := types.Typ[types.String]
	var l *Loop
	for _, p := range e.Paths {
		for _, x := range p.loopsOn() {
			l = x
		}
	}
	if !r.need(l != nil, "register-price", c, f.Pos(), "the postings are not gone over") {
		return
	}
	// where in the transaction, and where the postings of the account start
	var i, last *Term
	for v := range l.Entry {
		if !isIntT(v.Typ) {
			continue
		}
		all := true
		for _, b := range l.Backs {
			all = all && b.Next[v] == nAdd(v, cInt(1))
		}
		if all {
			i = v
		} else {
			last = v
		}
	}
	if !r.need(i != nil && last != nil && l.Entry[i] == cInt(0), "register-price", c, f.Pos(), "the postings are not gone over one by one") {
		return
	}
	n, isC := l.Entry[last].intVal()
	r.need(isC && n <= 0, "register-price", c, f.Pos(), "the first account does not start with the first posting")
	two := cmp0("=", nSub(nSub(i, last), cInt(2)))
	x, y := nSub(i, cInt(1)), nSub(i, cInt(2))
	el := func(p *Path, k *Term, fd string) *Term { return elemF(p, nil, tr, k, fd) }
	num := func(p *Path, k *Term) *Term { return p.LoadAt(nil, numLoc(el(p, k, "val")), nil) }
	opp := func(p *Path) *Term { return cmp0("=", nAdd(nSgn(num(p, x)), nSgn(num(p, y)))) }
	is := func(p *Path, k, c *Term) *Term { return cmpT("==", el(p, k, "ccy"), c, str) }
	none := func(p *Path) bool {
		xb, yb, xu, yu := is(p, x, base), is(p, y, base), is(p, x, unit), is(p, y, unit)
		// two of one of the pairs, and base is unit, so the other two
		odd := func(a, b *Term) bool { return p.Holds(a) && p.Not(b) }
		one := p.Not(xb) || p.Not(yu) || odd(xu, yb) || odd(yb, xu)
		two2 := p.Not(xu) || p.Not(yb) || odd(xb, yu) || odd(yu, xb)
		return p.Not(two) || p.Not(opp(p)) || one && two2
	}
	for _, b := range l.Backs {
		r.need(none(b), "register-price", c, b.Pos, "a price may be passed over")
		acct := func(k *Term) *Term { return el(b, k, "acct") }
		switch nx := b.Next[last]; nx {
		case i:
			r.need(b.Holds(cmp0("=", nAdd(last, cInt(1)))) || b.Holds(cmp0("<", last)) || b.Not(cmpT("==", acct(last), acct(i), str)), "register-price", c, b.Pos, "the postings of an account may be divided")
		case last:
			r.need(b.Holds(cmpT("==", acct(last), acct(i), str)), "register-price", c, b.Pos, "the postings of different accounts may be taken together")
		default:
			r.need(false, "register-price", c, b.Pos, "where the account starts is not known: %v", nx)
		}
	}
	rates := 0
	for _, p := range e.returns() {
		v := p.Results[0]
		if v.isNil() {
			r.need(none(p) && p.Holds(bNot(cmp0("<", nSub(i, mkLen(tr))))) || p.Holds(cmp0("=", mkLen(tr))), "register-price", c, p.Pos, "not every posting is looked at")
			continue
		}
		rates++
		r.need(p.Holds(two) && p.Holds(opp(p)), "register-price", c, p.Pos, "the price may not be of two amounts of an account in opposite directions")
		got := p.Load(numLoc(v), nil)
		switch {
		case p.Holds(is(p, x, base)) && p.Holds(is(p, y, unit)):
			r.need(isNew(v) && got == nNeg(nMul(num(p, x), nInv(num(p, y)))), "register-price", c, p.Pos, "the price is wrong: %v", got)
		case p.Holds(is(p, y, base)) && p.Holds(is(p, x, unit)):
			r.need(isNew(v) && got == nNeg(nMul(num(p, y), nInv(num(p, x)))), "register-price", c, p.Pos, "the price is wrong: %v", got)
		default:
			r.need(false, "register-price", c, p.Pos, "the price may be of other currencies")
		}
	}
	r.need(rates >= 2, "register-price", c, f.Pos(), "%d ways to a price", rates)
	r.atLeast("register-price", 6)
}

// checkShown: a count shows the first or the last entries, and descending turns them around
func checkShown(r *Report) {
	f := r.fn("cmd/register.ShowReport")
	if f == nil {
		return
	}
	c := shortFn(f)
	list, count, asc := param(f, 1), param(f, 3), param(f, 4)
	e := r.runFn(f, nil, Config{Mode: func(h *ssa.Function) Mode {
		if relPkg(pkgOf(h)) == "cmd/register" && (h.Parent() != nil || !token.IsExported(h.Name())) {
			return MInline
		}
		return MEvent
	}})
	n := 0
	for _, p := range e.returns() {
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Fn == nil || len(ev.Args) < 2 {
				continue
			}
			x := ev.Args[1]
			if x.Op == OIface {
				x = x.Args[0]
			}
			if elemType(x.Typ) == nil || !types.Identical(elemType(x.Typ), elemType(list.Typ)) {
				continue
			}
			n++
			N := mkLen(list)
			lo, hi := cInt(0), N
			switch {
			case p.Holds(cmp0(">", count)) && p.Holds(cmp0(">", nSub(N, count))):
				hi = count
			case p.Holds(cmp0("<", count)) && p.Holds(cmp0(">", nAdd(N, count))):
				lo = nAdd(N, count)
			default:
				whole := p.Holds(bNot(cmp0(">", nSub(N, count)))) || p.Holds(bNot(cmp0(">", nAdd(N, count)))) || p.Holds(cmp0("=", count)) || p.Holds(bNot(cmp0(">", count))) && p.Holds(bNot(cmp0("<", count)))
				r.need(whole, "register-shown", c, ev.Pos, "how many are shown is not decided")
			}
			win := func(v *Term) bool {
				if v == list {
					return lo == cInt(0) && hi == N
				}
				return v.Op == OSlice && v.Args[0] == list && v.Args[1] == lo && (v.Args[2] == hi)
			}
			if p.Holds(asc) {
				r.need(win(x), "register-shown", c, ev.Pos, "not the entries asked for are shown: %v", x)
				continue
			}
			if !r.need(p.Not(asc), "register-shown", c, ev.Pos, "whether to turn around is not looked at") {
				continue
			}
			size := nSub(hi, lo)
			if x.Op == OLoopVar && x.Loop != nil {
				l, T := x.Loop, elemType(list.Typ)
				i, ok := p.idxScan(l, size)
				n, isC := mkLen(l.Entry[x]).intVal()
				ok = ok && isC && n == 0
				if ok {
					k := i
					if (&scan{l, list, i, nil}).forward() {
						k = nSub(nSub(size, cInt(1)), i)
					}
					for _, b := range l.Backs {
						nx := b.Next[x]
						ok = ok && nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == x && nx.Args[1] == b.LoadAt(l.IterMem, idxAddr(list, nAdd(lo, k), T), T)
					}
				}
				r.need(ok, "register-shown", c, ev.Pos, "the entries are not turned around: %v", x)
				continue
			}
			if !r.need(isNew(baseSlice(x)) && (mkLen(x) == size || p.Holds(cmp0("=", nSub(mkLen(x), size)))), "register-shown", c, ev.Pos, "the number of entries changes: %v", x) {
				continue
			}
			turned := false
			for _, l := range p.loopsOn() {
				i, ok := p.idxScan(l, size)
				if !ok {
					continue
				}
				turned = true
				T := elemType(list.Typ)
				for _, b := range l.Backs {
					put := false
					for _, w := range b.writesSince(l.IterMem) {
						if rootObj(w.addr) != baseSlice(x) {
							continue
						}
						for _, k := range []*Term{i, nSub(nSub(size, cInt(1)), i)} {
							to := nSub(nSub(size, cInt(1)), k)
							if w.addr == idxAddr(x, to, T) && w.val == b.LoadAt(l.IterMem, idxAddr(list, nAdd(lo, k), T), T) {
								put = true
							}
						}
					}
					turned = turned && put
				}
			}
			r.need(turned, "register-shown", c, ev.Pos, "the entries are not turned around: %v", x)
		}
	}
	r.need(n > 0, "register-shown", c, f.Pos(), "nothing is shown")
	r.atLeast("register-shown", 6)
}
