package main

// Reclassification: other accounts for imported postings, by what was done before.

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bestOf: on p, loop l goes over all of map m and keeps the entry that is best: of the greatest
// number above zero, and among those with the first key. Gives the variables that hold the number
// and the key, and the one that holds what pay gives for it.
func bestOf(r *Report, rule, c string, p *Path, m *Term, num, pay func(b *Path, key *Term) *Term) (best, who, what *Term) {
	for _, l := range p.loopsOn() {
		key, ok := p.mapScan(l, m)
		if !ok {
			continue
		}
		var cb, cw, cp *carrier
		for _, v := range l.carriers() {
			v := v
			kept := false
			for _, b := range l.Backs {
				kept = kept || v.next(b) == v.v
			}
			if !kept { // as a variable of the loop, which every iteration sets
				continue
			}
			for _, b := range l.Backs {
				n := num(b, key)
				switch nx := v.next(b); {
				case nx == v.v:
				case n != nil && nx == n:
					cb = &v
				case nx == key:
					cw = &v
				case pay != nil && nx == pay(b, key):
					cp = &v
				}
			}
		}
		if !r.need(cb != nil && cw != nil && (pay == nil || cp != nil), rule, c, p.Pos, "the best is not kept with its name") {
			return nil, nil, nil
		}
		best, who = cb.v, cw.v
		if cp != nil {
			what = cp.v
		}
		k, isC := polyOf(cb.entry).constant()
		r.need(isC && k.Sign() == 0, rule, c, p.Pos, "the best does not start at nothing: %v", cb.entry)
		for _, b := range l.Backs {
			n := num(b, key)
			if !r.need(n != nil, rule, c, b.Pos, "an entry is not looked at") {
				continue
			}
			more := cmp0(">", nSub(n, best))
			tie := cmp0("=", nSub(n, best))
			first := cmpT("<", key, who, types.Typ[types.String])
			nb, nw := cb.next(b), cw.next(b)
			taken := nb == n && nw == key && (what == nil || cp.next(b) == pay(b, key))
			left := nb == best && nw == who && (what == nil || cp.next(b) == what)
			switch {
			case taken && !left:
				r.need(b.Holds(more) || b.Holds(tie) && b.Holds(first), rule, c, b.Pos, "one that is not better is taken")
			case left && !taken:
				r.need(b.Not(more) && (b.Not(tie) || b.Not(first)), rule, c, b.Pos, "one that is better may be left out, so the result depends on the order of a map")
			default:
				r.need(false, rule, c, b.Pos, "what is kept of the best does not belong together")
			}
		}
		return
	}
	r.need(false, rule, c, p.Pos, "the entries are not all gone over")
	return
}

// outward: without what was made in an iteration of the loop, but maps
func outward(ws []*Mem, l *Loop) (r []*Mem) {
	for _, w := range ws {
		if x := rootObj(w.addr); x.Op == OAlloc && (l.after(x) || strings.HasPrefix(x.Aux, "local_") || strings.HasPrefix(x.Aux, "kept_")) {
			continue
		}
		r = append(r, w)
	}
	return
}

// checkReclassify: C34
func checkReclassify(r *Report) {
	f := r.fn("book.Book.ReclassifyByAccount")
	if f == nil {
		return
	}
	c := shortFn(f)
	compact := lookup(compactEv)
	b, ref, acct, dist := param(f, 0), param(f, 1), param(f, 2), param(f, 3)
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g == compact && g != nil {
			return MEvent
		}
		return MInline
	}})
	str := types.Typ[types.String]
	// transOf: the loop over the transactions of the book
	transOf := func(p *Path, book *Term) (*Loop, *Term, *Term) {
		for _, l := range p.loopsOn() {
			tr := p.LoadAt(l.EntryMem, fld(book, "book.Book", "trans"), fldT("book.Book", "trans"))
			if i, ok := p.idxScan(l, mkLen(tr)); ok {
				grouped := false
				for _, ev := range p.Events() {
					if ev.Kind == "loop" && ev.Loop == l {
						break
					}
					grouped = grouped || ev.Kind == "call" && ev.is(compactEv) && ev.Args[0] == book
				}
				r.need(grouped || compact == nil, "reclass-all", c, p.Pos, "the transactions are those of an earlier state of the book")
				return l, i, tr
			}
		}
		r.need(false, "reclass-all", c, p.Pos, "not every transaction is gone over")
		return nil, nil, nil
	}
	// side: the posting other than that of the account (-1: none, -2: not known)
	side := func(q *Path, m *Mem, T *Term) int {
		at := func(k int64) *Term { return cmpT("==", elemF(q, m, T, cInt(k), "acct"), acct, str) }
		two := cmp0("=", nSub(mkLen(T), cInt(2)))
		switch {
		case q.Not(two) || q.Not(at(0)) && q.Not(at(1)):
			return -1
		case q.Holds(two) && q.Holds(at(0)):
			return 1
		case q.Holds(two) && q.Holds(at(1)):
			return 0
		}
		return -2
	}
	changed := 0
	for _, p := range e.returns() {
		lr, ir, tr := transOf(p, ref)
		lb, ib, tb := transOf(p, b)
		if lr == nil || lb == nil {
			continue
		}
		et := elemType(tr.Typ)
		// what was done before: how often, by payee and account
		var all *Term
		for _, q := range lr.Backs {
			for _, w := range q.writesSince(lr.IterMem) {
				if (w.addr.Op == OMapEnt || w.addr.Op == OMapHas) && isNew(w.addr.Args[0]) && !lr.after(w.addr.Args[0]) {
					r.need(all == nil || all == w.addr.Args[0], "reclass-count", c, q.Pos, "counted in several places")
					all = w.addr.Args[0]
				}
			}
		}
		if !r.need(all != nil, "reclass-count", c, p.Pos, "nothing is counted") {
			continue
		}
		for _, q := range lr.Backs {
			T1 := q.LoadAt(lr.IterMem, idxAddr(tr, ir, et), et)
			s := side(q, lr.IterMem, T1)
			if !r.need(s != -2, "reclass-count", c, q.Pos, "transactions other than those of two postings, one of the account, may be counted") {
				continue
			}
			ws := outward(q.writesSince(lr.IterMem), lr)
			if s == -1 {
				r.need(len(ws) == 0, "reclass-count", c, q.Pos, "a transaction that is not of the account is counted")
				continue
			}
			who := elemF(q, lr.IterMem, T1, cInt(0), "payee")
			if q.Load(ent(all, who), ratPtrT(all)) == q.LoadAt(lr.IterMem, ent(all, who), ratPtrT(all)) && len(ws) == 0 {
				r.need(false, "reclass-count", c, q.Pos, "a transaction of the account is not counted")
				continue
			}
			to := elemF(q, lr.IterMem, T1, cInt(int64(s)), "acct")
			in0 := q.LoadAt(lr.IterMem, ent(all, who), ratPtrT(all))
			in1 := q.Load(ent(all, who), ratPtrT(all))
			n1 := q.Load(ent(in1, to), types.Typ[types.Int])
			switch has := q.LoadAt(lr.IterMem, T.mk(OMapHas, "", nil, all, who), boolT()); {
			case q.Holds(has):
				n0 := q.LoadAt(lr.IterMem, ent(in0, to), types.Typ[types.Int])
				switch h := q.LoadAt(lr.IterMem, T.mk(OMapHas, "", nil, in0, to), boolT()); {
				case q.Holds(h):
					r.need(in1 == in0 && n1 == nAdd(n0, cInt(1)), "reclass-count", c, q.Pos, "not counted once more: %v", n1)
				case q.Not(h):
					r.need(in1 == in0 && n1 == cInt(1), "reclass-count", c, q.Pos, "not counted once: %v", n1)
				default:
					r.need(in1 == in0 && n1 == nAdd(n0, cInt(1)), "reclass-count", c, q.Pos, "not counted once more: %v", n1)
				}
			case q.Not(has):
				r.need(lr.after(in1) && n1 == cInt(1), "reclass-count", c, q.Pos, "not counted once: %v", n1)
			default:
				r.need(false, "reclass-count", c, q.Pos, "whether the payee is known is not asked")
			}
			for _, w := range ws {
				a := w.addr
				x := rootObj(a)
				ok := (a.Op == OMapEnt || a.Op == OMapHas) && (a.Args[0] == all && a.Args[1] == who || a.Args[0] == in1 && a.Args[1] == to)
				r.need(ok || isNew(x) && x != all && x != in1 && a.Op != OMapEnt && a.Op != OMapHas, "reclass-count", c, q.Pos, "something else is counted or changed: %v", a)
			}
		}
		// the account for each payee
		var accts *Term
		for _, l := range p.loopsOn() {
			key, ok := p.mapScan(l, all)
			if !ok {
				continue
			}
			for _, q := range l.Backs {
				counts := q.LoadAt(l.IterMem, ent(all, key), ratPtrT(all))
				_, who, _ := bestOf(r, "reclass-most", c, q, counts, func(z *Path, k *Term) *Term {
					return z.LoadAt(l.IterMem, ent(counts, k), types.Typ[types.Int])
				}, nil)
				if who == nil {
					continue
				}
				for _, w := range outward(q.writesSince(l.IterMem), l) {
					a := w.addr
					if !r.need((a.Op == OMapEnt || a.Op == OMapHas) && isNew(a.Args[0]) && a.Args[0] != all && a.Args[1] == key, "reclass-most", c, q.Pos, "something else is changed: %v", a) {
						continue
					}
					accts = a.Args[0]
					r.need(a.Op == OMapHas && w.val.isTrue() || a.Op == OMapEnt && w.val == who, "reclass-most", c, q.Pos, "the account of a payee is not the most common: %v", w.val)
				}
			}
		}
		if !r.need(accts != nil, "reclass-most", c, p.Pos, "no account is chosen for a payee") {
			continue
		}
		// and what is changed by it
		for _, q := range lb.Backs {
			T1 := q.LoadAt(lb.IterMem, idxAddr(tb, ib, et), et)
			s := side(q, lb.IterMem, T1)
			if !r.need(s != -2, "reclass-change", c, q.Pos, "transactions other than those of two postings, one of the account, may be changed") {
				continue
			}
			ws := outward(q.writesSince(lb.IterMem), lb)
			if s == -1 {
				r.need(len(ws) == 0, "reclass-change", c, q.Pos, "a transaction that is not of the account is changed")
				continue
			}
			payee := elemF(q, lb.IterMem, T1, cInt(0), "payee")
			best, _, what := bestOf(r, "reclass-best", c, q, accts, func(z *Path, k *Term) *Term {
				for _, ev := range z.Events() {
					if ev.Kind == "call" && ev.Name == "dynamic" && len(ev.Args) == 3 && ev.Args[0] == dist && ev.Args[1] == payee && ev.Args[2] == k {
						return ev.Res
					}
				}
				return nil
			}, func(z *Path, k *Term) *Term { return z.LoadAt(lb.IterMem, ent(accts, k), str) })
			if best == nil {
				continue
			}
			some := cmp0(">", best)
			if q.Not(some) {
				r.need(len(ws) == 0, "reclass-change", c, q.Pos, "changed without a match")
				continue
			}
			r.need(q.Holds(some), "reclass-change", c, q.Pos, "whether there is a match is not asked")
			set := map[string]bool{}
			for _, w := range ws {
				done := false
				for n, v := range map[string]*Term{"acct": what, "acctterm": what, "acctlevel": cInt(0)} {
					k := fieldIdx(postT(), n)
					if w.addr == fldAddr(idxAddr(T1, cInt(int64(s)), postT()), postT(), k) {
						done = true
						set[n] = r.need(w.val == v, "reclass-change", c+" "+n, q.Pos, "the %s is not that of the most common account: %v", n, w.val)
					}
				}
				r.need(done, "reclass-change", c, q.Pos, "something else is changed: %v", w.addr)
			}
			r.need(set["acct"] && set["acctterm"], "reclass-change", c, q.Pos, "the account is not changed although there is a match")
			changed++
		}
		for _, w := range p.writesSince(nil) {
			r.need(isNew(rootObj(w.addr)), "reclass-change", c, p.Pos, "something else is changed: %v", w.addr)
		}
	}
	r.need(changed >= 2, "reclass-change", c, f.Pos(), "never changes an account")
	r.atLeast("reclass-count", 8)
	r.atLeast("reclass-most", 5)
	r.atLeast("reclass-best", 4)
	r.atLeast("reclass-change", 8)
	// what is imported
	n := 0
	for _, g := range callersOf(f) {
		n++
		checkReclassUse(r, topFn(g), f)
	}
	r.need(n > 0, "reclass-use", "callers", f.Pos(), "nothing is reclassified")
	r.atLeast("reclass-use", 4)
}

// checkReclassUse: what is imported is reclassified by the main book if that is asked for
func checkReclassUse(r *Report, f, by *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, outside(relPkg(pkgOf(f))))
	load, show, trans := lookup("cmd/app.App.LoadBook"), lookup("cmd/reports.ShowLedger"), lookup("book.Book.Transactions")
	seen := map[*ssa.Function]bool{}
	for _, p := range e.Paths {
		var main *Term
		evs := p.Events()
		for i, ev := range evs {
			if ev.Kind == "call" && ev.Fn == load && load != nil && main == nil {
				main = ev.part(0)
			}
			if ev.Kind != "call" || ev.Fn != show || show == nil {
				continue
			}
			var shown *Term
			at := -1
			for j := 0; j < i; j++ {
				if evs[j].Kind == "call" && evs[j].Fn == trans && evs[j].Res == ev.Args[1] {
					shown, at = evs[j].Args[0], j
				}
			}
			if !r.need(shown != nil, "reclass-use", c, ev.Pos, "what is shown is not the transactions of a book") {
				continue
			}
			var done *Event
			for j := 0; j < at; j++ {
				if x := evs[j]; x.Kind == "call" && x.Fn == by && x.Args[0] == shown {
					r.need(done == nil, "reclass-use", c, x.Pos, "reclassified twice")
					done = x
				}
			}
			asked := 0
			for _, x := range p.Facts() {
				if fieldOf(x.Cond) == "Reclassify" {
					asked = -1
					if x.Val {
						asked = 1
					}
				}
			}
			r.need(asked != 0 && (done != nil) == (asked > 0), "reclass-use", c, ev.Pos, "whether accounts are chosen by what was done before does not depend on what was asked for")
			if done == nil {
				continue
			}
			r.need(done.Args[1] == main && fieldOf(done.Args[2]) == "Account", "reclass-use", c, done.Pos, "not by the main book and the account imported to")
			if cl := done.Args[3]; r.need(cl.Op == OClosure || cl.Fn != nil, "reclass-use", c, done.Pos, "how alike payees are is not known") && !seen[cl.Fn] {
				seen[cl.Fn] = true
				checkAlike(r, cl.Fn)
			}
		}
	}
}

// checkAlike: payees match if they are more alike than not, and the more the better
func checkAlike(r *Report, f *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, outside(relPkg(pkgOf(f))))
	a, b := param(f, 0), param(f, 1)
	half := nScale(cInt(1), big.NewRat(1, 2))
	n := 0
	for _, p := range e.returns() {
		var d *Term
		find := func(x *Term) bool {
			if strings.HasSuffix(x.name(), "JaroWinkler") && len(x.Args) == 3 && x.Args[0] == a && x.Args[1] == b {
				d = x
			}
			return false
		}
		p.anyFact(find)
		for _, ev := range p.Events() {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "JaroWinkler") && len(ev.Args) == 3 && ev.Args[0] == a && ev.Args[1] == b {
				d = ev.Res
			}
		}
		if !r.need(d != nil, "reclass-alike", c, p.Pos, "the two payees are not compared") {
			continue
		}
		n++
		over := cmp0(">", nSub(d, half))
		v := p.Results[0]
		k, isC := polyOf(v).constant()
		r.need(p.Holds(over) && v == d || p.Not(over) && isC && k.Sign() == 0, "reclass-alike", c, p.Pos, "how alike payees are is not what decides: %v", v)
	}
	r.need(n >= 2, "reclass-alike", c, f.Pos(), "%d ways", n)
}
