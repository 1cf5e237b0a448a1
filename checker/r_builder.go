package main

import (
	"go/token"
	"go/types"
)

var ratType types.Type

func ratPtr() types.Type { return fldT("book.Posting", "val") }

// zeroScan: on p some loop has looked at every entry of the map of numbers m, as it was on
// entry, and none of them was other than zero
func zeroScan(r *Report, p *Path, m *Term, mt *types.Map) bool {
	for _, l := range p.loopsOn() {
		key, ok := p.mapScan(l, m)
		if !ok {
			continue
		}
		ent := mapEnt(m, key, mt)
		ptr := loadTM(nil, p.facts, ent, mt.Elem())
		num := loadTM(nil, p.facts, numLoc(ptr), nil)
		if loadTM(l.IterMem, p.facts, ent, mt.Elem()) != ptr || loadTM(l.IterMem, p.facts, numLoc(ptr), nil) != num {
			continue // changed before it was looked at
		}
		all := len(l.Backs) > 0
		for _, b := range l.Backs {
			if b.Holds(cmp0("=", num)) || excluded(p, l, b) {
				continue
			}
			all = false
		}
		if all {
			return true
		}
	}
	return false
}

func nilErr(p *Path) (nilE, nonE bool) {
	if len(p.Results) == 0 {
		return false, false
	}
	e := p.Results[len(p.Results)-1]
	if e.isNil() || p.Holds(mkEq(e, cNil())) {
		return true, false
	}
	if nonNil(e) || p.Not(mkEq(e, cNil())) {
		return false, true
	}
	return false, false
}

func balMap() (typ *types.Map, name string) {
	t := fldT("book.Builder", "currAmts")
	if t == nil {
		return nil, ""
	}
	m, _ := t.Underlying().(*types.Map)
	return m, "currAmts"
}

// C01: transactions that do not balance are not accepted
func checkC01(r *Report) {
	mt, _ := balMap()
	if !r.need(mt != nil, "anchor", "book.Builder balances", token.NoPos, "the running balances of the builder are gone") {
		return
	}
	for _, n := range []string{"book.Builder.NewTransaction", "book.Builder.BuildBook", "book.Builder.Build"} {
		f := r.fn(n)
		if f == nil {
			continue
		}
		e := r.run(n, Config{})
		m := loadTM(nil, newFacts(), fld(param(f, 0), "book.Builder", "currAmts"), mt)
		cnt := 0
		for _, p := range e.returns() {
			if n == "book.Builder.BuildBook" {
				if _, non := nilErr(p); non {
					r.need(p.Results[0].isNil(), "no-book-with-error", n, f.Pos(), "returns a book together with an error")
					continue
				}
			}
			cnt++
			r.need(zeroScan(r, p, m, mt), "balance-checked", n, f.Pos(), "a path completes without every currency of the transaction having been found to balance")
		}
		r.need(cnt > 0, "balance-accepts", n, f.Pos(), "no path completes")
	}
	// what is recorded is what is added to the balance
	if f := r.fn("book.Builder.AddPosting"); f != nil {
		e := r.run("book.Builder.AddPosting", Config{})
		b, ccy, amt := param(f, 0), param(f, 2), param(f, 3)
		r.need(len(e.returns()) > 0, "posting-added", "AddPosting", f.Pos(), "AddPosting never completes")
		for _, p := range e.returns() {
			m0 := loadTM(nil, newFacts(), fld(b, "book.Builder", "currAmts"), mt)
			m := p.Load(fld(b, "book.Builder", "currAmts"), mt)
			r.need(m == m0, "balance-kept", "AddPosting", f.Pos(), "the running balances are replaced")
			ent := mapEnt(m0, ccy, mt)
			has := T.mk(OMapHas, "", nil, m0, ccy)
			old := loadTM(nil, newFacts(), ent, mt.Elem())
			oldHas := loadTM(nil, newFacts(), has, types.Typ[types.Bool])
			a := loadTM(nil, newFacts(), numLoc(amt), nil)
			nv := p.Load(numLoc(p.Load(ent, mt.Elem())), nil)
			present := p.Holds(oldHas) || p.Not(mkEq(old, cNil()))
			absent := p.Not(oldHas) || p.Holds(mkEq(old, cNil()))
			ok := false
			switch {
			case absent:
				ok = nv == a && p.Load(has, types.Typ[types.Bool]).isTrue()
			case present:
				ok = nv == nAdd(loadTM(nil, newFacts(), numLoc(old), nil), a)
			}
			r.need(ok, "balance-updated", "AddPosting", f.Pos(), "the running balance of the currency is not changed by exactly the amount: it becomes %v", nv)
			// the posting
			ap := appendedTo(p, fld(b, "book.Builder", "post"))
			good := len(ap) == 1
			if good {
				v := getF(ap[0], "book.Posting", "val")
				good = getF(ap[0], "book.Posting", "ccy") == ccy && (v == amt || p.Load(numLoc(v), nil) == a) && v != p.Load(ent, mt.Elem())
			}
			r.need(good, "posting-recorded", "AddPosting", f.Pos(), "the posting is not recorded once with the currency and the amount that were added to the balance")
		}
	}
	// nobody else keeps the balances up to date
	for _, f := range allFuncs {
		for _, w := range fieldWrites(f, "book.Builder", "currAmts") {
			r.need(false, "balances-owned", fnKey(f), w, "the running balances are replaced outside of the making of a builder")
		}
	}
	// a builder's book is taken with the check, and the error is passed on
	bookUsers(r)
}

// appendedTo are the elements appended on the path to the slice at addr, beyond what it held on entry
func appendedTo(p *Path, addr *Term) []*Term {
	v := p.Load(addr, deref(addr.Typ))
	return appended(v, loadTM(nil, newFacts(), addr, deref(addr.Typ)))
}

// appended are the elements of v beyond those of base; nil if v isn't base with elements appended
func appended(v, base *Term) []*Term {
	var out []*Term
	for v != base {
		if v.Op != OAppend {
			return nil
		}
		out = append(append([]*Term{}, v.Args[1:]...), out...)
		v = v.Args[0]
	}
	return out
}

// bookUsers: a book is taken from a builder with the check, and a failed check is passed on
func bookUsers(r *Report) {
	nb, bb := r.fn("book.NewBookBuilder"), r.fn("book.Builder.BuildBook")
	build := r.fn("book.Builder.Build")
	if nb == nil || bb == nil || build == nil {
		return
	}
	seen := map[string]bool{}
	for _, c := range callersOf(nb) {
		f := topFn(c)
		if seen[fnKey(f)] || f.Signature.Results().Len() == 0 {
			continue
		}
		seen[fnKey(f)] = true
		e := r.runFn(f, nil, outside(relPkg(pkgOf(f))))
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				continue
			}
			var ev *Event
			for _, x := range p.calls(func(ev *Event) bool { return ev.Fn == bb || ev.Fn == build }) {
				if len(p.Results) > 0 && p.Results[0] == x.part(0) {
					ev = x
				}
			}
			if !r.need(ev != nil, "book-from-check", shortFn(f), f.Pos(), "a book is returned that was not taken from the builder with its check") {
				continue
			}
			if t := ev.err(); t != nil {
				r.need(p.isNil(t) || p.Results[len(p.Results)-1] == t, "check-error-returned", shortFn(f), ev.Pos, "the error of the balance check is dropped")
			}
		}
	}
	r.atLeast("book-from-check", 3)
}
