package main

// Renaming accounts and currencies, grouping by period.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// memoKey: v was taken from a map made for the purpose, under a key it is known to have; each
// entry of the map is put there by an iteration of l, and ok says which are right
func memoKey(l *Loop, b *Path, v *Term, ok func(ib *Path, key, val *Term) bool) *Term {
	if (v.Op != OLd && v.Op != OInit) || len(v.Args) == 0 || v.Args[0].Op != OMapEnt {
		return nil
	}
	m, key := v.Args[0].Args[0], v.Args[0].Args[1]
	if !isNew(m) {
		return nil
	}
	has := T.mk(OMapHas, "", nil, m, key)
	if !b.Holds(b.LoadAt(l.IterMem, has, types.Typ[types.Bool])) && !b.notNil(v) {
		return nil
	}
	// empty when the loop starts
	probe := T.mk(OMapHas, "", nil, m, T.mk(OParam, "anykey", nil))
	if loadTM(l.EntryMem, newFacts(), probe, types.Typ[types.Bool]) != cBool(false) {
		return nil
	}
	for _, ib := range l.Backs {
		for _, w := range ib.writesSince(l.IterMem) {
			if w.addr.Op == OMapEnt && w.addr.Args[0] == m && !ok(ib, w.addr.Args[1], w.val) {
				return nil
			}
		}
		if ib.havocSince(l.IterMem, v.Args[0]) {
			return nil
		}
	}
	return key
}

// renamed: n is what replacing matches of pat in old with repl gives
func renamed(b *Path, n, old, pat, repl *Term) bool {
	m, re := matchCond(b, old, pat)
	if n.Op == OCall && n.Aux == "(*regexp.Regexp).ReplaceAllString" && len(n.Args) == 3 {
		return n.Args[0].contains(pat) && isRegexpOf(n.Args[0], pat) && n.Args[1] == old && n.Args[2] == repl
	}
	return n == old && m == -1 && isRegexpOf(re, pat)
}

func isRegexpOf(re, pat *Term) bool {
	return re != nil && re.Op == OCall && len(re.Args) == 1 && re.Args[0] == pat && (re.Aux == "regexp.Compile.0" || re.Aux == "regexp.MustCompile")
}

// onlyFields: the iteration changes no field of a posting but those named, and no amount
func onlyFields(b *Path, s *scan, names ...string) (string, bool) {
	et := elemType(s.over.Typ)
	okA := map[*Term]bool{}
	// another number of the same value, of its own
	if nv := s.after(b, "val"); isNew(nv) && b.Load(numLoc(nv), nil) == b.LoadAt(s.l.IterMem, numLoc(s.field(b, "val")), nil) {
		names = append(names[:len(names):len(names)], "val")
	}
	for _, n := range names {
		if k := fieldIdx(et, n); k >= 0 {
			okA[fldAddr(s.elemAddr(), et, k)] = true
		}
	}
	for _, w := range b.writesSince(s.l.IterMem) {
		r := rootObj(w.addr)
		if okA[w.addr] || isNew(r) && !isPostList(typOf(r)) || r.Op == OGlobal || isFieldAddr(w.addr, "book.Book") {
			continue
		}
		// written as it was
		if w.addr.Op == OFld && w.val == b.LoadAt(s.l.IterMem, w.addr, deref(w.addr.Typ)) {
			continue
		}
		if w.addr.Op == ONumLoc && in("val", names) && w.addr.Args[0] == s.after(b, "val") {
			continue
		}
		if w.addr.Op == ONumLoc && (isNew(w.addr.Args[0]) || w.val == b.LoadAt(s.l.IterMem, w.addr, nil)) {
			continue
		}
		return w.addr.String(), false
	}
	for _, f := range []string{"val", "ccy", "date", "payee", "tnote", "note", "acct"} {
		in := false
		for _, n := range names {
			in = in || n == f
		}
		if !in && s.after(b, f) != s.field(b, f) {
			return f, false
		}
	}
	if !in("val", names) && b.Load(numLoc(s.field(b, "val")), nil) != b.LoadAt(s.l.IterMem, numLoc(s.field(b, "val")), nil) {
		return "amount", false
	}
	return "", true
}

func typOf(t *Term) types.Type {
	if t == nil {
		return nil
	}
	return t.Typ
}

func in(n string, l []string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// postScan is the loop on p that goes over every posting of the book and changes it in place
func postScan(p *Path, b *Term, field string) *scan {
	_, post0 := bookField(b, "post")
	for _, l := range p.loopsOn() {
		i, ok := p.idxScan(l, mkLen(post0))
		if !ok {
			continue
		}
		s := &scan{l, post0, i, nil}
		et := elemType(post0.Typ)
		a := fldAddr(s.elemAddr(), et, fieldIdx(et, field))
		for _, bk := range l.Backs {
			for _, w := range bk.writesSince(l.IterMem) {
				if w.addr == a {
					return s
				}
			}
		}
	}
	return nil
}

// invalid expressions: a path that does not report an error compiled the expression
func compiled(r *Report, rule, c string, p *Path, pat *Term) {
	e := T.mk(OCall, "regexp.Compile.1", nil, pat)
	ok := false
	for _, f := range p.Facts() {
		if f.Val && f.Cond.Op == OEq && f.Cond.any(func(x *Term) bool { return x.Op == OCall && x.Aux == e.Aux && x.Args[0] == pat }) {
			ok = true
		}
	}
	r.need(ok, rule, c, p.Pos, "succeeds although the expression may not be valid")
}

// checkRename: C12
func checkRename(r *Report) {
	if f, e := opPaths(r, "book.Book.RegexAccounts"); f != nil {
		b, pat, repl, alt := param(f, 0), param(f, 1), param(f, 2), param(f, 3)
		c := shortFn(f)
		n := 0
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				r.need(badRegexp(p, pat), "refused", c, p.Pos, "a renaming is refused although its expression is valid")
				continue
			}
			n++
			compiled(r, "rename-valid", c, p, pat)
			s := postScan(p, b, "acct")
			if !r.need(s != nil, "rename-accounts-every", c, p.Pos, "not every posting gets its account renamed") {
				continue
			}
			compacted(r, c, f, p)
			right := func(bk *Path, old, nw *Term) bool {
				m, re := matchCond(bk, old, pat)
				noAlt, hasAlt := bk.Holds(cmp0("=", mkLen(alt))), bk.Not(cmp0("=", mkLen(alt)))
				noRe, hasRe := bk.Holds(cmp0("=", mkLen(repl))), bk.Not(cmp0("=", mkLen(repl)))
				if m != 0 && !isRegexpOf(re, pat) {
					return false
				}
				stays := noAlt || m == 1
				switch {
				case hasAlt && m == -1:
					return nw == alt
				case stays && noRe:
					return nw == old
				case stays && hasRe:
					return renamed(bk, nw, old, pat, repl)
				case stays && m == -1: // unknown replacement, nothing to replace
					return nw == old
				}
				return false
			}
			for _, bk := range s.l.Backs {
				old, nw := s.field(bk, "acct"), s.after(bk, "acct")
				ok := right(bk, old, nw)
				if !ok {
					ok = memoKey(s.l, bk, nw, right2(right)) == old
				}
				r.need(ok, "rename-accounts", c, bk.Pos, "the new name of the account is not the one asked for: %v", nw)
				r.need(s.after(bk, "acctterm") == nw && s.after(bk, "acctlevel") == cInt(0) || nw == old && s.after(bk, "acctterm") == s.field(bk, "acctterm"), "rename-shown", c, bk.Pos, "the name shown for the account is not its new name")
				w, ok2 := onlyFields(bk, s, "acct", "acctterm", "acctlevel")
				r.need(ok2, "rename-only", c, bk.Pos, "something else changes too: %s", w)
			}
		}
		r.need(n > 0, "rename-accounts", c, f.Pos(), "never completes")
	}
	checkRenameCCY(r)
	r.atLeast("rename-accounts", 4)
	r.atLeast("rename-ccy", 2)
	r.atLeast("rename-prices", 4)
	r.atLeast("rename-decimals", 4)
}

func right2(right func(bk *Path, old, nw *Term) bool) func(ib *Path, key, val *Term) bool {
	return func(ib *Path, key, val *Term) bool { return right(ib, key, val) }
}

func checkRenameCCY(r *Report) {
	f := r.fn("book.Book.RegexCCY")
	if f == nil {
		return
	}
	c := shortFn(f)
	add, build, mk := lookup("book.priceBookBuilder.addPrice"), lookup("book.priceBookBuilder.build"), lookup("book.newPriceBookBuilder")
	pairsF, listF := lookup("book.Book.GetPricePairs"), lookup("book.Book.GetPriceList")
	cf := lookup(compactEv)
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		switch g {
		case add, build, mk, cf:
			return MEvent
		case pairsF, listF:
			return MPure
		}
		return MInline
	}})
	b, pat, repl := param(f, 0), param(f, 1), param(f, 2)
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			r.need(badRegexp(p, pat), "refused", c, p.Pos, "a renaming is refused although its expression is valid")
			continue
		}
		n++
		compiled(r, "rename-valid", c, p, pat)
		// the postings
		s := postScan(p, b, "ccy")
		if r.need(s != nil, "rename-ccy-every", c, p.Pos, "not every posting gets its currency renamed") {
			for _, bk := range s.l.Backs {
				old, nw := s.field(bk, "ccy"), s.after(bk, "ccy")
				r.need(renamed(bk, nw, old, pat, repl), "rename-ccy", c, bk.Pos, "the new name of the currency is not the one asked for: %v", nw)
				w, ok := onlyFields(bk, s, "ccy")
				r.need(ok, "rename-only", c, bk.Pos, "something else changes too: %s", w)
			}
		}
		renamePrices(r, c, f, p, b, pat, repl, add, build, mk, pairsF, listF)
		renameDecimals(r, c, p, b, pat, repl)
	}
	r.need(n > 0, "rename-ccy", c, f.Pos(), "never completes")
}

func renamePrices(r *Report, c string, f *ssa.Function, p *Path, b, pat, repl *Term, add, build, mk, pairsF, listF *ssa.Function) {
	pa, _ := bookField(b, "prices")
	pb := p.Load(pa, fldT("book.Book", "prices"))
	var nb *Term
	for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn == build && build != nil }) {
		if ev.Res == pb && len(ev.Args) > 0 {
			nb = ev.Args[0]
		}
	}
	if !r.need(nb != nil, "rename-prices", c, p.Pos, "the prices of the book are not made again") {
		return
	}
	isAdd := func(ev *Event) bool { return ev.Fn == add && len(ev.Args) > 4 && ev.Args[0] == nb }
	done := false
	for _, l := range p.loopsOn() {
		for _, s := range p.scans(l) {
			var unit, ccy func(bk *Path) *Term
			switch {
			case s.idx != nil && s.over.Op == OCall && s.over.Fn == pairsF && pairsF != nil || s.idx != nil && pairsF != nil && s.over.Op == OCall && s.over.Aux == shortName(pairsF.String()):
				sc := s
				unit = func(bk *Path) *Term { return sc.field(bk, "Unit") }
				ccy = func(bk *Path) *Term { return sc.field(bk, "CCY") }
			case s.key != nil && isType(mapKey(s.over), "book.PricePair"):
				k := s.key
				unit = func(bk *Path) *Term { return getField(k, "Unit") }
				ccy = func(bk *Path) *Term { return getField(k, "CCY") }
			default:
				continue
			}
			if done {
				continue
			}
			ok := len(l.Backs) > 0
			k := 0
			for _, bk := range l.Backs {
				inner := 0
				for _, il := range bk.innerLoops(l) {
					for _, is := range bk.scans(il) {
						if is.idx == nil || !isType(elemType(is.over.Typ), "book.Price") || !priceListOf(is.over, unit(bk), ccy(bk), s) {
							continue
						}
						for _, ib := range il.Backs {
							evs := filterCalls(ib.in(il), isAdd)
							if len(evs) == 0 {
								continue
							}
							inner++
							k++
							a := evs[0].Args
							val := is.field(ib, "val")
							good := len(evs) == 1 && a[1] == is.field(ib, "date") && renamed(ib, a[2], unit(ib), pat, repl) && renamed(ib, a[3], ccy(ib), pat, repl) &&
								(a[4] == val || ib.Load(numLoc(a[4]), nil) == ib.Load(numLoc(val), nil))
							r.need(good, "rename-prices", c, ib.Pos, "the price is not kept with its date, rate and renamed currencies: %v", evs[0].Args)
						}
						r.need(inner == len(il.Backs) || inner > 0 && inner%len(il.Backs) == 0, "rename-prices", c, bk.Pos, "a price is not kept")
					}
				}
				if inner == 0 {
					// no prices in the list
					empty := true
					for _, il := range bk.innerLoops(l) {
						if len(il.Backs) > 0 {
							empty = false
						}
					}
					if len(bk.innerLoops(l)) == 0 {
						empty = false
					}
					ok = ok && empty
				}
			}
			done = true
			r.need(ok && k > 0, "rename-prices-every", c, p.Pos, "not every price is kept")
		}
	}
	r.need(done, "rename-prices-every", c, p.Pos, "not all pairs of currencies with prices are gone through")
}

func mapKey(m *Term) types.Type {
	if mt, ok := typUnder(m).(*types.Map); ok {
		return mt.Key()
	}
	return nil
}

// priceListOf: list is the list of prices of the pair
func priceListOf(list, unit, ccy *Term, s scan) bool {
	if list.Op == OCall && len(list.Args) == 3 {
		return list.Args[1] == unit && list.Args[2] == ccy
	}
	if (list.Op == OLd || list.Op == OInit) && list.Args[0].Op == OMapEnt {
		k := list.Args[0].Args[1]
		return k == s.key || getField(k, "Unit") == unit && getField(k, "CCY") == ccy
	}
	return false
}

func renameDecimals(r *Report, c string, p *Path, b, pat, repl *Term) {
	ca, ccy0 := bookField(b, "ccy")
	nm := p.Load(ca, fldT("book.Book", "ccy"))
	mt, ok := typUnder(nm).(*types.Map)
	if !r.need(ok && nm != ccy0, "rename-decimals", c, p.Pos, "the decimals of the currencies are not renamed") {
		return
	}
	s := p.scanOf(ccy0)
	if !r.need(s != nil && s.key != nil, "rename-decimals", c, p.Pos, "not every currency keeps its decimals") {
		return
	}
	if !isNew(nm) {
		r.need(false, "rename-decimals", c, p.Pos, "the decimals of the currencies are not made again")
		return
	}
	for _, bk := range s.l.Backs {
		dec := s.elem(bk)
		var key, val *Term
		n := 0
		for _, w := range bk.writesSince(s.l.IterMem) {
			if w.addr.Op == OMapEnt && w.addr.Args[0] == nm {
				key, val = w.addr.Args[1], w.val
				n++
			}
		}
		if n == 0 {
			// another one has at least as many
			good := false
			for _, h := range mapsTouched(bk) {
				if h.Args[0] != nm || !renamed(bk, h.Args[1], s.key, pat, repl) {
					continue
				}
				cur := bk.LoadAt(s.l.IterMem, mapEnt(nm, h.Args[1], mt), mt.Elem())
				if bk.Not(cmp0("<", nSub(cur, dec))) {
					good = true
				}
			}
			r.need(good, "rename-decimals", c, bk.Pos, "the decimals of a currency are lost")
			continue
		}
		has := T.mk(OMapHas, "", nil, nm, key)
		cur := bk.LoadAt(s.l.IterMem, mapEnt(nm, key, mt), mt.Elem())
		first := bk.Not(bk.LoadAt(s.l.IterMem, has, types.Typ[types.Bool])) || bk.Holds(cmp0("<", nSub(cur, dec))) || bk.Holds(cmp0("=", nSub(cur, dec)))
		if val == cur {
			first = bk.Not(cmp0("<", nSub(cur, dec)))
		} else if val != dec && val.Op == OCall {
			first = false
		}
		r.need(n == 1 && renamed(bk, key, s.key, pat, repl) && (val == dec || val == cur) && first, "rename-decimals", c, bk.Pos, "a renamed currency does not get the most decimals of those it stands for: %v", val)
	}
}

var _ = fmt.Sprint
