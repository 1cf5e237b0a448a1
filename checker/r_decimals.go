package main

// The decimals of each currency: the most its amounts need.

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkDecimals: C33
func checkDecimals(r *Report) {
	r.checkNeeded()
	r.checkNoted()
	r.checkPrinters()
}

// checkNeeded: the decimals an amount needs
func (r *Report) checkNeeded() {
	f := r.fn("book.GetDecimals")
	if f == nil {
		return
	}
	con := shortFn(f)
	e := r.runFn(f, nil, Config{})
	isDen := func(t *Term) bool {
		s := t.str(0)
		return strings.Contains(s, "denom(") && strings.Contains(s, ":"+f.Params[0].Name())
	}
	// the loop that multiplies by ten
	type step struct {
		l   *Loop
		c   carrier
		pow *Term // location
	}
	loopOn := func(p *Path) (r []step) {
		for _, l := range p.loopsOn() {
			for _, x := range l.carriers() {
				if x.entry == nil || x.entry != cInt(0) || len(l.Backs) == 0 {
					continue
				}
				up := true
				for _, b := range l.Backs {
					up = up && (b.Loop != l || x.next(b) == nAdd(x.v, cInt(1)))
				}
				if up {
					r = append(r, step{l, x, nil})
				}
			}
		}
		return
	}
	// tenTo: the number is ten to the count
	tenTo := func(t *Term, s step) bool {
		var loc *Term
		t.any(func(x *Term) bool {
			if isLoad(x) && x.Args[0].Op == ONumLoc {
				loc = x.Args[0]
			}
			return false
		})
		if loc == nil {
			return false
		}
		for _, b := range s.l.Backs {
			if b.Loop != s.l {
				continue
			}
			entry, cur, next := b.LoadAt(s.l.EntryMem, loc, nil), b.LoadAt(s.l.IterMem, loc, nil), b.Load(loc, nil)
			if k, ok := polyOf(entry).constant(); !ok || !k.IsInt() || k.Num().Int64() != 1 || next != nScale(cur, big.NewRat(10, 1)) {
				return false
			}
		}
		return true
	}
	// divides: the condition is that the denominator divides ten to the count
	divides := func(c *Term, s step) bool {
		if c.Op != OCmp || c.Aux != "=" {
			return false
		}
		ok := false
		for _, m := range polyOf(c.Args[0]).m {
			if len(m.f) != 1 || len(polyOf(c.Args[0]).m) != 1 {
				return false
			}
			t := m.f[0].t
			ok = len(t.Args) == 2 && (strings.HasSuffix(t.Aux, "int.Rem") || strings.HasSuffix(t.Aux, "int.Mod")) && tenTo(t.Args[0], s) && isDen(t.Args[1]) && !isDen(t.Args[0])
		}
		return ok
	}
	exact, not := 0, 0
	for _, p := range e.Paths {
		if !r.need(p.Kind != "panic", "needed", con, p.Pos, "breaks off on some amount") || p.Kind != "return" {
			continue
		}
		n, res := p.Results[0], p.Results[1]
		good := false
		switch res {
		case cBool(true):
			exact++
			for _, s := range loopOn(p) {
				if s.c.v != n {
					continue
				}
				here := false
				for _, ft := range p.Facts() {
					here = here || ft.Val && divides(ft.Cond, s)
				}
				before := true
				for _, b := range s.l.Backs {
					if b.Loop != s.l {
						continue
					}
					no := false
					for _, ft := range b.Facts() {
						no = no || !ft.Val && divides(ft.Cond, s)
					}
					before = before && no
				}
				good = good || here && before
			}
			r.need(good, "needed", con, p.Pos, "these are not the fewest decimals that write the amount exactly: %v", n)
		case cBool(false):
			not++
			for _, s := range loopOn(p) {
				// enough were tried
				for _, ft := range p.Facts() {
					ft.Cond.any(func(x *Term) bool {
						if x.Op == OCall && strings.HasSuffix(x.Aux, "BitLen") && len(x.Args) == 1 && isDen(x.Args[0]) && p.Not(cmp0("<", nSub(s.c.v, x))) {
							good = true
						}
						return false
					})
				}
				// and none was enough
				for _, b := range s.l.Backs {
					no := b.Loop != s.l
					for _, ft := range b.Facts() {
						no = no || !ft.Val && divides(ft.Cond, s)
					}
					good = good && no
				}
			}
			r.need(good, "needed", con, p.Pos, "an amount that has so many decimals is taken for one that cannot be written")
			r.need(r.digitsOf(p, n, isDen, func(t *Term, l *Loop, c carrier) bool { return tenTo(t, step{l, c, nil}) }), "needed", con, p.Pos, "these are not the digits of the denominator: %v", n)
		default:
			r.need(false, "needed", con, p.Pos, "it is not known whether they are enough: %v", res)
		}
	}
	r.need(exact > 0 && not > 0, "needed", con+" ways", f.Pos(), "exact and endless amounts are not told apart")
}

// digitsOf: n counts the powers of ten less than the denominator
func (r *Report) digitsOf(p *Path, n *Term, isDen func(*Term) bool, tenTo func(*Term, *Loop, carrier) bool) bool {
	for _, l := range p.loopsOn() {
		var count *carrier
		for _, x := range l.carriers() {
			x := x
			up := x.entry == cInt(0)
			for _, b := range l.Backs {
				up = up && (b.Loop != l || x.next(b) == nAdd(x.v, cInt(1)))
			}
			if up {
				count = &x
			}
		}
		for _, x := range l.carriers() {
			if x.v != n || x.entry != cInt(0) {
				continue
			}
			ok := true
			for _, b := range l.Backs {
				if b.Loop != l {
					continue
				}
				less := 0
				for _, ft := range b.Facts() {
					if ft.Cond.Op != OCmp || ft.Cond.Aux == "=" {
						continue
					}
					a := ft.Cond.Args[0]
					var d, pw *Term
					for _, m := range polyOf(a).m {
						if len(m.f) != 1 {
							continue
						}
						if isDen(m.f[0].t) {
							d = m.f[0].t
						} else if tenTo(m.f[0].t, l, x) {
							pw = m.f[0].t
						}
					}
					if d == nil || pw == nil {
						continue
					}
					if k := knows(b, cmp0("<", nSub(pw, d))); k != 0 {
						less = k
					}
				}
				nx := x.next(b)
				switch {
				case less > 0:
					ok = ok && (nx == nAdd(x.v, cInt(1)) || count != nil && nx == nAdd(count.v, cInt(1)))
				case less < 0:
					ok = ok && nx == x.v
				default:
					ok = false
				}
			}
			if ok && len(l.Backs) > 0 {
				return true
			}
		}
	}
	return false
}

// checkNoted: each currency of a book has the most decimals of its amounts
func (r *Report) checkNoted() {
	f, dec := r.fn("book.Builder.Build"), r.fn("book.GetDecimals")
	if f == nil || dec == nil {
		return
	}
	con := shortFn(f)
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		switch {
		case g == dec:
			return MPure
		case in(shortFn(g), []string{"(*book.Builder).checkAndClearTransaction", "(*book.Builder).checkTransaction", "(*book.Book).compact", "(*book.priceBookBuilder).build"}):
			return MEvent
		}
		return MInline
	}})
	n := 0
	for _, p := range e.returns() {
		b := p.Results[0]
		posts := p.Load(fld(b, "book.Book", "post"), fldT("book.Book", "post"))
		decs := p.Load(fld(b, "book.Book", "ccy"), fldT("book.Book", "ccy"))
		// those before the book is compacted
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.is("book.Book.compact") {
				posts = p.LoadAt(ev.Mem, fld(b, "book.Book", "post"), fldT("book.Book", "post"))
				decs = p.LoadAt(ev.Mem, fld(b, "book.Book", "ccy"), fldT("book.Book", "ccy"))
			}
		}
		mt, _ := mapOf(decs)
		s := p.scanOf(posts)
		if !r.need(mt != nil && isNew(decs), "noted", con, p.Pos, "the decimals of the currencies are not noted") ||
			!r.need(s != nil && s.forward(), "noted", con, p.Pos, "not every posting counts for the decimals of its currency") {
			continue
		}
		for _, bk := range s.l.Backs {
			if bk.Loop != s.l {
				continue
			}
			n++
			ccy, val := s.field(bk, "ccy"), s.field(bk, "val")
			needs := func(t *Term) bool {
				return t.Op == OCall && strings.HasPrefix(t.Aux, callName(dec)) && len(t.Args) == 1 && t.Args[0].any(func(x *Term) bool { return x == val })
			}
			cur := bk.LoadAt(s.l.IterMem, mapEnt(decs, ccy, mt), mt.Elem())
			has := bk.LoadAt(s.l.IterMem, T.mk(OMapHas, "", nil, decs, ccy), boolT())
			var stored *Term
			stores := 0
			for _, w := range bk.writesSince(s.l.IterMem) {
				if w.addr.Op == OMapEnt && w.addr.Args[0] == decs {
					stores++
					if w.addr.Args[1] == ccy {
						stored = w.val
					}
				}
			}
			if stores == 0 {
				good := false
				for _, ft := range bk.Facts() {
					ft.Cond.any(func(x *Term) bool {
						good = good || needs(x) && bk.Not(cmp0(">", nSub(x, cur)))
						return false
					})
				}
				r.need(good && bk.Holds(has), "noted", con, bk.Pos, "an amount that needs more decimals is passed over")
				continue
			}
			good := stores == 1 && stored != nil && needs(stored) && (bk.Not(has) || bk.Not(cmp0("<", nSub(stored, cur))))
			if stored == cur {
				for _, ft := range bk.Facts() {
					ft.Cond.any(func(x *Term) bool {
						good = good || stores == 1 && needs(x) && bk.Not(cmp0(">", nSub(x, cur)))
						return false
					})
				}
			}
			r.need(good, "noted", con, bk.Pos, "a currency does not get the most decimals its amounts need: %v", stored)
		}
	}
	r.need(n >= 2, "noted", con+" ways", f.Pos(), "only %d ways through it", n)
}

// checkPrinters: what is shown has the decimals of a book
func (r *Report) checkPrinters() {
	mk, decs := r.fn("cmd/app.App.NewBookPrinter"), r.fn("book.Book.GetCCYDecimals")
	if mk == nil || decs == nil {
		return
	}
	e := r.runFn(mk, nil, Config{})
	for _, p := range e.returns() {
		got := p.Load(fld(p.Results[0], "cmd/app.BookPrinter", "decs"), fldT("cmd/app.BookPrinter", "decs"))
		r.need(got == param(mk, 1), "printer", shortFn(mk), p.Pos, "the decimals are not those given: %v", got)
	}
	n := 0
	for _, f := range callersOf(mk) {
		if !inRepo(f) || f.Synthetic != "" || relPkg(pkgOf(f)) == "cmd/web" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != mk {
					continue
				}
				n++
				r.need(alwaysFrom(c.Common().Args[1], func(v ssa.Value) bool {
					g, ok := v.(*ssa.Call)
					return ok && g.Call.StaticCallee() == decs
				}, map[ssa.Value]bool{}), "printer", shortFn(f), c.Pos(), "amounts are not shown with the decimals of a book")
			}
		}
	}
	r.need(n >= 5, "printer", "uses", mk.Pos(), "only %d uses found", n)
}

// alwaysFrom: wherever the value comes from, it is from one of those asked for
func alwaysFrom(v ssa.Value, is func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if is(v) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	all := func(vs []ssa.Value) bool {
		for _, x := range vs {
			if !alwaysFrom(x, is, seen) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch v := v.(type) {
	case *ssa.Phi:
		return all(v.Edges)
	case *ssa.ChangeType:
		return alwaysFrom(v.X, is, seen)
	case *ssa.UnOp:
		return all(keptIn(v.X, map[ssa.Value]bool{}))
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil || !inRepo(g) {
			return false
		}
		var rs []ssa.Value
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				rs = append(rs, ret.Results[0])
			}
		}
		return all(rs)
	case *ssa.Parameter:
		f := v.Parent()
		k := -1
		for i, q := range f.Params {
			if q == v {
				k = i
			}
		}
		var as []ssa.Value
		for _, c := range callersOf(f) {
			for _, b := range c.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && k < len(ci.Common().Args) {
						as = append(as, ci.Common().Args[k])
					}
				}
			}
		}
		return all(as)
	}
	return false
}

// keptIn: what is stored in a variable, also from the functions made where it is
func keptIn(a ssa.Value, seen map[ssa.Value]bool) (r []ssa.Value) {
	if seen[a] {
		return nil
	}
	seen[a] = true
	switch a := a.(type) {
	case *ssa.FreeVar:
		f := a.Parent()
		for i, fv := range f.FreeVars {
			if fv != a || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						r = append(r, keptIn(mc.Bindings[i], seen)...)
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == a {
					r = append(r, u.Val)
				}
			}
		}
	}
	return
}
