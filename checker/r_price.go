package main

// Rates between currencies at a date, and conversion of a book.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// quotes is a list of prices ordered by date, and a date looked for in it
type quotes struct {
	l    *Term
	date *Term
	days func(d *Term) *Term
}

func (q quotes) at(p *Path, i *Term, name string) *Term {
	et := elemType(q.l.Typ)
	k := fieldIdx(et, name)
	return p.LoadAt(nil, fldAddr(idxAddr(q.l, i, et), et, k), fldT("book.Price", name))
}

func (q quotes) val(p *Path, i *Term) *Term { return p.LoadAt(nil, numLoc(q.at(p, i, "val")), nil) }

// gap is the date looked for less that of entry i
func (q quotes) gap(p *Path, i *Term) *Term { return nSub(q.date, q.at(p, i, "date")) }

// between decides that entry i is not after the date, and entry i+1 not before it
func (q quotes) between(p *Path, e *Engine, i *Term) bool {
	j := nAdd(i, cInt(1))
	if q.notAfter(p, i) && q.notBefore(p, j) {
		return true
	}
	for _, l := range p.loopsOn() {
		lo, hi := q.bisect(p, l)
		if lo == nil {
			continue
		}
		// what is left is one entry, or none
		mid := q.halved(p, lo, hi)
		if i == lo && (p.Holds(cmp0("=", nSub(nSub(hi, lo), cInt(1)))) || mid != nil && p.Holds(cmp0("<", nSub(lo, hi)))) {
			if (p.Holds(cmp0(">", q.gap(p, i))) || mid != nil && p.Holds(cmp0(">", q.gap(p, mid)))) && p.Not(cmp0(">", q.gap(p, nSub(mkLen(q.l), cInt(1))))) {
				return true
			}
		}
	}
	// first entry not before the date
	if k, ok := q.firstNotBefore(p, j); ok && k {
		return true
	}
	return false
}

// impossible: the path has searched past what is left
func (q quotes) impossible(p *Path) bool {
	for _, l := range p.loopsOn() {
		lo, hi := q.bisect(p, l)
		if lo != nil && p.Not(cmp0("<", nSub(lo, hi))) {
			return true
		}
		// gone through all of them one by one, though the last is not before the date
		for _, v := range l.Vars {
			if !isIntT(v.Typ) || len(l.Backs) == 0 || !p.Holds(bNot(cmp0("<", nSub(v, mkLen(q.l))))) || !p.Not(cmp0(">", q.gap(p, nSub(mkLen(q.l), cInt(1))))) {
				continue
			}
			if n, ok := l.Entry[v].intVal(); !ok || n != 0 && n != 1 {
				continue
			}
			all := true
			for _, b := range l.Backs {
				all = all && b.Next[v] == nAdd(v, cInt(1)) && b.Holds(cmp0(">", q.gap(b, v)))
			}
			if all {
				return true
			}
		}
	}
	return false
}

// halved: the path knows the middle of lo and hi is lo
func (q quotes) halved(p *Path, lo, hi *Term) *Term {
	mid := T.mk(OBin, "/", nil, nAdd(lo, hi), cInt(2))
	for _, f := range p.Facts() {
		var is *Term
		f.Cond.any(func(t *Term) bool {
			if t.Op == OBin && t.Aux == "/" && t.Args[0] == mid.Args[0] && t.Args[1] == mid.Args[1] && p.Holds(cmp0("=", nSub(t, lo))) {
				is = t
			}
			return is != nil
		})
		if is != nil {
			return is
		}
	}
	return nil
}

// bisect: loop l keeps lo at an entry not after the date and hi past the end or at one after it,
// and moves one of them to the middle each time
func (q quotes) bisect(p *Path, l *Loop) (lo, hi *Term) {
	for _, x := range l.Vars {
		for _, y := range l.Vars {
			if x == y || !isIntT(x.Typ) || !isIntT(y.Typ) || l.Entry[x] != cInt(0) || l.Entry[y] != mkLen(q.l) || len(l.Backs) == 0 {
				continue
			}
			if !p.Not(cmp0("<", q.gap(p, cInt(0)))) {
				continue
			}
			good := true
			for _, b := range l.Backs {
				nx, ny := b.Next[x], b.Next[y]
				if !b.Holds(cmp0("<", nSub(x, y))) {
					good = false
				}
				mid := nx
				if nx == x {
					mid = ny
				}
				if !(mid.Op == OBin && mid.Aux == "/" && mid.Args[0] == nAdd(x, y) && mid.Args[1] == cInt(2) || mid == nAdd(x, T.mk(OBin, "/", nil, nSub(y, x), cInt(2)))) {
					good = false
				}
				switch {
				case nx == mid && ny == y:
					good = good && b.Not(cmp0("<", q.gap(b, mid)))
				case nx == x && ny == mid:
					good = good && b.Holds(cmp0("<", q.gap(b, mid)))
				default:
					good = false
				}
			}
			if good {
				return x, y
			}
		}
	}
	return nil, nil
}

// firstNotBefore: k is the first entry not before the date, as found one by one or by the library
func (q quotes) firstNotBefore(p *Path, k *Term) (strict, ok bool) {
	for _, l := range p.loopsOn() {
		for _, v := range l.Vars {
			if !isIntT(v.Typ) || len(l.Backs) == 0 {
				continue
			}
			i := v
			switch l.Entry[v] {
			case cInt(-1):
				i = nAdd(v, cInt(1))
			case cInt(0):
			case cInt(1):
				// the first is known not to be after
				if !p.Not(cmp0("<", q.gap(p, cInt(0)))) {
					continue
				}
			default:
				continue
			}
			good := k == i || p.Holds(cmp0("=", nSub(k, i)))
			for _, b := range l.Backs {
				if b.Next[v] != nAdd(v, cInt(1)) || !b.Holds(cmp0(">", q.gap(b, i))) && !b.Not(cmp0("<", q.gap(b, i))) {
					good = false
				}
			}
			if good && q.notBefore(p, k) && p.Not(cmp0("<", q.gap(p, cInt(0)))) {
				return true, true
			}
		}
	}
	// lower bound by bisection: everything before lo is before the date, everything from hi on is not
	for _, l := range p.loopsOn() {
		for _, x := range l.Vars {
			for _, y := range l.Vars {
				if x == y || !isIntT(x.Typ) || !isIntT(y.Typ) || l.Entry[x] != cInt(0) || len(l.Backs) == 0 || x != k && y != k {
					continue
				}
				ey := l.Entry[y]
				good := ey == mkLen(q.l) || p.Holds(bNot(cmp0("<", nSub(ey, nSub(mkLen(q.l), cInt(1))))))
				good = good && p.Not(cmp0("<", nSub(x, y)))
				for _, b := range l.Backs {
					nx, ny := b.Next[x], b.Next[y]
					switch {
					case ny == y:
						good = good && b.Holds(cmp0(">", q.gap(b, nSub(nx, cInt(1)))))
					case nx == x:
						good = good && b.Not(cmp0(">", q.gap(b, ny)))
					default:
						good = false
					}
				}
				if good && p.Not(cmp0("<", q.gap(p, cInt(0)))) && p.Not(cmp0(">", q.gap(p, nSub(mkLen(q.l), cInt(1))))) {
					return true, true
				}
			}
		}
	}
	for _, ev := range p.calls(func(ev *Event) bool { return ev.Name == "sort.Search" }) {
		if ev.Res != k || len(ev.Args) != 2 || ev.Args[0] != mkLen(q.l) || ev.Args[1].Op != OClosure || ev.Args[1].Fn == nil {
			continue
		}
		cl := ev.Args[1]
		e := AnalyseFrom(cl.Fn, nil, cl.Args, ev.Mem, nil, Config{})
		good := len(e.Paths) > 0
		for _, cp := range e.Paths {
			if cp.Kind != "return" {
				good = false
				continue
			}
			d := cp.LoadAt(ev.Mem, fldAddr(idxAddr(q.l, param(cl.Fn, 0), elemType(q.l.Typ)), elemType(q.l.Typ), fieldIdx(elemType(q.l.Typ), "date")), fldT("book.Price", "date"))
			want := bNot(cmp0("<", nSub(d, q.date)))
			res := cp.Results[0]
			if res != want && !(cp.Holds(res) && cp.Holds(want)) && !(cp.Not(res) && cp.Not(want)) {
				good = false
			}
		}
		if good && p.Not(cmp0("<", q.gap(p, cInt(0)))) && p.Not(cmp0(">", q.gap(p, nSub(mkLen(q.l), cInt(1))))) {
			return true, true
		}
	}
	return false, false
}

func (q quotes) notAfter(p *Path, i *Term) bool {
	if p.Not(cmp0("<", q.gap(p, i))) {
		return true
	}
	// kept by a loop
	if i.Op == OLoopVar && i.Loop != nil && len(i.Loop.Backs) > 0 {
		l := i.Loop
		if !p.Not(cmp0("<", q.gap(p, l.Entry[i]))) {
			return false
		}
		for _, b := range l.Backs {
			if nx := b.Next[i]; nx != i && !b.Not(cmp0("<", q.gap(b, nx))) {
				return false
			}
		}
		return true
	}
	return false
}

func (q quotes) notBefore(p *Path, j *Term) bool { return p.Not(cmp0(">", q.gap(p, j))) }

// rate decides that v is what the prices say for the date
func (q quotes) rate(p *Path, e *Engine, v *Term, inverse bool) (string, bool) {
	is1 := func(w *Term) bool {
		if inverse {
			return v == nInv(w) || nInv(v) == w
		}
		return v == w
	}
	last := nSub(mkLen(q.l), cInt(1))
	var is []*Term
	seen := map[*Term]bool{}
	v.any(func(t *Term) bool {
		if t.Op == OIdx && len(t.Args) == 2 && t.Args[0] == q.l && !seen[t.Args[1]] {
			seen[t.Args[1]] = true
			is = append(is, t.Args[1])
		}
		return false
	})
	for _, i := range is {
		if is1(q.val(p, i)) {
			switch {
			case p.Holds(cmp0("=", q.gap(p, i))):
				return "exact", true
			case p.Holds(cmp0("=", i)) && (p.Holds(cmp0("<", q.gap(p, i))) || p.Not(cmp0(">", q.gap(p, i)))):
				return "before", true
			case p.Holds(cmp0("=", nSub(i, last))) && (p.Holds(cmp0(">", q.gap(p, i))) || p.Not(cmp0("<", q.gap(p, i)))):
				return "after", true
			}
			return "a price is used that is not the nearest", false
		}
	}
	for _, i := range is {
		j := nAdd(i, cInt(1))
		a, b := q.at(p, i, "date"), q.at(p, j, "date")
		w := nMul(nSub(q.days(q.date), q.days(a)), nInv(nSub(q.days(b), q.days(a))))
		want := nAdd(q.val(p, i), nMul(w, nSub(q.val(p, j), q.val(p, i))))
		if !is1(want) {
			continue
		}
		if q.between(p, e, i) {
			return "between", true
		}
		return "the two prices used are not those around the date", false
	}
	return "it is " + v.String(), false
}

// checkPrices: C15
func checkPrices(r *Report) {
	f := r.fn("book.Book.GetPrice")
	if f == nil {
		return
	}
	days := r.fn("book.Date.AsDays")
	e := r.runFn(f, nil, asPure("book.Date.AsDays"))
	c := shortFn(f)
	date, unit, ccy := param(f, 1), param(f, 2), param(f, 3)
	dayT := func(d *Term) *Term { return T.mk(OCall, callName(days), days.Signature.Results().At(0).Type(), d) }
	got := map[string]int{}
	for _, p := range e.returns() {
		v := p.Load(numLoc(p.Results[0]), nil)
		same := cmp0("=", nSub(unit, ccy))
		if p.Holds(same) || p.Holds(mkEq(unit, ccy)) {
			got["same"]++
			r.need(v == cInt(1), "rate", c+" same", p.Pos, "the rate of a currency to itself is not 1")
			continue
		}
		r.need(p.Not(same) || p.Not(mkEq(unit, ccy)), "rate", c+" same", p.Pos, "a price is looked for although both currencies may be the same")
		// which lists there are
		st := map[string]int{}
		list := map[string]*Term{}
		for _, fc := range p.Facts() {
			fc.Cond.any(func(t *Term) bool {
				if (t.Op == OMapHas || t.Op == OMapEnt) && len(t.Args) == 2 && t.Args[1].Op == OStruct && len(t.Args[1].Args) == 2 {
					k := ""
					switch {
					case t.Args[1].Args[0] == unit && t.Args[1].Args[1] == ccy:
						k = "direct"
					case t.Args[1].Args[0] == ccy && t.Args[1].Args[1] == unit:
						k = "inverse"
					}
					if k == "" || !strings.Contains(rootPath(t.Args[0]), "prices") {
						return false
					}
					mt, lt := mapOf(t.Args[0])
					if lt == nil {
						return false
					}
					ent := p.LoadAt(nil, mapEnt(t.Args[0], t.Args[1], mt), lt)
					list[k] = ent
					has := p.LoadAt(nil, T.mk(OMapHas, "", nil, t.Args[0], t.Args[1]), boolT())
					switch {
					case p.Holds(has) || p.Holds(cmp0(">", mkLen(ent))) || p.notNil(ent):
						st[k] = 1
					case p.Not(has) || p.Holds(cmp0("=", mkLen(ent))) || p.isNil(ent):
						st[k] = -1
					}
				}
				return false
			})
		}
		switch {
		case st["direct"] == 1:
			q := quotes{list["direct"], date, dayT}
			if q.impossible(p) {
				continue
			}
			why, ok := q.rate(p, e, v, false)
			got["direct "+why]++
			r.need(ok, "rate", c+" direct", p.Pos, "with prices from the one to the other currency: %s", why)
		case st["direct"] == -1 && st["inverse"] == 1:
			q := quotes{list["inverse"], date, dayT}
			if q.impossible(p) {
				continue
			}
			why, ok := q.rate(p, e, v, true)
			got["inverse "+why]++
			r.need(ok, "rate", c+" inverse", p.Pos, "with prices the other way only, 1/rate: %s", why)
		case st["direct"] == -1 && st["inverse"] == -1:
			got["none"]++
			r.need(v == cInt(1), "rate", c+" none", p.Pos, "without any price the rate is not 1 but %v", v)
			pt := p.Results[1]
			r.need(pt == constOf("book", "PriceTypeNone"), "rate", c+" none", p.Pos, "that there is no price is not told")
		default:
			r.need(false, "rate", c, p.Pos, "not decided by which prices there are")
		}
	}
	for _, k := range []string{"same", "direct exact", "direct before", "direct after", "direct between", "inverse exact", "inverse before", "inverse after", "inverse between", "none"} {
		r.need(got[k] > 0, "rate", c+" "+k, f.Pos(), "no path for this case")
	}
	checkPriceLists(r)
	checkDays(r, days)
}

func callName(f *ssa.Function) string { return shortName(f.String()) }

// checkPriceLists: every price given is kept with its pair, and each list is ordered by date
func checkPriceLists(r *Report) {
	if f := r.fn("book.Builder.AddPrice"); f != nil {
		e := r.runFn(f, nil, Config{})
		c := shortFn(f)
		date, unit, ccy, val := param(f, 1), param(f, 2), param(f, 3), param(f, 4)
		n := 0
		for _, p := range e.returns() {
			var ent *Term
			k := 0
			for _, w := range p.writesSince(nil) {
				if w.addr.Op != OMapEnt {
					continue
				}
				key := w.addr.Args[1]
				if key.Op == OStruct && len(key.Args) == 2 && key.Args[0] == unit && key.Args[1] == ccy {
					ent = w.addr
				}
				k++
			}
			if !r.need(k == 1 && ent != nil, "price-kept", c, p.Pos, "the price is not kept with its pair of currencies") {
				continue
			}
			n++
			mt, lt := mapOf(ent.Args[0])
			old := p.LoadAt(nil, mapEnt(ent.Args[0], ent.Args[1], mt), lt)
			v := p.Load(ent, lt)
			var el *Term
			switch {
			case v.Op == OAppend && len(v.Args) == 2 && (v.Args[0] == old || noneYet(p, ent) && zeroLen(v.Args[0])):
				el = v.Args[1]
			case noneYet(p, ent):
				if r.need(mkLen(v) == cInt(1), "price-kept", c, p.Pos, "the first price of a pair does not make a list of one") {
					el = p.Load(idxAddr(v, cInt(0), elemType(lt)), elemType(lt))
				}
			}
			if !r.need(el != nil, "price-kept", c, p.Pos, "the prices of the pair before are lost: %v", v) {
				continue
			}
			r.need(getF(el, "book.Price", "date") == date && getF(el, "book.Price", "val") == val, "price-kept", c, p.Pos, "the price is not kept with its date and value: %v", el)
		}
		r.need(n > 0, "price-kept", c, f.Pos(), "never keeps")
	}
	// ordered
	nb := 0
	for _, root := range []string{"book.Builder.Build", "book.Book.RegexCCY"} {
		f := r.fn(root)
		if f == nil {
			continue
		}
		e := r.runFn(f, nil, Config{})
		c := shortFn(f)
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				continue
			}
			// the book's prices
			var data *Term
			for _, w := range p.writesSince(nil) {
				if isFieldAddr(w.addr, "book.Book") && strings.Contains(fieldName(w.addr), "prices") {
					data = w.val
				}
			}
			if data == nil {
				for _, x := range p.Results {
					if isNew(x) && x.Typ != nil && isType(deref(x.Typ), "book.Book") {
						data = p.Load(fld(x, "book.Book", "prices"), fldT("book.Book", "prices"))
					}
				}
			}
			if !r.need(data != nil, "price-order", c, p.Pos, "the book gets no prices") {
				continue
			}
			m := p.Load(fld(data, "book.priceBook", "data"), fldT("book.priceBook", "data"))
			ok := false
			for _, l := range p.loopsOn() {
				for _, s := range p.scans(l) {
					if s.key == nil {
						continue
					}
					all := len(l.Backs) > 0
					hits := 0
					for _, b := range l.Backs {
						for _, w := range b.writesSince(l.IterMem) {
							if w.addr.Op != OMapEnt || w.addr.Args[0] != m {
								continue
							}
							hits++
							src := s.elem(b)
							r.need(w.addr.Args[1] == s.key || sameStruct(w.addr.Args[1], s.key), "price-order", c+" pair", b.Pos, "prices are kept under another pair")
							r.need(copied(b, w.val, src), "price-order", c+" all", b.Pos, "not every price of the pair is kept: %v", w.val)
							sorted := w.val == src && false
							for _, ev := range filterCalls(b.in(l), func(ev *Event) bool {
								return ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable" || strings.HasPrefix(ev.Name, "slices.Sort")
							}) {
								a := ev.Args[0]
								if a.Op == OIface {
									a = a.Args[0]
								}
								if a != w.val {
									continue
								}
								sorted = true
								checkSort(r, "price-order", f, ev, "book.Price", []string{"date"})
							}
							r.need(sorted, "price-order", c, b.Pos, "the prices of a pair are not ordered by date")
						}
					}
					if all && hits == len(l.Backs) {
						ok = true
						nb++
					}
				}
			}
			r.need(ok, "price-order", c, p.Pos, "not the prices of every pair are kept")
		}
	}
	r.need(nb >= 2, "price-order", "places", noPos, "prices are not ordered wherever they are made (%d)", nb)
}

// noneYet: the map entry is not there before the path
func noneYet(p *Path, ent *Term) bool {
	mt, lt := mapOf(ent.Args[0])
	has := p.LoadAt(nil, T.mk(OMapHas, "", nil, ent.Args[0], ent.Args[1]), boolT())
	v := p.LoadAt(nil, mapEnt(ent.Args[0], ent.Args[1], mt), lt)
	return p.Not(has) || p.isNil(v) || p.Holds(cmp0("=", mkLen(v)))
}

// sameStruct: a value put together from every field of another
func sameStruct(t, of *Term) bool {
	if t == of {
		return true
	}
	if t.Op != OStruct {
		return false
	}
	for i, a := range t.Args {
		if a != mkField(of, i, a.Typ) {
			return false
		}
	}
	return len(t.Args) > 0
}

// copied: v is a new list with the elements of src
func copied(b *Path, v, src *Term) bool {
	if v.Op == OAppendS && zeroLen(v.Args[0]) && v.Args[1] == src {
		return true
	}
	if v == src {
		return true
	}
	for _, ev := range b.calls(named("copy", "slices.Clone")) {
		if ev.Name == "copy" && len(ev.Args) == 2 && ev.Args[0] == v && ev.Args[1] == src && b.Holds(cmp0("=", nSub(mkLen(v), mkLen(src)))) {
			return true
		}
		if ev.Res == v && len(ev.Args) == 1 && ev.Args[0] == src {
			return true
		}
	}
	return v.Op == OCall && strings.HasPrefix(v.Aux, "slices.Clone") && v.Args[0] == src
}

// checkDays: the distance of two dates is that of the days they are
func checkDays(r *Report, days *ssa.Function) {
	if days == nil {
		return
	}
	f := r.fn("book.Date.DaysSince")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, asPure("book.Date.AsDays"))
	for _, p := range e.returns() {
		d := func(t *Term) *Term {
			return T.mk(OCall, callName(days), days.Signature.Results().At(0).Type(), t)
		}
		r.need(p.Results[0] == nSub(d(param(f, 0)), d(param(f, 1))), "days", shortFn(f), p.Pos, "it is not the distance in days")
	}
}
