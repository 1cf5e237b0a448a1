package main

// The first day of a year, quarter or month; grouping a book by period.

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// floorDiv is a/c rounded towards zero, for values that are not negative, with everything that
// divides evenly taken out and divisions of divisions joined
func floorDiv(a *Term, c int64) *Term {
	pl := polyOf(a)
	out, rest := cInt(0), cInt(0)
	for _, k := range pl.keys() {
		m := pl.m[k]
		x := cNum(new(big.Rat).Quo(m.c, new(big.Rat).SetInt64(c)))
		t := cNum(m.c)
		for _, f := range m.f {
			for i := 0; i < f.e; i++ {
				t = nMul(t, f.t)
				x = nMul(x, f.t)
			}
			if f.e < 0 {
				return T.mk(OBin, "/", a.Typ, a, cInt(c))
			}
		}
		if new(big.Rat).Quo(m.c, new(big.Rat).SetInt64(c)).IsInt() && len(m.f) > 0 {
			out = nAdd(out, x)
		} else {
			rest = nAdd(rest, t)
		}
	}
	if k, ok := polyOf(rest).constant(); ok && k.IsInt() {
		q := new(big.Int).Div(k.Num(), big.NewInt(c))
		return nAdd(out, cNum(new(big.Rat).SetInt(q)))
	}
	// (x/a)/c = x/(a*c)
	if rest.Op == OBin && rest.Aux == "/" {
		if k, ok := polyOf(rest.Args[1]).constant(); ok && k.IsInt() {
			return nAdd(out, floorDiv(rest.Args[0], k.Num().Int64()*c))
		}
	}
	return nAdd(out, T.mk(OBin, "/", nil, rest, cInt(c)))
}

// normInt rewrites divisions and remainders by constants to one form
func normInt(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.Op == OPoly:
			m := map[*Term]*Term{}
			for _, k := range t.Poly.keys() {
				for _, f := range t.Poly.m[k].f {
					m[f.t] = rec(f.t)
				}
			}
			r = subst(t, m)
		case t.Op == OBin && (t.Aux == "/" || t.Aux == "%"):
			a := rec(t.Args[0])
			k, ok := polyOf(t.Args[1]).constant()
			if !ok || !k.IsInt() || k.Sign() <= 0 {
				r = t
				break
			}
			q := floorDiv(a, k.Num().Int64())
			if t.Aux == "/" {
				r = q
			} else {
				r = nSub(a, nMul(cNum(k), q))
			}
		case t.Op == OConv && len(t.Args) == 1 && isIntT(t.Typ):
			r = rec(t.Args[0])
		default:
			r = t
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// firstDay decides that v is the first day of the year, quarter or month of date d, diff
// further on
func firstDay(p *Path, v, d *Term, by string, diff *Term) (string, bool) {
	v, diff = resolve(v), normInt(diff)
	year := floorDiv(d, 10000)
	month := nSub(floorDiv(d, 100), nMul(cInt(100), year))
	m0 := nSub(month, cInt(1))
	c := func(k int64, t *Term) *Term { return nMul(cInt(k), t) }
	if by == "yearly" {
		want := nAdd(cInt(101), c(10000, nAdd(year, diff)))
		if normInt(v) == want {
			return "", true
		}
	}
	var n *Term // months since year 0
	switch by {
	case "yearly":
		n = c(12, nAdd(year, diff))
	case "quarterly":
		n = nAdd(c(12, year), c(3, nAdd(floorDiv(m0, 3), diff)))
	case "monthly":
		n = nAdd(nAdd(c(12, year), m0), diff)
	}
	// without loops
	q := T.mk(OBin, "/", nil, n, cInt(12))
	for _, q := range []*Term{q, floorDiv(n, 12)} {
		if normInt(v) == nAdd(cInt(101), nAdd(c(10000, q), c(100, nSub(n, c(12, q))))) {
			return "", true
		}
	}
	if normInt(v) == nAdd(cInt(101), nAdd(c(10000, year), nAdd(c(100, nSub(n, c(12, year))), cInt(0)))) && diff == cInt(0) {
		return "", true
	}
	// year and month carried through loops
	var cand []*Term
	v.any(func(t *Term) bool {
		if t.Op == OLoopVar {
			cand = append(cand, t)
		}
		return false
	})
	cand = append(cand, year)
	for _, y := range cand {
		// v = 101 + 10000y + 100m
		m := nMul(nSub(nSub(v, cInt(101)), c(10000, y)), cNum(big.NewRat(1, 100)))
		if polyOf(m).has(y) || !allInt(m) {
			continue
		}
		E := nAdd(c(12, y), m)
		F := E
		ok := true
		for k := 0; k < 8 && ok; k++ {
			l := loopOf(F)
			if l == nil || normInt(F) == n {
				break
			}
			for _, b := range l.Backs {
				if subst(F, l.backSub(b)) != F {
					ok = false
				}
			}
			F = resolve(subst(F, l.entrySub()))
		}
		if !ok || normInt(F) != n {
			continue
		}
		if !boundedBy(p, m, 0, 11) {
			return "the month may be out of range", false
		}
		return "", true
	}
	return "it is " + v.String(), false
}

func (pl *Poly) has(t *Term) bool {
	for _, m := range pl.m {
		for _, f := range m.f {
			if f.t == t {
				return true
			}
		}
	}
	return false
}

func allInt(t *Term) bool {
	for _, m := range polyOf(t).m {
		if !m.c.IsInt() {
			return false
		}
	}
	return true
}

// loopOf is the innermost loop a term has carried values of (the one begun last)
func loopOf(t *Term) (l *Loop) {
	t.any(func(x *Term) bool {
		if x.Op == OLoopVar && x.Loop != nil && (l == nil || x.Loop.Start > l.Start) {
			l = x.Loop
		}
		return false
	})
	return
}

// boundedBy: lo <= t <= hi at the end of p, by the path's conditions or as every iteration keeps it
func boundedBy(p *Path, t *Term, lo, hi int64) bool {
	okLo, okHi := cmp0("<", nSub(t, cInt(lo))), cmp0(">", nSub(t, cInt(hi)))
	for _, c := range []*Term{okLo, okHi} {
		if p.Not(c) {
			continue
		}
		l := loopOf(t)
		if l == nil || !inductive(l, p.facts, bNot(c)) {
			return false
		}
	}
	return true
}

// periodOf decides that on p the value v is where date d goes when grouped by the text by
func periodOf(p *Path, v, d, by *Term, diff *Term) (which string, why string, ok bool) {
	if by.isStrC() {
		which = by.strVal()
	} else {
		for _, k := range []string{"yearly", "quarterly", "monthly", "today", "none"} {
			if p.Holds(cmp0("=", nSub(by, cStr(k)))) || p.Holds(mkEq(by, cStr(k))) {
				which = k
			}
		}
	}
	if which == "" {
		if v == d {
			return "other", "", true
		}
		for _, k := range []string{"yearly", "quarterly", "monthly", "today"} {
			if !p.Not(cmp0("=", nSub(by, cStr(k)))) {
				return k, "not decided by the kind of period", false
			}
		}
		return "other", "a date is changed although no period is given", v == d
	}
	switch which {
	case "none":
		return which, "the date is changed", v == d
	case "today":
		return which, "it is not today", isToday(v)
	}
	why, ok = firstDay(p, v, d, which, diff)
	return
}

// isToday: v is year, month and day of the time now
func isToday(v *Term) bool {
	var now *Term
	v.any(func(t *Term) bool {
		if t.Op == OFresh && strings.HasPrefix(t.name(), "time.Now") || t.Op == OCall && t.Aux == "time.Now" {
			now = t
		}
		return false
	})
	if now == nil {
		return false
	}
	s := cInt(0)
	v.any(func(t *Term) bool {
		if t.Op == OCall && len(t.Args) == 1 && t.Args[0] == now {
			switch t.Aux {
			case "(time.Time).Year":
				s = nAdd(s, nMul(cInt(10000), t))
			case "(time.Time).Month":
				s = nAdd(s, nMul(cInt(100), t))
			case "(time.Time).Day":
				s = nAdd(s, t)
			}
		}
		return false
	})
	return normInt(v) == s && len(polyOf(s).m) == 3
}

// checkPeriods: C07
func checkPeriods(r *Report) {
	// where a date goes
	if f := r.fn("book.Date.FloorDiff"); f != nil {
		e := r.runFn(f, nil, Config{})
		d, by, diff := param(f, 0), param(f, 1), param(f, 2)
		got := map[string]int{}
		for _, p := range e.returns() {
			k, why, ok := periodOf(p, p.Results[0], d, by, diff)
			got[k]++
			r.need(ok, "period", shortFn(f)+" "+k, p.Pos, "the date is not the first day of the period: %s", why)
		}
		for _, k := range []string{"yearly", "quarterly", "monthly", "today"} {
			r.need(got[k] > 0, "period", shortFn(f)+" "+k, f.Pos(), "the period is not known")
		}
	}
	if f := r.fn("book.Date.Floor"); f != nil {
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			k, why, ok := periodOf(p, p.Results[0], param(f, 0), param(f, 1), cInt(0))
			r.need(ok, "period", shortFn(f)+" "+k, p.Pos, "the date is not the first day of the period: %s", why)
		}
	}
	for _, x := range [][2]string{{"FloorYear", "yearly"}, {"FloorQuarter", "quarterly"}, {"FloorMonth", "monthly"}} {
		f := lookup("book.Date." + x[0])
		if f == nil {
			continue
		}
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			why, ok := firstDay(p, p.Results[0], param(f, 0), x[1], param(f, 1))
			r.need(ok, "period", shortFn(f), p.Pos, "the date is not the first day of the period: %s", why)
		}
	}
	// grouping
	if f, e := opPaths(r, "book.Book.SplitBy"); f != nil {
		b, by := param(f, 0), param(f, 1)
		c := shortFn(f)
		n := 0
		for _, p := range e.returns() {
			s := postScan(p, b, "date")
			if s == nil {
				if unchangedBook(p, b) && p.Holds(cmp0("=", mkLen(loadTM(nil, newFacts(), fld(b, "book.Book", "post"), fldT("book.Book", "post"))))) {
					continue
				}
				r.need(false, "grouped-every", c, p.Pos, "no loop changes every posting")
				continue
			}
			n++
			for _, bk := range s.l.Backs {
				k, why, ok := periodOf(bk, s.after(bk, "date"), s.field(bk, "date"), by, cInt(0))
				r.need(ok, "grouped", c+" "+k, bk.Pos, "the posting does not get the first day of its period: %s", why)
				r.need(s.after(bk, "payee") == cStr(""), "grouped", c+" payee", bk.Pos, "the payee keeps postings of one period apart")
				w, ok := onlyFields(bk, s, "date", "payee")
				r.need(ok, "grouped-only", c, bk.Pos, "more than date and payee is changed: %s", w)
			}
			compacted(r, c, f, p)
		}
		r.need(n > 0, "grouped-every", c, f.Pos(), "never groups")
	}
	r.atLeast("period", 8)
	r.atLeast("grouped", 10)
	checkNamedPeriods(r)
}

// checkNamedPeriods: this, last and next year, quarter and month are counted from today
func checkNamedPeriods(r *Report) {
	f := r.fn("book.DateFromString")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, asPure("book.Date.FloorYear", "book.Date.FloorQuarter", "book.Date.FloorMonth", "book.Date.FloorDiff", "book.GetToday", "book.Date.IsValid"))
	c := shortFn(f)
	seen := map[string]bool{}
	for _, p := range e.returns() {
		v := p.Results[0]
		if v.Op != OCall || !strings.Contains(v.Aux, "Floor") {
			continue
		}
		words := p.eqStr(func(x *Term, s string) bool { return true })
		diff, known := int64(0), false
		unit := ""
		for _, w := range words {
			switch w {
			case "this":
				diff, known = 0, true
			case "last":
				diff, known = -1, true
			case "next":
				diff, known = 1, true
			case "year":
				unit = "Year"
			case "quarter":
				unit = "Quarter"
			case "month":
				unit = "Month"
			}
		}
		// by exclusion
		not := map[string]bool{}
		for _, fc := range p.Facts() {
			if !fc.Val && fc.Cond.Op == OCmp {
				if x, k := strSides(fc.Cond); x != nil {
					not[k.strVal()] = true
				}
			}
		}
		if !known {
			known = not["last"] && not["next"]
			for d, o := range map[int64][2]string{1: {"this", "last"}, -1: {"this", "next"}} {
				if not[o[0]] && not[o[1]] {
					known, diff = true, d
				}
			}
		}
		for u, o := range map[string][2]string{"Year": {"quarter", "month"}, "Quarter": {"year", "month"}, "Month": {"year", "quarter"}} {
			if unit == "" && not[o[0]] && not[o[1]] {
				unit = u
			}
		}
		got := v.Aux
		if strings.HasSuffix(got, "FloorDiff") && len(v.Args) == 3 && v.Args[1].isStrC() {
			got = map[string]string{"yearly": "FloorYear", "quarterly": "FloorQuarter", "monthly": "FloorMonth"}[v.Args[1].strVal()]
		}
		if a := v.Args[len(v.Args)-1]; !known && (a.Op == OLd || a.Op == OInit) && a.Args[0].Op == OMapEnt {
			// looked up in a table
			m := a.Args[0].Args[0]
			known = isNew(m)
			for w, d := range map[string]int64{"this": 0, "last": -1, "next": 1} {
				known = known && p.Load(T.mk(OMapEnt, a.Args[0].Aux, a.Args[0].Typ, m, cStr(w)), a.Typ) == cInt(d)
			}
			if known {
				v = T.mk(OCall, v.Aux, v.Typ, append(append([]*Term{}, v.Args[:len(v.Args)-1]...), cInt(0))...)
				diff = 0
			}
		}
		okd := known && v.Args[len(v.Args)-1] == cInt(diff)
		r.need(okd, "named-period", c+" "+unit, p.Pos, "this, last or next is not what it says: %v", v)
		r.need(unit != "" && strings.HasSuffix(got, "Floor"+unit), "named-period", c+" "+unit, p.Pos, "year, quarter or month is not what it says: %v", v)
		td := v.Args[0]
		r.need(td.Op == OCall && strings.HasSuffix(td.Aux, "GetToday"), "named-period", c+" today", p.Pos, "not counted from today")
		seen[unit] = true
	}
	for _, u := range []string{"Year", "Quarter", "Month"} {
		r.need(seen[u], "named-period", c+" "+u, f.Pos(), "not known")
	}
	if g := r.fn("book.GetToday"); g != nil {
		for _, p := range r.runFn(g, nil, Config{}).returns() {
			r.need(isToday(p.Results[0]), "named-period", shortFn(g), p.Pos, "today is %v", p.Results[0])
		}
	}
}

var _ = ssa.Function{}
