package main

// Selecting whole transactions by date, account or another book; the operations by name.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// selection: on return path p the book at b holds the transactions l went over that were kept
type selection struct {
	l           *Loop
	idx         *Term
	post, trans carrier
}

// findSelection finds the loop over every transaction the book at b had, in which the lists it
// ends up with are made
func findSelection(p *Path, b *Term) (*selection, string) {
	pa, _ := bookField(b, "post")
	ta, tr0 := bookField(b, "trans")
	post := p.Load(pa, fldT("book.Book", "post"))
	tr := p.Load(ta, fldT("book.Book", "trans"))
	why := "no loop goes over every transaction"
	for _, l := range p.loopsOn() {
		i, ok := p.idxScan(l, mkLen(tr0))
		if !ok {
			continue
		}
		var sp, st *carrier
		for _, c := range l.carriers() {
			c := c
			if c.v == post || c.addr == pa {
				sp = &c
			}
			if c.v == tr || c.addr == ta {
				st = &c
			}
		}
		if sp == nil || st == nil {
			why = "the lists the book ends up with are not made by going over its transactions"
			continue
		}
		if !p.Holds(cmp0("=", mkLen(sp.entry))) || !p.Holds(cmp0("=", mkLen(st.entry))) {
			why = "the lists made do not start empty"
			continue
		}
		return &selection{l, i, *sp, *st}, ""
	}
	return nil, why
}

// extends: v is base with every element of slice el added
func extends(b *Path, v, base, el *Term) bool {
	if v.Op == OAppendS && v.Args[0] == base && v.Args[1] == el {
		return true
	}
	if v.Op == OLoopVar && v.Loop != nil && v.Loop.Entry[v] == base {
		l := v.Loop
		i, ok := b.idxScan(l, mkLen(el))
		if !ok {
			return false
		}
		et := elemType(el.Typ)
		for _, ib := range l.Backs {
			nx := ib.Next[v]
			if nx.Op != OAppend || len(nx.Args) != 2 || nx.Args[0] != v || et == nil {
				return false
			}
			want := ib.LoadAt(l.IterMem, idxAddr(el, i, et), et)
			if nx.Args[1] != want {
				return false
			}
		}
		return len(l.Backs) > 0
	}
	return false
}

// kept says whether the iteration keeps the transaction: 1 whole, -1 not, 0 neither
func (s *selection) kept(b *Path, tr0 *Term) (int, string) {
	np, nt := s.post.next(b), s.trans.next(b)
	if np == s.post.v && nt == s.trans.v {
		return -1, ""
	}
	el := b.LoadAt(s.l.IterMem, idxAddr(tr0, s.idx, elemType(tr0.Typ)), elemType(tr0.Typ))
	if !extends(b, np, s.post.v, el) {
		return 0, fmt.Sprintf("its postings are not all kept: %v", np)
	}
	if nt.Op != OAppend || len(nt.Args) != 2 || nt.Args[0] != s.trans.v {
		return 0, fmt.Sprintf("it is not kept once: %v", nt)
	}
	x := nt.Args[1]
	if x == el {
		return 1, ""
	}
	if x.Op == OSlice && x.Args[0] == np && x.Args[1] == mkLen(s.post.v) && b.Holds(cmp0("=", nSub(x.Args[2], mkLen(np)))) {
		return 1, ""
	}
	return 0, fmt.Sprintf("it is kept as %v", x)
}

// transElem: the transaction an iteration is about, and fields of its first posting
func (s *selection) elem(b *Path, tr0 *Term) *Term {
	et := elemType(tr0.Typ)
	return b.LoadAt(s.l.IterMem, idxAddr(tr0, s.idx, et), et)
}

// checkSelection: a filter keeps a transaction whole exactly when want says so (1 keep, -1 drop, 0 not known)
func checkSelection(r *Report, rule string, f *ssa.Function, p *Path, b *Term, want func(bk *Path, el *Term) int) {
	c := shortFn(f)
	_, tr0 := bookField(b, "trans")
	s, why := findSelection(p, b)
	if !r.need(s != nil, rule+"-every", c, p.Pos, "%s", why) {
		return
	}
	keeps, drops := 0, 0
	for _, bk := range s.l.Backs {
		k, why := s.kept(bk, tr0)
		if !r.need(k != 0, rule+"-whole", c, bk.Pos, "a transaction is kept but %s", why) {
			continue
		}
		w := want(bk, s.elem(bk, tr0))
		if w == 2 {
			continue // cannot be followed
		}
		if k == 1 {
			keeps++
			r.need(w == 1, rule, c, bk.Pos, "a transaction is kept that should not be, or may not be")
		} else {
			drops++
			r.need(w == -1, rule, c, bk.Pos, "a transaction is dropped that should be kept, or may have to be")
		}
		if w, ok := untouched(bk, s.l.IterMem); !ok {
			r.need(false, rule+"-whole", c, bk.Pos, "a posting is changed: %s", w)
		}
	}
	r.need(keeps > 0 && drops > 0, rule, c, f.Pos(), "does not select")
}

// unchanged: the book's lists are what they were
func unchangedBook(p *Path, b *Term) bool {
	pa, p0 := bookField(b, "post")
	ta, t0 := bookField(b, "trans")
	return p.Load(pa, fldT("book.Book", "post")) == p0 && p.Load(ta, fldT("book.Book", "trans")) == t0
}

func firstOf(b *Path, m *Mem, el *Term, name string) *Term { return elemF(b, m, el, cInt(0), name) }

// checkDates: C09
func checkDates(r *Report) {
	for _, x := range []struct {
		name  string
		since bool
	}{{"book.Book.FilterByDateSince", true}, {"book.Book.FilterByDateAsof", false}} {
		f := r.fn(x.name)
		if f == nil {
			continue
		}
		c := shortFn(f)
		e := r.run(x.name, Config{})
		b, lim := param(f, 0), param(f, 1)
		n := 0
		for _, p := range e.returns() {
			if p.Holds(cmp0("=", lim)) {
				r.need(unchangedBook(p, b) || p.loopsOn() != nil, "date-none", c, p.Pos, "no date given, but the book changes")
				if unchangedBook(p, b) {
					continue
				}
			}
			n++
			since := x.since
			checkSelection(r, "date-select", f, p, b, func(bk *Path, el *Term) int {
				d := firstOf(bk, nil, el, "date")
				// any posting of the transaction has its date
				before := cmp0("<", nSub(d, lim))
				switch {
				case bk.Holds(before) != since && bk.Not(before) == since && (bk.Holds(before) || bk.Not(before)):
					return 1
				case bk.Holds(before) || bk.Not(before):
					return -1
				}
				return 0
			})
		}
		r.need(n > 0, "date-select", c, f.Pos(), "never selects")
	}
	checkRegisterDates(r)
	checkDateCalls(r)
	r.atLeast("date-select", 4)
}

// checkRegisterDates: the register keeps the entries from the first one on or after the first
// date up to the one before the first on or after the second
func checkRegisterDates(r *Report) {
	f, e := r.fn("book.RegistryReport.FilterByDate"), (*Engine)(nil)
	if f == nil {
		return
	}
	e = r.runFn(f, nil, asPure("book.DateFromString"))
	c := shortFn(f)
	rep := param(f, 0)
	df := func(i int) *Term { return T.mk(OCall, "book.DateFromString", fldT(tPosting, "date"), param(f, i)) }
	min, max := df(1), df(2)
	v0 := loadTM(nil, newFacts(), rep, deref(rep.Typ))
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			not := func(d *Term, i int) bool { return p.Holds(cmp0("=", d)) && p.Not(cmp0("=", mkLen(param(f, i)))) }
			r.need(not(min, 1) || not(max, 2), "date-refused", c, p.Pos, "the dates are refused although both are valid")
			continue
		}
		// a date that is not one is an error
		for i, d := range []*Term{min, max} {
			s := param(f, i+1)
			r.need(p.Not(cmp0("=", d)) || p.Holds(cmp0("=", mkLen(s))), "date-valid", c, p.Pos, "a date that is not valid is taken as no date")
		}
		v := p.Load(rep, deref(rep.Typ))
		lim := func(d *Term, i int) []*Term {
			if p.Holds(cmp0("=", mkLen(param(f, i)))) {
				return []*Term{cInt(0), d}
			}
			return []*Term{d}
		}
		mins, maxs := lim(min, 1), lim(max, 2)
		none := func(l []*Term) bool { return l[0] == cInt(0) || p.Holds(cmp0("=", l[0])) }
		if none(mins) && none(maxs) && v == v0 {
			continue
		}
		n++
		var fails *Report
		for _, mn := range mins {
			for _, mx := range maxs {
				t := newReport(r.prop, r.tier)
				checkRange(t, c, f, p, v0, v, mn, mx)
				if len(t.viol) == 0 {
					fails = t
				} else if fails == nil {
					fails = t
				} else if len(fails.viol) > 0 {
					fails = t
				}
			}
		}
		r.merge(fails)
	}
	r.need(n > 0, "register-dates", c, f.Pos(), "never selects")
}

// resolve replaces what a loop that never goes round carries by what it starts with
func resolve(t *Term) *Term {
	for k := 0; k < 10; k++ {
		m := map[*Term]*Term{}
		t.any(func(x *Term) bool {
			if x.Op == OLoopVar && x.Loop != nil && len(x.Loop.Backs) == 0 && x.Loop.Entry[x] != nil {
				m[x] = x.Loop.Entry[x]
			}
			return false
		})
		if len(m) == 0 {
			break
		}
		t = subst(t, m)
	}
	return t
}

// checkRange: v is the part of the ordered list v0 from the first entry not before min to the
// first not before max
func checkRange(r *Report, c string, f *ssa.Function, p *Path, v0, v, min, max *Term) {
	if v.Op == OAppend || v.Op == OLoopVar {
		checkRangeKeep(r, c, f, p, v0, v, min, max)
		return
	}
	lo, hi := cInt(0), mkLen(v0)
	if v.Op == OSlice {
		if v.Args[0] != v0 {
			r.need(false, "register-dates", c, p.Pos, "what is left is not part of the register")
			return
		}
		lo, hi = resolve(v.Args[1]), resolve(v.Args[2])
	} else if v != v0 {
		r.need(false, "register-dates", c, p.Pos, "what is left is not part of the register: %v", v)
		return
	}
	date := func(q *Path, m *Mem, i *Term) *Term {
		et := elemType(v0.Typ)
		ptr := q.LoadAt(m, idxAddr(v0, i, et), et)
		return q.LoadAt(m, fld(ptr, "book.RegistryEntry", "Date"), fldT("book.RegistryEntry", "Date"))
	}
	// every entry left out on the low side is before min, and on the high side not before max:
	// an empty result needs no entry in range
	for _, l := range p.loopsOn() {
		for _, bk := range l.Backs {
			_ = bk
		}
	}
	okLo, why := rangeEnd(p, v0, lo, min, max, nil, date, true)
	r.need(okLo, "register-dates", c+" first", p.Pos, "the first entry shown is not decided to be the first on or after the first date: %s", why)
	if lo == hi || p.Holds(cmp0("=", nSub(lo, hi))) {
		return
	}
	okHi, why := rangeEnd(p, v0, hi, max, nil, lo, date, false)
	r.need(okHi, "register-dates", c+" last", p.Pos, "the entries do not stop before the second date: %s", why)
}

// rangeEnd decides that at is the index of the first entry with a date not before lim (or the
// number of entries if there is none); for the low end nothing in range needs to be left when
// the scan stopped at an entry not before stop
func rangeEnd(p *Path, v0, at, lim, stop, lo *Term, date func(*Path, *Mem, *Term) *Term, low bool) (bool, string) {
	none := p.Holds(cmp0("=", lim))
	n := mkLen(v0)
	notBefore := func(q *Path, i *Term) bool { return q.Not(cmp0("<", nSub(date(q, nil, i), lim))) }
	before := func(q *Path, i *Term) bool { return q.Holds(cmp0("<", nSub(date(q, nil, i), lim))) }
	if none && !low && p.Holds(cmp0("=", nSub(at, n))) {
		return true, ""
	}
	// no entry has a negative date
	if none && low && p.Holds(cmp0("=", at)) {
		return true, ""
	}
	for _, l := range p.loopsOn() {
		for _, v := range l.Vars {
			if !isIntT(v.Typ) || len(l.Backs) == 0 {
				continue
			}
			good := true
			for _, b := range l.Backs {
				if b.Next[v] != nAdd(v, cInt(1)) {
					good = false
				}
			}
			// the entry an iteration is about
			i := v
			from := l.Entry[v] == cInt(0)
			if l.Entry[v] == cInt(-1) {
				i, from = nAdd(v, cInt(1)), true
			}
			// the second end can be looked for from the first on
			if !low && resolve(l.Entry[v]) == lo {
				from = true
			}
			if !good || !from {
				continue
			}
			ended := p.Holds(bNot(cmp0("<", nSub(i, n))))
			// (1) the end is where this loop stopped: at the index or at the length
			if at == i || at == n && ended || p.Holds(cmp0("=", nSub(at, i))) {
				all := true
				for _, b := range l.Backs {
					if !before(b, i) && (low || !b.Holds(cmp0("=", lim))) {
						all = false
					}
				}
				if all && (ended || low && none || notBefore(p, i) && (low || p.Not(cmp0("=", lim)))) {
					return true, ""
				}
			}
			// (2) an index noted on the way: -1 until the first entry not before lim
			w := at
			if at.Op != OLoopVar || at.Loop != l || at == v {
				// not noted, or noted in the last, unfinished iteration
				for _, x := range l.Vars {
					if x == v || !isIntT(x.Typ) || l.Entry[x] != cInt(-1) {
						continue
					}
					if noted(l, x, i, lim, date) {
						// nothing noted so far: all before lim
						if !p.Holds(cmp0("=", nAdd(x, cInt(1)))) {
							continue
						}
						if at == i && (none || notBefore(p, i)) {
							return true, ""
						}
						// nothing in range: everything seen is before lim, the rest not before stop
						if at == cInt(0) && low {
							if ended {
								return true, ""
							}
							if stop != nil && p.Not(cmp0("<", nSub(date(p, nil, i), stop))) && p.Not(cmp0("=", stop)) {
								return true, ""
							}
						}
					}
				}
				continue
			}
			if noted(l, w, i, lim, date) && p.Not(cmp0("=", nAdd(w, cInt(1)))) {
				return true, ""
			}
		}
	}
	return false, fmt.Sprint(at)
}

// noted: w is -1 while every entry so far is before lim, and otherwise the index of the first that is not
func noted(l *Loop, w, i, lim *Term, date func(*Path, *Mem, *Term) *Term) bool {
	if l.Entry[w] != cInt(-1) {
		return false
	}
	for _, b := range l.Backs {
		nx := b.Next[w]
		unset := cmp0("=", nAdd(w, cInt(1)))
		if b.Not(unset) {
			if nx != w {
				return false
			}
			continue
		}
		f := b.facts.clone()
		if !f.assume(unset, true) {
			continue
		}
		nb := cmp0("<", nSub(date(b, nil, i), lim))
		if nx == i {
			if f.decide(nb) != -1 && f.decide(cmp0("=", lim)) != 1 {
				return false
			}
			continue
		}
		if nx == w || nx == cInt(-1) {
			if f.decide(nb) != 1 {
				return false
			}
			continue
		}
		return false
	}
	return len(l.Backs) > 0
}

// checkRangeKeep: the entries are chosen one by one
func checkRangeKeep(r *Report, c string, f *ssa.Function, p *Path, v0, v, min, max *Term) {
	et := elemType(v0.Typ)
	if v.Op != OLoopVar || v.Loop == nil {
		r.need(false, "register-dates", c, p.Pos, "what is left is not decided: %v", v)
		return
	}
	l := v.Loop
	i, ok := p.idxScan(l, mkLen(v0))
	if !r.need(ok && p.Holds(cmp0("=", mkLen(l.Entry[v]))), "register-dates", c, p.Pos, "not every entry is looked at") {
		return
	}
	for _, b := range l.Backs {
		ptr := b.LoadAt(l.IterMem, idxAddr(v0, i, et), et)
		d := b.LoadAt(l.IterMem, fld(ptr, "book.RegistryEntry", "Date"), fldT("book.RegistryEntry", "Date"))
		okMin := b.Holds(cmp0("=", min)) || b.Not(cmp0("<", nSub(d, min)))
		okMax := b.Holds(cmp0("=", max)) || b.Holds(cmp0("<", nSub(d, max)))
		noMin := b.Holds(cmp0("<", nSub(d, min)))
		noMax := b.Not(cmp0("=", max)) && b.Not(cmp0("<", nSub(d, max)))
		nx := b.Next[v]
		switch {
		case nx == v:
			r.need(noMin || noMax, "register-dates", c, b.Pos, "an entry in the range of dates is dropped")
		case nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == v && nx.Args[1] == ptr:
			r.need(okMin && okMax, "register-dates", c, b.Pos, "an entry outside of the range of dates is kept")
		default:
			r.need(false, "register-dates", c, b.Pos, "an entry is not kept as it is")
		}
	}
}

// asPure keeps calls of the named functions as functions of their arguments
func asPure(names ...string) Config {
	m := map[*ssa.Function]bool{}
	for _, n := range names {
		if f := lookup(n); f != nil {
			m[f] = true
		}
	}
	return Config{Mode: func(f *ssa.Function) Mode {
		if m[f] {
			return MPure
		}
		return MInline
	}}
}

// checkDateCalls: a date given as text for since or asof is the date of the text, and a text
// that is no date is an error
func checkDateCalls(r *Report) {
	parse := r.fn("book.DateFromString")
	since, asof := r.fn("book.Book.FilterByDateSince"), r.fn("book.Book.FilterByDateAsof")
	if parse == nil || since == nil || asof == nil {
		return
	}
	n := 0
	for _, x := range []*ssa.Function{since, asof} {
		seen := map[*ssa.Function]bool{}
		for _, cf := range callersOf(x) {
			root := cf
			if seen[root] {
				continue
			}
			seen[root] = true
			e := AnalyseWith(root, nil, nil, Config{Mode: func(g *ssa.Function) Mode {
				if relPkg(pkgOf(g)) == "book" {
					return MEvent
				}
				return MInline
			}})
			r.took(e, root)
			for _, p := range e.Paths {
				for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn == x }) {
					n++
					d := ev.Args[1]
					from := false
					for _, pe := range p.calls(func(ev *Event) bool { return ev.Fn == parse }) {
						if pe.Res == d {
							from = true
						}
					}
					r.need(from, "date-given", shortFn(root)+" "+x.Name(), ev.Pos, "the date is not the one given: %v", d)
					r.need(p.Not(cmp0("=", d)), "date-given", shortFn(root)+" "+x.Name(), ev.Pos, "a text that is not a date is accepted")
				}
			}
		}
	}
	r.atLeast("date-given", 6)
	// the register's range is the one asked for
	if f := r.fn("book.RegistryReport.FilterByDate"); f != nil {
		ext := r.fn("book.Book.ExtractRegister")
		k := 0
		seen := map[*Event]bool{}
		done := map[*ssa.Function]bool{}
		for _, cf := range append(callersOf(ext), callersOf(f)...) {
			if t := topFn(cf); done[t] {
				continue
			} else {
				done[t] = true
			}
			e := r.runFn(topFn(cf), nil, outside(relPkg(pkgOf(cf))))
			for _, p := range e.Paths {
				if p.Kind == "panic" || p.Kind == "return" && retErr(p) == 1 {
					continue
				}
				var open *Event
				for _, ev := range p.Events() {
					if ev.Kind != "call" {
						continue
					}
					if ev.Fn == ext {
						r.need(open == nil, "register-range", shortFn(cf), ev.Pos, "a register is not restricted to the dates asked for")
						open = ev
					}
					if ev.Fn != f {
						continue
					}
					open = nil
					if seen[ev] {
						continue
					}
					seen[ev] = true
					k++
					a, b := ev.Args[1], ev.Args[2]
					r.need(fieldOf(a) == "BeginDate" && fieldOf(b) == "EndDate", "register-range", shortFn(cf), ev.Pos, "the range of dates is not the one asked for: %v to %v", a, b)
				}
				if open != nil && open.Loop == nil || open != nil && p.Kind == "back" {
					r.need(false, "register-range", shortFn(cf), open.Pos, "a register is not restricted to the dates asked for")
				}
			}
		}
		r.need(k >= 2, "register-range", "register", f.Pos(), "the range of dates is not applied everywhere (%d places)", k)
	}
}

// fieldOf is the name of the field a value was read from
func fieldOf(t *Term) string {
	if t == nil || (t.Op != OLd && t.Op != OInit) || len(t.Args) == 0 || t.Args[0].Op != OFld {
		return ""
	}
	n := fieldName(t.Args[0])
	if i := strings.LastIndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// eqStr: the text constants the path knows values to be equal to
func (p *Path) eqStr(pick func(x *Term, s string) bool) (r []string) {
	for _, f := range p.Facts() {
		if !f.Val || f.Cond.Op != OCmp {
			continue
		}
		if x, k := strSides(f.Cond); x != nil && pick(x, k.strVal()) {
			r = append(r, k.strVal())
		}
	}
	return
}
