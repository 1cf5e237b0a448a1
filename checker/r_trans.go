package main

// Transactions stay apart: the builder gives each one its own date and payee.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// separates: the key tells apart every two pairs of date and payee
func separates(k, date, payee *Term) (string, bool) {
	isDate := func(t *Term) bool { return t == date || t.Op == OConv && t.Args[0] == date }
	switch k.Op {
	case OStruct:
		d, p := false, false
		for _, a := range k.Args {
			d = d || isDate(a) || fmtOf(a) == date
			p = p || a == payee
		}
		if d && p {
			return "", true
		}
		return "the key has not both the date and the payee", false
	case OConcat:
		di, pi := -1, -1
		for i, a := range k.Args {
			if fmtOf(a) == date && strings.HasPrefix(a.name2(), "fmt:%d") {
				di = i
			}
			if a == payee {
				pi = i
			}
		}
		if di < 0 || pi < 0 {
			return "the key has not both the date and the payee", false
		}
		lo, hi := di, pi
		if lo > hi {
			lo, hi = hi, lo
		}
		sep := ""
		for _, a := range k.Args[lo+1 : hi] {
			if a.isStrC() {
				sep += a.strVal()
			}
		}
		if sep == "" || strings.ContainsAny(sep, "0123456789-") {
			return "date and payee run into each other in the key", false
		}
		return "", true
	}
	return "the key is " + k.String(), false
}

// fmtOf is the value a formatted piece of text shows
func fmtOf(t *Term) *Term {
	if strings.HasPrefix(t.name2(), "fmt:") && len(t.Args) == 1 {
		a := t.Args[0]
		for (a.Op == OConv || strings.HasPrefix(a.Aux, "int")) && len(a.Args) == 1 {
			a = a.Args[0]
		}
		return a
	}
	return nil
}

func (t *Term) name2() string { return t.Aux }

// checkApart: C04
func checkApart(r *Report) {
	f := r.fn("book.Builder.NewTransaction")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	c := shortFn(f)
	b, date, payee, note := param(f, 0), param(f, 1), param(f, 2), param(f, 3)
	bf := func(n string) (*Term, types.Type) { return fld(b, "book.Builder", n), fldT("book.Builder", n) }
	n := 0
	for _, p := range e.returns() {
		n++
		pa, pt := bf("currPayee")
		P := p.Load(pa, pt)
		da, dt := bf("currDate")
		na, nt := bf("currNote")
		r.need(p.Load(da, dt) == date, "kept", c+" date", p.Pos, "the date of the transaction is not the one given")
		r.need(p.Load(na, nt) == note, "kept", c+" note", p.Pos, "the note of the transaction is not the one given")
		ma, mt := bf("prevTrans")
		m := loadTM(nil, newFacts(), ma, mt)
		r.need(p.Load(ma, mt) == m, "remembered", c, p.Pos, "the transactions seen are forgotten")
		// the key noted on this path
		var key *Term
		k := 0
		for x := p.Mem; x != nil; x = x.prev {
			if x.kind == mWrite && x.addr.Op == OMapHas && x.addr.Args[0] == m && x.val.isTrue() {
				key = x.addr.Args[1]
				k++
			}
		}
		if !r.need(k == 1, "unique", c, p.Pos, "the transaction is not noted as seen (%d)", k) {
			continue
		}
		has := loadTM(nil, newFacts(), T.mk(OMapHas, "", nil, m, key), types.Typ[types.Bool])
		isNew := p.Not(has)
		if mm, ok := mt.Underlying().(*types.Map); ok && !isNew {
			isNew = isBoolT(mm.Elem()) && p.Not(loadTM(nil, newFacts(), mapEnt(m, key, mm), mm.Elem()))
			for _, fc := range p.Facts() {
				if !fc.Val && fc.Cond.any(func(x *Term) bool { return (x.Op == OMapHas || x.Op == OMapEnt) && x.Args[0] == m && x.Args[1] == key }) {
					isNew = true
				}
			}
		}
		r.need(isNew, "unique", c, p.Pos, "a date and payee seen before may be used again")
		// the key is the one of the date and the payee used
		E, ok := key, true
		if key.Op == OLoopVar {
			l := key.Loop
			E = subst(l.Entry[key], map[*Term]*Term{payee: P})
			ok = inductiveEq(l, key, E)
		}
		why, sep := separates(E, date, P)
		r.need(ok && sep, "unique-key", c, p.Pos, "what is noted as seen is not the date and payee used: %s", why)
		// the payee is the one given, but for a suffix
		suffixed := func(v *Term) bool { return v == payee || v.Op == OConcat && v.Args[0] == payee }
		good := suffixed(P)
		if lds := P; !good {
			for _, l := range p.loopsOn() {
				for _, cr := range l.carriers() {
					if cr.v != lds {
						continue
					}
					good = suffixed(cr.entry)
					for _, bk := range l.Backs {
						good = good && suffixed(cr.next(bk))
					}
				}
			}
		}
		r.need(good, "kept", c+" payee", p.Pos, "the payee is not the one given with at most something added: %v", P)
		if P != payee {
			// only if the one given was seen
			for _, l := range p.loopsOn() {
				for _, cr := range l.carriers() {
					if cr.v == P {
						r.need(cr.entry == payee, "kept", c+" first", p.Pos, "the payee given is not tried first")
					}
				}
			}
		}
	}
	r.need(n > 0, "unique", c, f.Pos(), "never completes")
	// the postings get it
	if g := r.fn("book.Builder.AddPosting"); g != nil {
		e := r.runFn(g, nil, Config{})
		for _, p := range e.returns() {
			b := param(g, 0)
			ap := appendedTo(p, fld(b, "book.Builder", "post"))
			if !r.need(len(ap) == 1, "posting", shortFn(g), p.Pos, "not one posting is added") {
				continue
			}
			for _, x := range [][2]string{{"date", "currDate"}, {"payee", "currPayee"}, {"tnote", "currNote"}} {
				a := fld(b, "book.Builder", x[1])
				r.need(getF(ap[0], tPosting, x[0]) == loadTM(nil, newFacts(), a, fldT("book.Builder", x[1])), "posting", shortFn(g)+" "+x[0], p.Pos, "the posting does not get it from its transaction")
			}
			for i, x := range []string{"acct", "ccy", "", "note"} {
				if x != "" {
					r.need(getF(ap[0], tPosting, x) == param(g, i+1), "posting", shortFn(g)+" "+x, p.Pos, "the posting does not get what was given")
				}
			}
		}
	}
	// nothing else changes what the builder is at
	for _, g := range allFuncs {
		if g == f || inlinedIn(e, g) {
			continue
		}
		for _, fn := range []string{"currDate", "currPayee", "currNote", "prevTrans"} {
			for _, w := range fieldWrites(g, "book.Builder", fn) {
				r.need(false, "owned", fnKey(g), w, "the builder's %s is changed outside of the start of a transaction", fn)
			}
		}
	}
	r.atLeast("unique", 2)
	r.atLeast("posting", 6)
}

func inlinedIn(e *Engine, f *ssa.Function) bool {
	return e.NCalls[f] > 0 && len(callersOf(f)) > 0
}
