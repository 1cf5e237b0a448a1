package main

// Reasoning about loops: substitution of loop-carried values, simple inductive
// invariants, and whether a scan reaches every element.

import (
	"go/types"
	"math/big"
)

// subst rebuilds t with the replacements made
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.Op == OPoly {
			s := cInt(0)
			for _, k := range t.Poly.keys() {
				mo := t.Poly.m[k]
				x := cNum(mo.c)
				for _, f := range mo.f {
					y := rec(f.t)
					n := f.e
					if n < 0 {
						y = nInv(y)
						n = -n
					}
					for i := 0; i < n; i++ {
						x = nMul(x, y)
					}
				}
				s = nAdd(s, x)
			}
			memo[t] = s
			return s
		}
		if len(t.Args) == 0 {
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		if !ch {
			memo[t] = t
			return t
		}
		var r *Term
		switch t.Op {
		case OCmp:
			r = cmp0(t.Aux, args[0])
		case OEq:
			r = mkEq(args[0], args[1])
			if args[0] == args[1] {
				r = cBool(true)
			}
		case ONot:
			r = bNot(args[0])
		case OLen:
			r = mkLen(args[0])
		case OConcat:
			r = cStr("")
			for _, a := range args {
				r = mkConcat(r, a)
			}
		default:
			r = T.mk(t.Op, t.Aux, t.Typ, args...)
			r.Fn, r.NonN = t.Fn, t.NonN
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// memVars are the locations a loop changes, with their value at the start of an iteration
func (l *Loop) memVars() map[*Term]*Term {
	r := map[*Term]*Term{}
	if l.Changed == nil {
		return r
	}
	for a := range l.Changed.exact {
		if a.Typ != nil {
			r[a] = loadTM(l.IterMem, newFacts(), a, deref(a.Typ))
		}
	}
	return r
}

// entrySub maps what is carried round the loop to its value on entry, backSub to its value
// after the iteration that path b follows
func (l *Loop) entrySub() map[*Term]*Term {
	m := map[*Term]*Term{}
	for k, v := range l.Entry {
		m[k] = v
	}
	for a, v := range l.memVars() {
		m[v] = loadTM(l.EntryMem, newFacts(), a, deref(a.Typ))
	}
	return m
}

func (l *Loop) backSub(b *Path) map[*Term]*Term {
	m := map[*Term]*Term{}
	for k, v := range b.Next {
		m[k] = v
	}
	for a, v := range l.memVars() {
		m[v] = b.Load(a, deref(a.Typ))
	}
	return m
}

// shapes of invariant for one loop-carried value
func shapes(v *Term) []func(*Term) *Term {
	var fs []func(*Term) *Term
	switch {
	case isBoolT(v.Typ):
		fs = append(fs, func(t *Term) *Term { return t }, bNot)
	case isIntT(v.Typ):
		fs = append(fs, func(t *Term) *Term { return cmp0(">", t) }, func(t *Term) *Term { return cmp0("<", t) })
	case v.Typ != nil:
		switch v.Typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			fs = append(fs, func(t *Term) *Term { return cmp0(">", mkLen(t)) })
			fs = append(fs, func(t *Term) *Term { return bNot(mkEq(t, cNil())) })
		case *types.Basic:
			if isStringT(v.Typ) {
				fs = append(fs, func(t *Term) *Term { return cmp0(">", mkLen(t)) })
			}
		case *types.Pointer, *types.Interface:
			fs = append(fs, func(t *Term) *Term {
				if nonNil(t) {
					return cBool(true)
				}
				if t.isNil() {
					return cBool(false)
				}
				return bNot(mkEq(t, cNil()))
			})
		}
	}
	return fs
}

// excluded reports that p, which leaves loop l, cannot follow an execution in which b was
// an iteration: b sets something that every iteration keeps and p's conditions rule out
func excluded(p *Path, l *Loop, b *Path) bool {
	if b.Loop != l {
		return false
	}
	type car struct {
		v    *Term
		next func(*Path) *Term
	}
	var cs []car
	for _, v := range l.Vars {
		v := v
		cs = append(cs, car{v, func(b *Path) *Term { return b.Next[v] }})
	}
	for a, v := range l.memVars() {
		a := a
		cs = append(cs, car{v, func(b *Path) *Term { return b.Load(a, deref(a.Typ)) }})
	}
	for _, c := range cs {
	shape:
		for _, phi := range shapes(c.v) {
			if !p.Not(phi(c.v)) {
				continue
			}
			if !b.Holds(phi(c.next(b))) {
				continue
			}
			for _, o := range l.Backs {
				if o == b {
					continue
				}
				f := o.facts.clone()
				if !f.assume(phi(c.v), true) {
					continue // cannot happen after b
				}
				if f.decide(phi(c.next(o))) != 1 {
					continue shape
				}
			}
			return true
		}
	}
	return false
}

// loopsOn are the loops that were left, or are being left, on the path
func (p *Path) loopsOn() (r []*Loop) {
	seen := map[*Loop]bool{}
	for _, e := range p.Events() {
		if e.Kind == "loop" && !seen[e.Loop] {
			seen[e.Loop] = true
			r = append(r, e.Loop)
		}
	}
	return
}

// mapScan reports the loop iterates over map m to the end on p, and the key term
func (p *Path) mapScan(l *Loop, m *Term) (key *Term, ok bool) {
	for _, b := range l.Backs {
		for _, f := range b.Facts() {
			if f.Val && f.Cond.Op == OFresh && f.Cond.name() == "rangeok" && len(f.Cond.Args) == 1 && f.Cond.Args[0] == m && f.Cond.Seq > l.Start && p.Not(f.Cond) {
				return rangeKey(f.Cond), true
			}
		}
	}
	return nil, false
}

// rangeKey is the key that goes with a "there is another entry" condition
func rangeKey(ok *Term) *Term { return rangeKeys[ok] }

var rangeKeys = map[*Term]*Term{}

// rangeRunes: the characters that go with it for a text
var rangeRunes = map[*Term]*Term{}

// idxScan reports that on p the loop has gone over every index of a slice of length n, each
// exactly once, and gives the index of the element an iteration is about
func (p *Path) idxScan(l *Loop, n *Term) (idx *Term, ok bool) { return p.idxRun(l, n, true) }

// idxRun: exact also wants every iteration to begin before the end, which an iteration that takes several elements may
// show otherwise
func (p *Path) idxRun(l *Loop, n *Term, exact bool) (idx *Term, ok bool) {
	for _, v := range l.Vars {
		if !isIntT(v.Typ) || len(l.Backs) == 0 {
			continue
		}
		var step *big.Rat
		good := true
		for _, b := range l.Backs {
			k, isC := polyOf(nSub(b.Next[v], v)).constant()
			if !isC || step != nil && step.Cmp(k) != 0 {
				good = false
				break
			}
			step = k
		}
		if !good || step == nil || !step.IsInt() || step.Num().BitLen() != 1 {
			continue
		}
		if step.Sign() > 0 {
			// first index 0: idx = v - entry
			c, isC := polyOf(l.Entry[v]).constant()
			if !isC {
				continue
			}
			i := nSub(v, cNum(c))
			if p.Holds(bNot(cmp0("<", nSub(i, n)))) && (!exact || l.within(cmp0("<", nSub(i, n)))) {
				return i, true
			}
		} else {
			// first index n-1
			d := nSub(l.Entry[v], nSub(n, cInt(1)))
			c, isC := polyOf(d).constant()
			if !isC {
				continue
			}
			i := nSub(v, cNum(c))
			if p.Holds(cmp0("<", i)) && (!exact || l.within(bNot(cmp0("<", i)))) {
				return i, true
			}
		}
	}
	return nil, false
}

// within: the condition holds in every iteration
func (l *Loop) within(c *Term) bool {
	for _, b := range l.Backs {
		if b.Loop == l && !b.Holds(c) {
			return false
		}
	}
	return true
}

// inductive reports that the condition holds whenever an iteration of l starts
func inductive(l *Loop, entry *Facts, c *Term) bool {
	if entry.decide(subst(c, l.entrySub())) != 1 {
		return false
	}
	for _, b := range l.Backs {
		f := b.facts.clone()
		if !f.assume(c, true) {
			continue
		}
		if f.decide(subst(c, l.backSub(b))) != 1 {
			return false
		}
	}
	return true
}

// inductiveEq reports a == b whenever an iteration of l starts
func inductiveEq(l *Loop, a, b *Term) bool {
	if a == b {
		return true
	}
	es := l.entrySub()
	if subst(a, es) != subst(b, es) {
		return false
	}
	for _, bk := range l.Backs {
		bs := l.backSub(bk)
		if subst(a, bs) != subst(b, bs) {
			return false
		}
	}
	return true
}
