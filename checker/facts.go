package main

// Branch facts: what the branches taken on a trace partition say about its values.

import (
	"math/big"
	"strings"
)

type Fact struct {
	Cond *Term
	Val  bool
	Prev *Fact
	N    int
}

type interval struct {
	lo, hi         *big.Rat // nil is unbounded
	loOpen, hiOpen bool
	ne             []*big.Rat
}

type Facts struct {
	last  *Fact
	bools map[*Term]bool
	iv    map[*Term]*interval
	streq map[*Term]*Term
	esc   map[*Term]bool    // objects that may be reached from elsewhere
	held  map[*Term][]*Term // objects that were put in an object made here
	in    map[*Term]bool    // the objects in held
	beq   []*boolEq
}

// boolEq: two conditions known to be the same, or each other's opposite
type boolEq struct {
	a, b *Term
	same bool
}

func newFacts() *Facts {
	return &Facts{bools: map[*Term]bool{}, iv: map[*Term]*interval{}, streq: map[*Term]*Term{}, esc: map[*Term]bool{}, held: map[*Term][]*Term{}, in: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{last: f.last, beq: f.beq[:len(f.beq):len(f.beq)], bools: make(map[*Term]bool, len(f.bools)+4), iv: make(map[*Term]*interval, len(f.iv)+4), streq: make(map[*Term]*Term, len(f.streq)), esc: make(map[*Term]bool, len(f.esc)), held: make(map[*Term][]*Term, len(f.held)), in: make(map[*Term]bool, len(f.in))}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.iv {
		c := *v
		g.iv[k] = &c
	}
	for k, v := range f.streq {
		g.streq[k] = v
	}
	for k, v := range f.esc {
		g.esc[k] = v
	}
	for k, v := range f.held {
		g.held[k] = v[:len(v):len(v)]
	}
	for k, v := range f.in {
		g.in[k] = v
	}
	return g
}

func (f *Facts) n() int {
	if f.last == nil {
		return 0
	}
	return f.last.N
}

// integral reports whether every value of the polynomial is an integer
func integral(t *Term) bool {
	for _, m := range polyOf(t).m {
		if !m.c.IsInt() {
			return false
		}
		for _, x := range m.f {
			if x.e < 0 || !(isIntT(x.t.Typ) || x.t.Op == OLen || isSgn(x.t)) {
				return false
			}
		}
	}
	return true
}

func (f *Facts) get(base *Term) *interval {
	if i, ok := f.iv[base]; ok {
		return i
	}
	i := &interval{}
	if base.Op == OLen || base.Op == OCall && base.Aux == "denom" {
		i.lo = new(big.Rat)
		if base.Op == OCall {
			i.loOpen = true
		}
	}
	if isSgn(base) {
		i.lo, i.hi = big.NewRat(-1, 1), big.NewRat(1, 1)
	}
	return i
}

// normCmp turns "n rel 0" into "base rel k" with a normalised base
func normCmp(c *Term) (base *Term, rel string, k *big.Rat) {
	b, kk := splitConst(c.Args[0])
	n, s := normSign(b)
	k = new(big.Rat).Neg(kk)
	k.Quo(k, s)
	rel = c.Aux
	if s.Sign() < 0 {
		if rel == "<" {
			rel = ">"
		} else if rel == ">" {
			rel = "<"
		}
	}
	return n, rel, k
}

func strSides(c *Term) (x, k *Term) {
	// x == "const"
	if c.Aux != "=" || c.Args[0].Op != OPoly {
		return nil, nil
	}
	p := c.Args[0].Poly
	if len(p.m) != 2 {
		return nil, nil
	}
	for _, m := range p.m {
		if len(m.f) != 1 || m.f[0].e != 1 {
			return nil, nil
		}
		if m.f[0].t.isStrC() {
			k = m.f[0].t
		} else {
			x = m.f[0].t
		}
	}
	if x == nil || k == nil {
		return nil, nil
	}
	return x, k
}

// decide returns 1 if the condition must hold, -1 if it can't, 0 if not known
func (f *Facts) decide(c *Term) int {
	switch {
	case c.isTrue():
		return 1
	case c.isFalse():
		return -1
	case c.Op == ONot:
		return -f.decide(c.Args[0])
	}
	if v, ok := f.bools[c]; ok {
		if v {
			return 1
		}
		return -1
	}
	if c.Op == OEq && isBoolT(c.Args[0].Typ) && isBoolT(c.Args[1].Typ) {
		return f.decide(c.Args[0]) * f.decide(c.Args[1])
	}
	if c.Op == OCmp {
		if x, k := strSides(c); x != nil {
			if e, ok := f.streq[x]; ok {
				if e == k {
					return 1
				}
				return -1
			}
			if i, ok := f.iv[T.mk(OLen, "", nil, x)]; ok && len(k.strVal()) > 0 && i.hi != nil && i.hi.Sign() == 0 {
				return -1
			}
		}
		base, rel, k := normCmp(c)
		iv := f.get(base)
		switch rel {
		case "<":
			if iv.hi != nil && (iv.hi.Cmp(k) < 0 || iv.hi.Cmp(k) == 0 && iv.hiOpen) {
				return 1
			}
			if iv.lo != nil && iv.lo.Cmp(k) >= 0 {
				return -1
			}
		case ">":
			if iv.lo != nil && (iv.lo.Cmp(k) > 0 || iv.lo.Cmp(k) == 0 && iv.loOpen) {
				return 1
			}
			if iv.hi != nil && iv.hi.Cmp(k) <= 0 {
				return -1
			}
		case "=":
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 && iv.lo.Cmp(k) == 0 && !iv.loOpen && !iv.hiOpen {
				return 1
			}
			if iv.lo != nil && (iv.lo.Cmp(k) > 0 || iv.lo.Cmp(k) == 0 && iv.loOpen) {
				return -1
			}
			if iv.hi != nil && (iv.hi.Cmp(k) < 0 || iv.hi.Cmp(k) == 0 && iv.hiOpen) {
				return -1
			}
			for _, n := range iv.ne {
				if n.Cmp(k) == 0 {
					return -1
				}
			}
		}
		return f.decideDiff(base, rel, k)
	}
	if c.Op == OTAssertOK {
		for o, v := range f.bools {
			if v && o.Op == OTAssertOK && o.Args[0] == c.Args[0] && o.Aux != c.Aux && !strings.HasPrefix(o.Aux, "iface:") && !strings.HasPrefix(c.Aux, "iface:") {
				return -1
			}
		}
	}
	if c.Op == OEq {
		a, b := c.Args[0], c.Args[1]
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() && nonNil(a) {
			return -1
		}
		if b.isNil() {
			// something that is of a type isn't nil
			for o, v := range f.bools {
				if v && o.Op == OTAssertOK && o.Args[0] == a {
					return -1
				}
			}
		}
		if !a.isNil() && !b.isNil() {
			an, aok := f.bools[mkEq(a, cNil())]
			bn, bok := f.bools[mkEq(b, cNil())]
			if aok && bok && an != bn {
				return -1
			}
			// addresses of different objects
			if a.Op == OAlloc && b.Op == OAlloc && a != b {
				return -1
			}
			if a.Op == OGlobal && b.Op == OGlobal && a != b {
				return -1
			}
		}
	}
	return 0
}

// decideDiff looks for a chain of facts about differences of two values that decides "base rel k"
func (f *Facts) decideDiff(base *Term, rel string, k *big.Rat) int {
	x, y, ok := diffSides(base)
	if !ok || len(f.iv) > 400 {
		return 0
	}
	// upper bound of x-y and of y-x
	up, upOpen, ok1 := f.bound(x, y)
	dn, dnOpen, ok2 := f.bound(y, x) // y-x <= dn  =>  x-y >= -dn
	iv := &interval{}
	if ok1 {
		iv.hi, iv.hiOpen = up, upOpen
	}
	if ok2 {
		iv.lo, iv.loOpen = new(big.Rat).Neg(dn), dnOpen
	}
	switch rel {
	case "<":
		if iv.hi != nil && (iv.hi.Cmp(k) < 0 || iv.hi.Cmp(k) == 0 && iv.hiOpen) {
			return 1
		}
		if iv.lo != nil && iv.lo.Cmp(k) >= 0 {
			return -1
		}
	case ">":
		if iv.lo != nil && (iv.lo.Cmp(k) > 0 || iv.lo.Cmp(k) == 0 && iv.loOpen) {
			return 1
		}
		if iv.hi != nil && iv.hi.Cmp(k) <= 0 {
			return -1
		}
	case "=":
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 && iv.lo.Cmp(k) == 0 && !iv.loOpen && !iv.hiOpen {
			return 1
		}
		if iv.lo != nil && (iv.lo.Cmp(k) > 0 || iv.lo.Cmp(k) == 0 && iv.loOpen) {
			return -1
		}
		if iv.hi != nil && (iv.hi.Cmp(k) < 0 || iv.hi.Cmp(k) == 0 && iv.hiOpen) {
			return -1
		}
	}
	return 0
}

var zeroTerm *Term

// diffSides returns x, y of a polynomial x - y (either may be nil, for zero)
func diffSides(b *Term) (x, y *Term, ok bool) {
	p := polyOf(b)
	if len(p.m) == 0 || len(p.m) > 2 {
		return nil, nil, false
	}
	one := big.NewRat(1, 1)
	mone := big.NewRat(-1, 1)
	for _, m := range p.m {
		if len(m.f) != 1 || m.f[0].e != 1 {
			return nil, nil, false
		}
		switch {
		case m.c.Cmp(one) == 0 && x == nil:
			x = m.f[0].t
		case m.c.Cmp(mone) == 0 && y == nil:
			y = m.f[0].t
		default:
			return nil, nil, false
		}
	}
	return x, y, true
}

// bound finds the least b with from - to <= b, through chains of difference facts
func (f *Facts) bound(from, to *Term) (*big.Rat, bool, bool) {
	type edge struct {
		a, b *Term // a - b <= w
		w    *big.Rat
		open bool
	}
	var es []edge
	nodes := map[*Term]bool{from: true, to: true}
	addIv := func(base *Term, iv *interval) {
		x, y, ok := diffSides(base)
		if !ok {
			return
		}
		nodes[x] = true
		nodes[y] = true
		if iv.hi != nil {
			es = append(es, edge{x, y, iv.hi, iv.hiOpen})
		}
		if iv.lo != nil {
			es = append(es, edge{y, x, new(big.Rat).Neg(iv.lo), iv.loOpen})
		}
	}
	for base, iv := range f.iv {
		addIv(base, iv)
	}
	for n := range nodes {
		if n != nil && n.Op == OLen {
			if _, ok := f.iv[n]; !ok {
				addIv(n, f.get(n))
			}
		}
	}
	// shortest path from "from" to "to": from - to <= sum
	type d struct {
		w    *big.Rat
		open bool
	}
	dist := map[*Term]d{from: {new(big.Rat), false}}
	for i := 0; i < len(nodes); i++ {
		ch := false
		for _, e := range es {
			da, ok := dist[e.a]
			if !ok {
				continue
			}
			w := new(big.Rat).Add(da.w, e.w)
			o := da.open || e.open
			db, ok := dist[e.b]
			if !ok || w.Cmp(db.w) < 0 || w.Cmp(db.w) == 0 && o && !db.open {
				if e.b == from {
					continue
				}
				dist[e.b] = d{w, o}
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	r, ok := dist[to]
	return r.w, r.open, ok
}

// assume adds a condition; false if it contradicts what is known
func (f *Facts) assume(c *Term, val bool) bool {
	if !f.assume1(c, val) {
		return false
	}
	for again := len(f.beq) > 0; again; {
		again = false
		for _, q := range f.beq {
			x, y := f.decide(q.a), f.decide(q.b)
			if !q.same {
				y = -y
			}
			switch {
			case x != 0 && y == 0:
				again = true
				if !f.assume1(q.b, (x == 1) == q.same) {
					return false
				}
			case x == 0 && y != 0:
				again = true
				if !f.assume1(q.a, y == 1) {
					return false
				}
			case x != 0 && x != y:
				return false
			}
		}
	}
	return true
}

func (f *Facts) assume1(c *Term, val bool) bool {
	if c.Op == ONot {
		return f.assume1(c.Args[0], !val)
	}
	switch f.decide(c) {
	case 1:
		return val
	case -1:
		return !val
	}
	f.last = &Fact{Cond: c, Val: val, Prev: f.last, N: f.n() + 1}
	f.bools[c] = val
	if c.Op == OEq && isBoolT(c.Args[0].Typ) && isBoolT(c.Args[1].Typ) {
		f.beq = append(f.beq, &boolEq{c.Args[0], c.Args[1], val})
	}
	if c.Op != OCmp {
		return true
	}
	if x, k := strSides(c); x != nil && val {
		f.streq[x] = k
	}
	base, rel, k := normCmp(c)
	iv := *f.get(base)
	in := integral(base)
	setLo := func(v *big.Rat, open bool) {
		if iv.lo == nil || v.Cmp(iv.lo) > 0 || v.Cmp(iv.lo) == 0 && open {
			iv.lo, iv.loOpen = v, open
		}
	}
	setHi := func(v *big.Rat, open bool) {
		if iv.hi == nil || v.Cmp(iv.hi) < 0 || v.Cmp(iv.hi) == 0 && open {
			iv.hi, iv.hiOpen = v, open
		}
	}
	switch {
	case rel == "<" && val, rel == ">" && !val:
		setHi(k, rel == "<")
	case rel == ">" && val, rel == "<" && !val:
		setLo(k, rel == ">")
	case rel == "=" && val:
		setLo(k, false)
		setHi(k, false)
	case rel == "=":
		iv.ne = append(append([]*big.Rat(nil), iv.ne...), k)
	}
	tighten := func() {
		one := big.NewRat(1, 1)
		for {
			ch := false
			if iv.lo != nil {
				if in && (iv.loOpen || !iv.lo.IsInt()) {
					iv.lo, iv.loOpen = new(big.Rat).Add(floorRat(iv.lo), one), false
					ch = true
				}
				for _, n := range iv.ne {
					if n.Cmp(iv.lo) == 0 && !iv.loOpen {
						iv.loOpen = true
						ch = true
					}
				}
			}
			if iv.hi != nil {
				if in && (iv.hiOpen || !iv.hi.IsInt()) {
					n := new(big.Rat).Neg(iv.hi)
					n = new(big.Rat).Add(floorRat(n), one)
					iv.hi, iv.hiOpen = n.Neg(n), false
					ch = true
				}
				for _, n := range iv.ne {
					if n.Cmp(iv.hi) == 0 && !iv.hiOpen {
						iv.hiOpen = true
						ch = true
					}
				}
			}
			if !ch {
				return
			}
		}
	}
	tighten()
	f.iv[base] = &iv
	if iv.lo != nil && iv.hi != nil {
		c := iv.lo.Cmp(iv.hi)
		if c > 0 || c == 0 && (iv.loOpen || iv.hiOpen) {
			return false
		}
	}
	return true
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // denominators are positive: floor
	return new(big.Rat).SetInt(q)
}

// list returns the facts in the order they were learned
func (f *Fact) list() []*Fact {
	var r []*Fact
	for x := f; x != nil; x = x.Prev {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// factsOf rebuilds the facts known at a point
func factsOf(last *Fact) *Facts {
	f := newFacts()
	for _, x := range last.list() {
		f.assume(x.Cond, x.Val)
	}
	return f
}

// hold notes that the object has the term in it
func (f *Facts) hold(r, x *Term) {
	for _, y := range f.held[r] {
		if y == x {
			return
		}
	}
	f.held[r] = append(f.held[r], x)
}
