package main

// Operations on a book: what each one does to the postings.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// carrier is a value carried round a loop, in a variable or in memory
type carrier struct {
	v, entry, addr *Term
}

func (l *Loop) carriers() (r []carrier) {
	for _, v := range l.Vars {
		r = append(r, carrier{v, l.Entry[v], nil})
	}
	for a, v := range l.memVars() {
		r = append(r, carrier{v, loadTM(l.EntryMem, newFacts(), a, deref(a.Typ)), a})
	}
	return
}

func (c carrier) next(b *Path) *Term {
	if c.addr != nil {
		return b.Load(c.addr, deref(c.addr.Typ))
	}
	return b.Next[c.v]
}

func isPostList(t types.Type) bool {
	et := elemType(t)
	return et != nil && isType(et, tPosting)
}

// grown is an element added to a list, with the path and memory that give its numbers
type grown struct {
	el  *Term
	p   *Path
	mem *Mem
}

func (g grown) f(name string) *Term { return getF(g.el, tPosting, name) }
func (g grown) num() *Term          { return g.p.LoadAt(g.mem, numLoc(g.f("val")), nil) }

// growth calls add with what each stretch of path b adds to the list base to give v: the
// straight parts, and the iterations of the loops inside
func growth(b *Path, v, base *Term, mem *Mem, add func(gs []grown, b *Path, l *Loop)) bool {
	var gs []grown
	for v != base {
		switch {
		case v.Op == OAppend:
			var n []grown
			for _, e := range v.Args[1:] {
				n = append(n, grown{e, b, mem})
			}
			gs = append(n, gs...)
			v = v.Args[0]
		case v.Op == OLoopVar && v.Loop != nil && v.Loop.Entry[v] != nil:
			l := v.Loop
			for _, ib := range l.Backs {
				if !growth(ib, ib.Next[v], v, ib.Mem, func(g []grown, b2 *Path, l2 *Loop) {
					if l2 == nil {
						l2 = l
					}
					add(g, b2, l2)
				}) {
					return false
				}
			}
			v = l.Entry[v]
			mem = l.EntryMem
		default:
			return false
		}
	}
	add(gs, b, nil)
	return true
}

// bookPost, bookTrans: what the book at b holds on entry
func bookField(b *Term, name string) (addr, v *Term) {
	addr = fld(b, "book.Book", name)
	return addr, loadTM(nil, newFacts(), addr, fldT("book.Book", name))
}

var compactEv = "book.Book.compact"

// opPaths analyses an operation with the compaction at its end left as an event
func opPaths(r *Report, name string, pure ...string) (*ssa.Function, *Engine) {
	f := r.fn(name)
	if f == nil {
		return nil, &Engine{}
	}
	pm := map[*ssa.Function]bool{}
	for _, n := range pure {
		if g := lookup(n); g != nil {
			pm[g] = true
		}
	}
	cf := lookup(compactEv)
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g == cf {
			return MEvent
		}
		if pm[g] {
			return MPure
		}
		return MInline
	}})
	return f, e
}

// compacted: after the last change to the postings the book is compacted (or regrouped in place)
func compacted(r *Report, c string, f *ssa.Function, p *Path) {
	evs := p.Events()
	ok := false
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "call" && evs[i].is(compactEv) {
			ok = true
		}
		if evs[i].Kind == "loop" {
			break
		}
	}
	if !ok && lookup(compactEv) == nil {
		ok = true // part of the function: what listing gives is decided by C10
	}
	r.need(ok, "regrouped", c, f.Pos(), "the transactions of the book are not made again from the changed postings")
}

// listLoop finds the loop on p that goes over every posting the book had, with the list that
// becomes the book's
type opLoop struct {
	l   *Loop
	idx *Term
	c   carrier
}

func listLoop(p *Path, b *Term) *opLoop {
	addr, post0 := bookField(b, "post")
	// what the book was given
	var vals []*Term
	for m := p.Mem; m != nil; m = m.prev {
		if m.kind == mWrite && m.addr == addr {
			vals = append(vals, m.val)
		}
	}
	for _, l := range p.loopsOn() {
		i, ok := p.idxScan(l, mkLen(post0))
		if !ok {
			continue
		}
		for _, c := range l.carriers() {
			if !isPostList(c.v.Typ) {
				continue
			}
			for _, v := range vals {
				if v == c.v {
					return &opLoop{l, i, c}
				}
			}
			if c.addr == addr {
				return &opLoop{l, i, c}
			}
		}
	}
	return nil
}

// elOf gives the fields of the element an iteration is about, as it was when the iteration started
func (o *opLoop) el(b *Path, post0 *Term, name string) *Term {
	return elemF(b, o.l.IterMem, post0, o.idx, name)
}
func (o *opLoop) elNum(b *Path, post0 *Term) *Term {
	return b.LoadAt(o.l.IterMem, numLoc(o.el(b, post0, "val")), nil)
}

// untouched: the iteration changes no posting or amount there was
func untouched(b *Path, m *Mem) (string, bool) {
	for _, w := range b.writesSince(m) {
		r := rootObj(w.addr)
		if isNew(r) || r.Op == OGlobal {
			continue
		}
		if w.addr.Op == ONumLoc && isNew(w.addr.Args[0]) {
			continue
		}
		if w.addr.Op == OFld && isFieldAddr(w.addr, "book.Book") {
			continue
		}
		if r.Op == OMake {
			continue
		}
		return w.addr.String(), false
	}
	return "", true
}

func isFieldAddr(a *Term, typ string) bool {
	t := lookupType(typ)
	if t == nil || a.Op != OFld {
		return false
	}
	n := shortType(t)
	return len(a.Aux) > len(n) && a.Aux[:len(n)+1] == n+"."
}

// sumsZero: the amounts added cancel for each date, payee and currency
func sumsZero(gs []grown) (string, bool) {
	type key struct{ d, p, c *Term }
	sums := map[key]*Term{}
	for _, g := range gs {
		k := key{g.f("date"), g.f("payee"), g.f("ccy")}
		if sums[k] == nil {
			sums[k] = cInt(0)
		}
		sums[k] = nAdd(sums[k], g.num())
	}
	for _, s := range sums {
		if s != cInt(0) {
			return s.String(), false
		}
	}
	return "", true
}

var otherFields = []string{"payee", "tnote", "ccy", "note"}

// expected posting made from one there was
type wantPost struct {
	acct, date, num *Term
}

// matchPosts: the postings added are those wanted, each with the payee, notes and currency of
// the posting it is made from
func matchPosts(r *Report, rule, c string, b *Path, gs []grown, from func(name string) *Term, want []wantPost) {
	if !r.need(len(gs) == len(want), rule, c, b.Pos, "%d postings are added, expected %d", len(gs), len(want)) {
		return
	}
	used := make([]bool, len(gs))
next:
	for _, w := range want {
		why := ""
		for i, g := range gs {
			if used[i] {
				continue
			}
			if g.f("acct") != w.acct || g.num() != w.num {
				why = fmt.Sprintf("%s %v, %v", why, g.f("acct"), g.num())
				continue
			}
			if g.f("date") != w.date {
				why += " another date"
				continue
			}
			bad := ""
			for _, o := range otherFields {
				if g.f(o) != from(o) {
					bad += " " + o
				}
			}
			if bad != "" {
				why += bad
				continue
			}
			used[i] = true
			r.need(true, rule, c, b.Pos, "")
			continue next
		}
		r.need(false, rule, c, b.Pos, "no posting of %v to %v on %v is added (has%s)", w.num, w.acct, w.date, why)
	}
}

// badRegexp: the path knows that one of the expressions given is not valid
func badRegexp(p *Path, pats ...*Term) bool {
	return failedPure(p, func(t *Term) bool {
		for _, pat := range pats {
			if t.Aux == "regexp.Compile.1" && len(t.Args) == 1 && t.Args[0] == pat {
				return true
			}
		}
		return false
	})
}

// matchCond: 1 if the path knows the account matches the expression compiled from pat, -1 if it doesn't
func matchCond(b *Path, acct, pat *Term) (int, *Term) {
	for _, f := range b.Facts() {
		c := f.Cond
		if c.Op == OCall && c.Aux == "(*regexp.Regexp).MatchString" && len(c.Args) == 2 && c.Args[1] == acct && c.Args[0].contains(pat) {
			if f.Val {
				return 1, c.Args[0]
			}
			return -1, c.Args[0]
		}
	}
	return 0, nil
}

func regexpReplace(re, s, repl *Term) *Term {
	return T.mk(OCall, "(*regexp.Regexp).ReplaceAllString", types.Typ[types.String], re, s, repl)
}

// checkMove: C08
func checkMove(r *Report) {
	if f, e := opPaths(r, "book.Book.AdjustPost"); f != nil {
		b, pat, repl, factor := param(f, 0), param(f, 1), param(f, 2), param(f, 3)
		c := shortFn(f)
		_, post0 := bookField(b, "post")
		fac := loadTM(nil, newFacts(), numLoc(factor), nil)
		n := 0
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				r.need(badRegexp(p, pat), "refused", c, p.Pos, "a move is refused although its expression is valid")
				continue
			}
			n++
			o := listLoop(p, b)
			if !r.need(o != nil, "move-every", c, p.Pos, "not every posting of the book is gone through") {
				continue
			}
			compacted(r, c, f, p)
			r.need(o.c.entry == post0, "move-kept", c, p.Pos, "the postings there were are not kept")
			for _, bk := range o.l.Backs {
				if w, ok := untouched(bk, o.l.IterMem); !r.need(ok, "move-kept", c, bk.Pos, "a posting there was is changed: %s", w) {
					continue
				}
				acct := o.el(bk, post0, "acct")
				m, re := matchCond(bk, acct, pat)
				r.need(m == 0 || isRegexpOf(re, pat), "match-expr", c, bk.Pos, "the account is matched by another expression than the one given: %v", re)
				ok := growth(bk, o.c.next(bk), o.c.v, bk.Mem, func(gs []grown, q *Path, l *Loop) {
					switch {
					case m == 1 && l == nil:
						num := o.elNum(bk, post0)
						d := o.el(bk, post0, "date")
						matchPosts(r, "move-pair", c, q, gs, func(n string) *Term { return o.el(bk, post0, n) }, []wantPost{
							{acct, d, nMul(nNeg(fac), num)},
							{regexpReplace(re, acct, repl), d, nMul(fac, num)},
						})
					case m == -1:
						r.need(len(gs) == 0, "move-others", c, q.Pos, "postings are added for an account that does not match")
					default:
						r.need(len(gs) == 0 && m != 0, "move-match", c, q.Pos, "what is added does not depend on whether the account of the posting matches")
					}
				})
				r.need(ok, "move-kept", c, bk.Pos, "the list of postings is not only added to")
			}
		}
		r.need(n > 0, "move-every", c, f.Pos(), "never completes")
	}
	if f, e := opPaths(r, "book.Book.Depreciate", "book.Date.FloorDiff"); f != nil {
		b, pat, repl, period, periods := param(f, 0), param(f, 1), param(f, 2), param(f, 3), param(f, 4)
		c := shortFn(f)
		_, post0 := bookField(b, "post")
		n := 0
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				r.need(badRegexp(p, pat) || p.Not(cmp0(">", periods)), "refused", c, p.Pos, "a depreciation is refused although its expression and number of periods are valid")
				continue
			}
			n++
			r.need(p.Holds(cmp0(">", periods)), "depreciate-periods", c, p.Pos, "accepts a number of periods that is not positive")
			o := listLoop(p, b)
			if !r.need(o != nil, "depreciate-every", c, p.Pos, "not every posting of the book is gone through") {
				continue
			}
			compacted(r, c, f, p)
			r.need(o.c.entry == post0, "depreciate-kept", c, p.Pos, "the postings there were are not kept")
			for _, bk := range o.l.Backs {
				if w, ok := untouched(bk, o.l.IterMem); !r.need(ok, "depreciate-kept", c, bk.Pos, "a posting there was is changed: %s", w) {
					continue
				}
				acct := o.el(bk, post0, "acct")
				m, re := matchCond(bk, acct, pat)
				r.need(m == 0 || isRegexpOf(re, pat), "match-expr", c, bk.Pos, "the account is matched by another expression than the one given: %v", re)
				num := o.elNum(bk, post0)
				d0 := o.el(bk, post0, "date")
				from := func(n string) *Term { return o.el(bk, post0, n) }
				loops := 0
				ok := growth(bk, o.c.next(bk), o.c.v, bk.Mem, func(gs []grown, q *Path, l *Loop) {
					switch {
					case m == 1 && l == nil:
						matchPosts(r, "depreciate-up", c, q, gs, from, []wantPost{
							{acct, d0, nNeg(num)},
							{regexpReplace(re, acct, repl), d0, num},
						})
					case m == 1:
						loops++
						part := nMul(num, nInv(periods))
						// the date of the period is carried round
						var d *Term
						for _, cr := range l.carriers() {
							if len(gs) > 0 && cr.v == gs[0].f("date") {
								d = cr.v
								r.need(cr.entry == d0, "depreciate-dates", c, q.Pos, "the first part is not moved back on the date of the posting")
								nx := cr.next(q)
								r.need(nx.Op == OCall && nx.Aux == "(book.Date).FloorDiff" && nx.Args[0] == d && nx.Args[1] == period && nx.Args[2] == cInt(1), "depreciate-dates", c, q.Pos, "the date does not move on to the start of the next period but to %v", nx)
							}
						}
						if r.need(d != nil, "depreciate-dates", c, q.Pos, "the date of the parts does not move") {
							matchPosts(r, "depreciate-back", c, q, gs, from, []wantPost{
								{regexpReplace(re, acct, repl), d, nNeg(part)},
								{acct, d, part},
							})
						}
						_, all := bk.idxScan(l, periods)
						r.need(all, "depreciate-count", c, q.Pos, "the amount is not moved back in exactly as many parts as there are periods")
					default:
						r.need(len(gs) == 0 && m != 0, "depreciate-others", c, q.Pos, "postings are added for an account that does not match")
					}
				})
				r.need(ok, "depreciate-kept", c, bk.Pos, "the list of postings is not only added to")
				if m == 1 {
					r.need(loops > 0, "depreciate-back", c, bk.Pos, "nothing is moved back")
				}
			}
		}
		r.need(n > 0, "depreciate-every", c, f.Pos(), "never completes")
	}
	r.atLeast("move-pair", 2)
	r.atLeast("depreciate-up", 2)
	r.atLeast("depreciate-back", 2)
}
