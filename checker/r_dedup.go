package main

// Transactions already in another book are left out, all others kept.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// walk: what is known about where a search of an ordered list is, at the end of b
type walk struct {
	at *Term
}

// position finds, on path b of the selecting loop l, the index the reference list was searched
// up to: every transaction before it is before the one looked at, and so before all that follow
func position(b *Path, l *Loop, ref *Term, before func(q *Path, m *Mem, i *Term) bool) *Term {
	okStart := func(entry *Term) bool {
		if entry == cInt(0) {
			return true
		}
		// carried from one transaction to the next, starting with none
		for _, c := range l.carriers() {
			if c.v != entry || c.entry != cInt(0) {
				continue
			}
			return true
		}
		return false
	}
	for _, in := range b.innerLoops(l) {
		for _, c := range in.carriers() {
			if !isIntT(c.v.Typ) || !okStart(c.entry) || len(in.Backs) == 0 {
				continue
			}
			good := true
			i := c.v
			for _, bk := range in.Backs {
				if c.next(bk) != nAdd(c.v, cInt(1)) || !before(bk, in.IterMem, i) || !bk.Holds(cmp0("<", nSub(i, mkLen(ref)))) {
					good = false
				}
			}
			if good {
				return i
			}
		}
	}
	return nil
}

// checkDedup: C13
func checkDedup(r *Report) {
	f := r.fn("book.Book.RemoveDuplicatesOf")
	list := r.fn("book.Book.Transactions")
	if f == nil || list == nil {
		return
	}
	e := r.runFn(f, nil, asPure("book.Book.Transactions"))
	c := shortFn(f)
	b, main := param(f, 0), param(f, 1)
	ref := T.mk(OCall, fnKey(list), list.Signature.Results().At(0).Type(), main)
	for _, p := range e.Paths {
		for _, x := range p.Facts() {
			x.Cond.any(func(t *Term) bool {
				if t.Op == OCall && len(t.Args) == 1 && t.Args[0] == main && t.Fn == list {
					ref = t
				}
				return false
			})
		}
		p.anyTerm(func(t *Term) {
			if t.Op == OCall && len(t.Args) == 1 && t.Args[0] == main && t.Aux == ref.Aux {
				ref = t
			}
		})
	}
	n := 0
	et := elemType(ref.Typ)
	refF := func(q *Path, m *Mem, i *Term, name string) *Term {
		el := q.LoadAt(m, idxAddr(ref, i, et), et)
		return elemF(q, m, el, cInt(0), name)
	}
	for _, p := range e.returns() {
		if unchangedBook(p, b) && p.Holds(cmp0("=", mkLen(ref))) {
			continue
		}
		n++
		var sl *Loop
		if s, _ := findSelection(p, b); s != nil {
			sl = s.l
		}
		checkSelection(r, "dedup", f, p, b, func(bk *Path, el *Term) int {
			d, y := firstOf(bk, nil, el, "date"), firstOf(bk, nil, el, "payee")
			same := func(q *Path, m *Mem, i *Term) (eq, ne, lt bool) {
				rd, ry := refF(q, m, i, "date"), refF(q, m, i, "payee")
				dEq, yEq := cmp0("=", nSub(rd, d)), cmp0("=", nSub(ry, y))
				eq = q.Holds(dEq) && (q.Holds(yEq) || q.Holds(mkEq(ry, y)))
				ne = q.Not(dEq) || q.Not(yEq) || q.Not(mkEq(ry, y))
				lt = q.Holds(cmp0("<", nSub(rd, d))) || q.Holds(dEq) && q.Holds(cmp0("<", nSub(ry, y)))
				return
			}
			// a set of what the other book has
			if m, has := setOf(bk, p, ref, d, y, refF); has != 0 {
				_ = m
				return -has
			}
			at := position(bk, sl, ref, func(q *Path, m *Mem, i *Term) bool {
				_, _, lt := same(q, nil, i)
				return lt
			})
			if at == nil {
				at = everyOne(bk, sl, ref, func(q *Path, i *Term) bool { _, ne, _ := same(q, nil, i); return ne })
				if at == nil {
					return 0
				}
				// looked at one by one up to here
				if bk.Not(cmp0("<", nSub(at, mkLen(ref)))) {
					return 1
				}
				if eq, _, _ := same(bk, nil, at); eq {
					return -1
				}
				return 0
			}
			if bk.Holds(cmp0(">", nSub(at, mkLen(ref)))) {
				return 2 // the search goes no further than the end
			}
			if bk.Not(cmp0("<", nSub(at, mkLen(ref)))) {
				return 1
			}
			eq, ne, _ := same(bk, nil, at)
			switch {
			case eq:
				return -1
			case ne && notLess(bk, refF(bk, nil, at, "date"), refF(bk, nil, at, "payee"), d, y):
				return 1
			}
			return 0
		})
		// where the search starts for the next one is where it ended
		if sl != nil {
			for _, cr := range sl.carriers() {
				if !isIntT(cr.v.Typ) || cr.entry != cInt(0) {
					continue
				}
				used := false
				for _, bk := range sl.Backs {
					for _, in := range bk.innerLoops(sl) {
						for _, ic := range in.carriers() {
							used = used || ic.entry == cr.v
						}
					}
				}
				if !used {
					continue
				}
				for _, bk := range sl.Backs {
					nx := cr.next(bk)
					ok := nx == cr.v
					for _, in := range bk.innerLoops(sl) {
						for _, ic := range in.carriers() {
							ok = ok || ic.v == nx && ic.entry == cr.v
						}
					}
					r.need(ok, "dedup-walk", c, bk.Pos, "the search for the next transaction does not start where this one ended: %v", nx)
				}
			}
		}
		// the other book stays as it is
		for _, w := range p.writesSince(nil) {
			if root := rootObj(w.addr); root == main {
				r.need(false, "dedup-main", c, p.Pos, "the book compared with is changed: %v", w.addr)
			}
		}
	}
	r.need(n > 0, "dedup", c, f.Pos(), "never selects")
	r.atLeast("dedup", 4)
	checkDedupUse(r, f)
}

// notLess: not (rd,ry) < (d,y)
func notLess(q *Path, rd, ry, d, y *Term) bool {
	if q.Holds(cmp0(">", nSub(rd, d))) {
		return true
	}
	dlt, ylt := cmp0("<", nSub(rd, d)), cmp0("<", nSub(ry, y))
	if !q.Not(dlt) {
		return false
	}
	if q.Not(ylt) {
		return true
	}
	return q.Not(cmp0("=", nSub(rd, d)))
}

// everyOne: an inner loop that looks at each transaction of the list and goes on only past those that differ
func everyOne(b *Path, l *Loop, ref *Term, differs func(q *Path, i *Term) bool) *Term {
	for _, in := range b.innerLoops(l) {
		for _, v := range in.Vars {
			if !isIntT(v.Typ) || len(in.Backs) == 0 {
				continue
			}
			i := v
			switch in.Entry[v] {
			case cInt(0):
			case cInt(-1):
				i = nAdd(v, cInt(1))
			default:
				continue
			}
			good := true
			for _, bk := range in.Backs {
				if bk.Next[v] != nAdd(v, cInt(1)) || !differs(bk, i) {
					good = false
				}
			}
			if good {
				return i
			}
		}
	}
	return nil
}

// setOf: the path asks a map made of every transaction of the other book whether it has this
// one: 1 it has, -1 it has not, 0 no such map
func setOf(bk, p *Path, ref, d, y *Term, refF func(q *Path, m *Mem, i *Term, name string) *Term) (*Term, int) {
	for _, f := range bk.Facts() {
		var m, key *Term
		f.Cond.any(func(t *Term) bool {
			if (t.Op == OMapHas || t.Op == OMapEnt) && len(t.Args) >= 2 && isNew(t.Args[0]) {
				m, key = t.Args[0], t.Args[1]
			}
			return false
		})
		if m == nil {
			continue
		}
		if _, ok := separates(key, d, y); !ok {
			continue
		}
		// every transaction of the other book goes in, and nothing else
		for _, l := range p.loopsOn() {
			i, ok := bk.idxScan(l, mkLen(ref))
			if !ok || len(l.Backs) == 0 {
				continue
			}
			all := true
			for _, ib := range l.Backs {
				n := 0
				for _, w := range ib.writesSince(l.IterMem) {
					if (w.addr.Op == OMapHas || w.addr.Op == OMapEnt) && w.addr.Args[0] == m {
						if w.addr.Op == OMapEnt && !w.val.isTrue() && isBoolT(w.val.Typ) {
							all = false
						}
						n++
						want := subst(key, map[*Term]*Term{d: refF(ib, nil, i, "date"), y: refF(ib, nil, i, "payee")})
						if w.addr.Args[1] != want {
							all = false
						}
					}
				}
				if n == 0 {
					all = false
				}
			}
			if all {
				if f.Val == (f.Cond.Op != ONot) {
					return m, 1
				}
				return m, -1
			}
		}
	}
	return nil, 0
}

// anyTerm visits the terms a path ends with
func (p *Path) anyTerm(f func(t *Term)) {
	v := func(t *Term) {
		if t != nil {
			t.any(func(x *Term) bool { f(x); return false })
		}
	}
	for m := p.Mem; m != nil; m = m.prev {
		if m.kind == mWrite {
			v(m.addr)
			v(m.val)
		}
	}
	for _, x := range p.Results {
		v(x)
	}
}

// checkDedupUse: what is imported or generated is compared with the main book as loaded, when
// asked, and with every file before it, always, before it is shown
func checkDedupUse(r *Report, dedup *ssa.Function) {
	n := 0
	seen := map[*ssa.Function]bool{}
	for _, cf := range callersOf(dedup) {
		t := topFn(cf)
		if seen[t] {
			continue
		}
		seen[t] = true
		n++
		checkDedupIn(r, t, dedup)
	}
	r.need(n >= 2, "dedup-use", "callers", dedup.Pos(), "what is imported and what is generated are not both compared (%d places)", n)
	r.atLeast("dedup-shown", 3)
}

func checkDedupIn(r *Report, f, dedup *ssa.Function) {
	// the commands are in one package; what leaves it is an event
	e := r.runFn(f, nil, outside(relPkg(pkgOf(f))))
	c := shortFn(f)
	load := lookup("cmd/app.App.LoadBook")
	show := lookup("cmd/reports.ShowLedger")
	trans := lookup("book.Book.Transactions")
	if load == nil || show == nil || trans == nil {
		r.need(false, "anchor", "ShowLedger", f.Pos(), "what loads or shows a book is not there")
		return
	}
	for _, p := range e.Paths {
		var main *Term
		evs := p.Events()
		for i, ev := range evs {
			if ev.Kind != "call" {
				continue
			}
			if ev.Fn == load && main == nil {
				main = ev.part(0)
			}
			if ev.Fn != show {
				continue
			}
			// what is shown: the transactions of a book
			var shown *Term
			at := -1
			for j := 0; j < i; j++ {
				if evs[j].Kind == "call" && evs[j].Fn == trans && evs[j].Res == ev.Args[1] {
					shown = evs[j].Args[0]
					at = j
				}
			}
			if !r.need(shown != nil && shown != main, "dedup-shown", c, ev.Pos, "what is shown is not what was made") {
				continue
			}
			flag := dedupFlag(p)
			done := false
			changed := false
			for j := 0; j < at; j++ {
				x := evs[j]
				if x.Kind == "call" && x.Fn == dedup && x.Args[0] == shown && x.Args[1] == main {
					done = true
					r.need(!changed, "dedup-main", c, x.Pos, "the book compared with may have been changed")
				}
				if x.Kind == "call" && x.Fn != nil && x.Fn != load && x.Fn != dedup && len(x.Args) > 0 && x.Args[0] == main && relPkg(pkgOf(x.Fn)) == "book" && writesBook(x.Fn) {
					changed = true
				}
				if x.Kind == "call" && (x.Fn == nil || relPkg(pkgOf(x.Fn)) != "book") && argsHave(x, main) {
					changed = true
				}
			}
			switch {
			case flag > 0:
				r.need(done, "dedup-shown", c, ev.Pos, "what is already in the main book is shown although duplicates were to be left out")
			case flag < 0:
				r.need(!done, "dedup-shown", c+" not asked", ev.Pos, "transactions are left out although that was not asked for")
			default:
				r.need(false, "dedup-shown", c, ev.Pos, "whether duplicates of the main book are left out does not depend on what was asked for")
			}
		}
	}
	// files: each compared with all before it
	for _, l := range e.Loops {
		checkPrevious(r, c, f, e, l, dedup, show, trans)
	}
}

func argsHave(ev *Event, t *Term) bool {
	for _, a := range ev.Args {
		if a == t {
			return true
		}
	}
	return false
}

// writesBook: the method can change the book (reads only otherwise)
func writesBook(f *ssa.Function) bool {
	for g := range reach(f) {
		for _, fld := range []string{"post", "trans", "prices", "ccy"} {
			if g.Name() != "compact" && len(fieldWrites(g, "book.Book", fld)) > 0 {
				return true
			}
		}
	}
	return false
}

// reach are the functions of the repository that f may call, itself included
func reach(f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if g == nil || m[g] || !inRepo(g) {
			return
		}
		m[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					switch x := (*o).(type) {
					case *ssa.Function:
						rec(x)
					case *ssa.MakeClosure:
						rec(x.Fn.(*ssa.Function))
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			rec(a)
		}
	}
	rec(f)
	return m
}

// dedupFlag: what the path knows of the setting
func dedupFlag(p *Path) int {
	for _, f := range p.Facts() {
		if fieldOf(f.Cond) == "Dedup" {
			if f.Val {
				return 1
			}
			return -1
		}
	}
	return 0
}

// checkPrevious: in a loop in which books are shown, each is added to a list of previous ones,
// and before it is shown compared with every one on the list
func checkPrevious(r *Report, c string, f *ssa.Function, e *Engine, l *Loop, dedup, show, trans *ssa.Function) {
	for _, b := range l.Backs {
		evs := b.in(l)
		var shown *Term
		var pos = noPos
		for i, ev := range evs {
			if ev.Kind == "call" && ev.Fn == show {
				for j := 0; j < i; j++ {
					if evs[j].Kind == "call" && evs[j].Fn == trans && evs[j].Res == ev.Args[1] {
						shown = evs[j].Args[0]
						pos = ev.Pos
						evs = evs[:j]
						break
					}
				}
				break
			}
		}
		if shown == nil {
			continue
		}
		ok := false
		for _, cr := range l.carriers() {
			if cr.v.Typ == nil {
				continue
			}
			st, isS := cr.v.Typ.Underlying().(*types.Slice)
			if !isS || !b.Holds(cmp0("=", mkLen(cr.entry))) && !zeroLen(cr.entry) {
				continue
			}
			nx := cr.next(b)
			if nx.Op != OAppend || len(nx.Args) != 2 || nx.Args[0] != cr.v || nx.Args[1] != shown {
				continue
			}
			// each one compared with
			for _, ev := range evs {
				if ev.Kind != "loop" {
					continue
				}
				i, full := b.idxScan(ev.Loop, mkLen(cr.v))
				if !full {
					continue
				}
				each := len(ev.Loop.Backs) > 0
				for _, ib := range ev.Loop.Backs {
					prev := ib.LoadAt(ev.Loop.IterMem, idxAddr(cr.v, i, st.Elem()), st.Elem())
					hit := false
					for _, x := range ib.in(ev.Loop) {
						hit = hit || x.Kind == "call" && x.Fn == dedup && x.Args[0] == shown && x.Args[1] == prev
					}
					each = each && hit
				}
				ok = ok || each
			}
		}
		r.need(ok, "dedup-previous", c, pos, "what is shown is not compared with every file before it")
	}
}

func zeroLen(t *Term) bool {
	n := mkLen(t)
	k, ok := polyOf(n).constant()
	return ok && k.Sign() == 0
}
