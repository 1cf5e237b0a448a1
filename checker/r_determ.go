package main

// The same input gives the same output: nothing shown depends on the order of a map, the time or chance.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effectFree: the function changes nothing that was there before, and prints nothing
func effectFree(f *ssa.Function) bool {
	if !effDone {
		summarise()
	}
	sum := effSums[f]
	if sum == nil || sum.unknown || len(sum.classes) > 0 {
		return false
	}
	for _, m := range sum.params {
		if len(m) > 0 {
			return false
		}
	}
	return true
}

// mapRanges: the function goes over a map itself
func mapRanges(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rg, ok := in.(*ssa.Range); ok {
				if _, m := rg.X.Type().Underlying().(*types.Map); m {
					return true
				}
			}
		}
	}
	return false
}

func sizeOf(f *ssa.Function) (n int) {
	for g := range reach(f) {
		for _, b := range g.Blocks {
			n += len(b.Instrs)
		}
	}
	return
}

// determMode looks into what is small, and into the functions around f that go over maps
func determMode(f *ssa.Function, about map[*ssa.Function]bool, max int) Config {
	paths := max
	if paths == 0 {
		paths = 6000
	}
	return Config{MaxPaths: paths, MaxSteps: 400 * paths, Mode: func(g *ssa.Function) Mode {
		switch {
		case !inRepo(g):
			return MEvent
		case g.Parent() != nil && topFn(g) == topFn(f), about[g], max > 0 && sizeOf(g) < 150:
			return MInline
		case effectFree(g):
			return MPure
		}
		return MEvent
	}}
}

// outputs are functions whose effect is seen outside, or that wait for it
func seenOutside(ev *Event) bool {
	n := ev.Name
	if ev.Kind == "go" || n == "print" {
		return true
	}
	i := strings.LastIndexByte(n, '.')
	last := n[i+1:]
	switch {
	case strings.HasPrefix(n, "fmt.S"), strings.HasPrefix(n, "fmt.Errorf"), strings.HasPrefix(n, "fmt.Append"):
		return false
	case strings.HasPrefix(last, "Print"), strings.HasPrefix(last, "Fprint"), strings.HasPrefix(last, "Write"):
		return true
	}
	return false
}

// mentions: the term depends on one of these
func mentions(t *Term, of []*Term) bool {
	if t == nil {
		return false
	}
	return t.any(func(x *Term) bool {
		for _, o := range of {
			if x == o {
				return true
			}
		}
		return false
	})
}

// checkOrderless: C19
func checkOrderless(r *Report) {
	n := 0
	for _, f := range allFuncs {
		if !inRepo(f) || f.Synthetic != "" || !mapRanges(f) {
			continue
		}
		switch relPkg(pkgOf(f)) {
		case "cmd/web", "cmd/download":
			continue // not built; what is saved is kept by name, and what is said of the progress is not output
		}
		if !shownFrom(f) {
			continue // used by nothing
		}
		n++
		orderless(r, f, map[*ssa.Function]bool{f: true}, 0)
	}
	r.need(n >= 12, "map-order", "functions", noPos, "only %d functions go over maps", n)
	r.atLeast("map-order", 40)
	r.atLeast("list-order", 5)
	checkChance(r)
}

// withBodies: with the small functions that the iterations over maps call
func withBodies(f *ssa.Function, about map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for g := range about {
		r[g] = true
	}
	for _, b := range f.Blocks {
		next := false
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				next = true
			}
		}
		if !next {
			continue
		}
		for _, c := range f.Blocks {
			if !b.Dominates(c) || !leadsTo(c, b) {
				continue
			}
			for _, in := range c.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if g := call.Common().StaticCallee(); g != nil && inRepo(g) && len(g.Blocks) > 0 && len(g.Blocks) < 30 && len(callersOf(g)) == 1 {
						r[g] = true
					}
				}
			}
		}
	}
	return r
}

func leadsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var go1 func(x *ssa.BasicBlock) bool
	go1 = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if go1(s) {
					return true
				}
			}
		}
		return false
	}
	return go1(a)
}

// orderless looks at the loops of the functions in about, within f
func orderless(r *Report, f *ssa.Function, about map[*ssa.Function]bool, depth int) {
	try := newReport(r.prop, r.tier)
	max := 2500
	if depth > 0 {
		max = 800
	}
	about = withBodies(f, about)
	e := AnalyseWith(f, nil, nil, determMode(f, about, max))
	if e.Err != "" && depth == 0 {
		e = AnalyseWith(f, nil, nil, determMode(f, about, 0))
	}
	try.took(e, f)
	for _, l := range e.Loops {
		theEngine[l] = e
	}
	n := 0
	for _, l := range e.Loops {
		if !about[l.Fn] || !mapRanges(l.Fn) {
			continue
		}
		if m := rangedMap(l); m != nil {
			n++
			mapLoop(try, f, e, l, m)
		}
	}
	try.need(n > 0, "map-order", shortFn(f), f.Pos(), "no iteration over the map is found")
	// what is done with it may be up to those that call it
	if len(try.viol) > 0 && depth < 3 && f.Parent() == nil {
		cs := map[*ssa.Function]bool{}
		for _, c := range callersOf(f) {
			cs[c] = true
		}
		all := newReport(r.prop, r.tier)
		for c := range cs {
			more := map[*ssa.Function]bool{f: true}
			for g := range about {
				more[g] = true
			}
			if !inRepo(c) || c.Synthetic != "" {
				all.need(false, "map-order", shortFn(f), f.Pos(), "called by others")
			}
			if len(all.viol) == 0 {
				orderless(all, c, more, depth+1)
			}
		}
		if len(cs) > 0 && len(all.viol) == 0 {
			try = all
		}
	}
	r.merge(try)
	for k := range try.fns {
		r.fns[k] = true
	}
	r.paths += try.paths
	r.loops += try.loops
	r.steps += try.steps
}

// shownFrom: a command can come to the function
func shownFrom(f *ssa.Function) bool {
	if theReach == nil {
		theReach = map[*ssa.Function]bool{}
		if ex := lookup("cmd.Execute"); ex != nil {
			theReach = reach(ex)
		}
		// methods called through interfaces, and what these come to
		for _, g := range allFuncs {
			if inRepo(g) && g.Signature.Recv() != nil && !theReach[g] && g.Synthetic == "" && relPkg(pkgOf(g)) != "cmd/web" {
				if implementsSome(g) {
					for h := range reach(g) {
						theReach[h] = true
					}
				}
			}
		}
	}
	return theReach[f]
}

var theReach map[*ssa.Function]bool

// implementsSome: a method that libraries call by name
func implementsSome(g *ssa.Function) bool {
	switch g.Name() {
	case "String", "Set", "Type", "MarshalJSON", "UnmarshalJSON", "Len", "Less", "Swap", "Write", "Read", "Close", "Error", "Attr", "AttrNames", "Iterate", "Next", "Done", "Index", "Freeze", "Hash", "Truth":
		return true
	}
	return false
}

// rangedMap is the map a loop goes over
func rangedMap(l *Loop) *Term {
	for _, b := range l.Backs {
		for _, f := range b.Facts() {
			if f.Val && f.Cond.Op == OFresh && f.Cond.name() == "rangeok" && len(f.Cond.Args) == 1 && f.Cond.Seq > l.Start && b.Loop == l {
				if _, isMap := typUnder(f.Cond.Args[0]).(*types.Map); isMap && loopsCond(l, f.Cond) {
					return f.Cond.Args[0]
				}
			}
		}
	}
	return nil
}

// loopsCond: the condition is that of the loop, not of one inside it
func loopsCond(l *Loop, ok *Term) bool {
	for _, b := range l.Backs {
		if !b.Holds(ok) {
			return false
		}
	}
	return true
}

// ownKey: no two entries have the same such key
func ownKey(k, key *Term) bool {
	if k == key {
		return true
	}
	if k.Op == OStruct {
		for _, a := range k.Args {
			if ownKey(a, key) {
				return true
			}
		}
	}
	return false
}

func mapLoop(r *Report, f *ssa.Function, e *Engine, l *Loop, m *Term) {
	c := shortFn(f)
	if l.Fn != f {
		c += " in " + shortFn(l.Fn)
	}
	var ok *Term
	for _, x := range l.Backs[0].Facts() {
		if x.Val && x.Cond.Op == OFresh && x.Cond.name() == "rangeok" && len(x.Cond.Args) == 1 && x.Cond.Args[0] == m && x.Cond.Seq > l.Start && loopsCond(l, x.Cond) {
			ok = x.Cond
		}
	}
	key := rangeKey(ok)
	if !r.need(key != nil, "map-order", c, l.Backs[0].Pos, "the keys gone over are not known") {
		return
	}
	mt, _ := mapOf(m)
	val := func(b *Path) *Term { return b.LoadAt(l.IterMem, mapEnt(m, key, mt), mt.Elem()) }
	cs := l.carriers()
	state := func(but *Term) (r []*Term) {
		for _, x := range cs {
			if x.v != but {
				r = append(r, x.v)
			}
		}
		return
	}
	// the best entry, with the first key of those
	best := map[*Term]bool{}
	for _, p := range e.Paths {
		if p.Kind == "back" && p.Loop == l || !p.Not(ok) {
			continue
		}
		for _, x := range cs {
			if !isNumTerm(x.v) {
				continue
			}
			for _, b := range l.Backs {
				n := x.next(b)
				if n == nil || n == x.v || mentions(n, state(nil)) {
					continue
				}
				try := newReport(r.prop, r.tier)
				if b, w, _ := bestOf(try, "map-order", c, p, m, func(*Path, *Term) *Term { return n }, nil); b != nil && w != nil && len(try.viol) == 0 {
					best[b], best[w] = true, true
				}
				break
			}
		}
		break
	}
	tracked := map[*Term]bool{} // decided with what is set in the same iteration, or the greatest
	var lists []*Term
	for _, x := range cs {
		temp := true // set by every iteration without regard to what it was
		flag := (*Term)(nil)
		isList := false
		good := true
		why := ""
		for _, b := range l.Backs {
			n := x.next(b)
			if n == nil || n == x.v || mentions(n, []*Term{x.v}) {
				temp = false
			}
			if mentionsIn(b, l, x.v) {
				temp = false
			}
		}
		if temp {
			// and not looked at afterwards
			for _, p := range e.Paths {
				if p.Loop != l && p.Not(ok) && usedAfter(p, l, []*Term{x.v}) {
					temp = false
				}
			}
			if temp {
				tracked[x.v] = true
				continue
			}
		}
		for _, b := range l.Backs {
			n := x.next(b)
			switch {
			case n == nil || n == x.v || best[x.v]:
			case n == cBool(true) || n == cBool(false) || n.Op == OConst || n.isStrC():
				if flag != nil && flag != n {
					good, why = false, "it ends as the last entry says"
				}
				flag = n
			case n.Op == OAppend && n.Args[0] == x.v || n.Op == OAppendS && n.Args[0] == x.v:
				isList = true
				for _, a := range n.Args[1:] {
					if mentions(a, state(nil)) {
						good, why = false, "what is added depends on the entries before"
					}
				}
			case isNumTerm(n) && !isFloat(x.v.Typ) && !mentions(nSub(n, x.v), append(state(nil), x.v)):
			case len(best) > 0 && takenWith(b, l, best, cs) && !mentions(n, state(nil)):
			case greatest(x, l, n) && !mentions(n, state(nil)):
				tracked[x.v] = true
			default:
				good, why = false, "it is "+n.str(0)+" after an entry"
			}
		}
		r.need(good, "map-order", c, l.Backs[0].Pos, "what is kept over the entries of a map depends on their order: %s", why)
		if isList && good {
			lists = append(lists, x.v)
		}
	}
	// lists filled one place after the other
	filled := map[*Term]*Term{}
	for _, b := range l.Backs {
		for _, w := range b.writesSince(l.IterMem) {
			if a := w.addr; a.Op == OIdx || a.Op == OFld && a.Args[0].Op == OIdx {
				if a.Op == OFld {
					a = a.Args[0]
				}
				for _, x := range cs {
					if a.Args[1] == x.v && isNew(rootObj(a)) && !mentions(a.Args[0], []*Term{x.v}) {
						filled[a] = a.Args[0]
					}
				}
			}
		}
	}
	for a, list := range filled {
		ok := true
		for _, b := range l.Backs {
			for _, x := range cs {
				if x.v == a.Args[1] {
					ok = ok && (x.next(b) == nAdd(x.v, cInt(1)) || x.next(b) == x.v)
				}
			}
		}
		if ok {
			lists = append(lists, list)
		} else {
			delete(filled, a)
		}
	}
	// what is done with one does not depend on those before
	said := map[*Term]bool{}
	for _, b := range l.Backs {
		for _, x := range b.Facts() {
			if x.Val {
				said[x.Cond] = true
			}
		}
	}
	for _, b := range l.Backs {
		for _, x := range b.Facts() {
			if x.Val || !said[x.Cond] {
				continue
			}
			for _, v := range cs {
				if !best[v.v] && !tracked[v.v] && mentions(x.Cond, []*Term{v.v}) {
					r.need(false, "map-order", c, b.Pos, "what is done with an entry of a map depends on those before it: %v", x.Cond)
				}
			}
		}
	}
	var sets []*Term
	seen := map[*Loop]bool{}
	var body func(b *Path, in *Loop)
	body = func(b *Path, in *Loop) {
		for _, ev := range b.in(in) {
			if ev.Kind == "panic" {
				continue
			}
			if ev.Kind != "call" && ev.Kind != "go" {
				continue
			}
			r.need(!seenOutside(ev), "map-order", c+": "+shortName(ev.Name), ev.Pos, "done for each entry of a map, in whatever order they come")
			if ev.Fn != nil && inRepo(ev.Fn) && !effectFree(ev.Fn) && !onlyCommands(ev.Fn) {
				// entered by currency: put in order with the others
				one := false
				for i, a := range ev.Args {
					one = one || i > 0 && ownKey(a, key) && strings.HasSuffix(shortFn(ev.Fn), "AddPosting")
				}
				r.need(one, "map-order", c+": "+shortFn(ev.Fn), ev.Pos, "changes something for each entry of a map, in whatever order they come")
			}
		}
		for _, w := range b.writesSince(in.IterMem) {
			root := rootObj(w.addr)
			if isNew(root) && l.after(root) {
				continue
			}
			carried := filled[w.addr] != nil || w.addr.Op == OFld && filled[w.addr.Args[0]] != nil
			for _, x := range cs {
				carried = carried || x.addr == w.addr
			}
			if carried {
				continue
			}
			ok, why := false, "written for each entry of a map, in whatever order they come"
			switch w.addr.Op {
			case OMapEnt, OMapHas:
				k := w.addr.Args[1]
				switch {
				case ownKey(k, key):
					ok = !mentions(w.val, state(nil))
				case w.val != nil && (w.val.Op == OConst || w.val == cBool(true) || w.val == cBool(false)):
					ok = true
					if w.addr.Op == OMapHas && in == l {
						sets = append(sets, w.addr)
					}
				default:
					// the greatest of those with that key
					mm, et := mapOf(w.addr.Args[0])
					if mm != nil {
						ok = in == l && w.val == val(b) && mostKept(l, w.addr.Args[0], mm, et, val)
						why = "of entries that come to the same key, the one kept is not told by what they are"
					}
				}
			case ONumLoc:
				old := b.LoadAt(in.IterMem, w.addr, nil)
				switch {
				case mentions(w.addr, []*Term{key, val(b)}): // its own
					ok = !mentions(w.val, state(nil))
				case w.val != nil && w.val.Op == OConst:
					ok = true
				case w.val != nil && !mentions(nSub(w.val, old), append(state(nil), old)):
					ok = true
				}
			default:
				if isNew(root) && isCell(root) {
					ok = true // a variable of the iteration
				}
				if mentions(w.addr, []*Term{key, val(b)}) {
					ok = !mentions(w.val, state(nil))
				}
			}
			r.need(ok, "map-order", c+" writes", b.Pos, "%v: %s", w.addr, why)
		}
		for _, il := range b.innerLoops(in) {
			if seen[il] {
				continue
			}
			seen[il] = true
			for _, ib := range il.Backs {
				body(ib, il)
			}
		}
	}
	for _, b := range l.Backs {
		if b.Loop == l {
			r.need(true, "map-order", c+" each", b.Pos, "")
			body(b, l)
		}
	}
	// what is seen the first time only does not depend on which one it is
	for _, a := range sets {
		var first *Path
		for _, b := range l.Backs {
			put := false
			for _, w := range b.writesSince(l.IterMem) {
				put = put || w.addr == a
			}
			if !put {
				continue
			}
			if first == nil {
				first = b
			}
			same := true
			for _, x := range cs {
				same = same && x.next(b) == x.next(first)
			}
			r.need(same, "map-order", c+" first", b.Pos, "what is done for the first entry of a kind depends on which one comes first")
		}
	}
	// left before the end
	for _, p := range e.Paths {
		if !leftLoop(p, l) || !p.Holds(ok) {
			continue
		}
		bad := usedAfter(p, l, []*Term{key, val(p)})
		for _, v := range state(nil) {
			bad = bad || usedAfter(p, l, []*Term{v})
		}
		r.need(!bad, "map-order", c+" left", p.Pos, "left at an entry, and what follows depends on which one came first")
	}
	// lists
	for _, list := range lists {
		n := 0
		for _, p := range e.Paths {
			if !leftLoop(p, l) || !p.Not(ok) || p.Kind == "panic" {
				continue
			}
			if !usedAfter(p, l, []*Term{list}) {
				continue
			}
			n++
			r.need(inSomeOrder(r, f, p, list, l), "list-order", c, p.Pos, "a list made of the entries of a map is used in whatever order they came")
		}
		if n == 0 {
			r.need(true, "list-order", c, l.Backs[0].Pos, "")
		}
	}
}

// leftLoop: the path goes on behind the loop
func leftLoop(p *Path, l *Loop) bool {
	on := false
	for _, ev := range p.Events() {
		if ev.Loop == l {
			switch ev.Kind {
			case "loop":
				on = false
			case "endloop":
				on = true
			}
		}
	}
	return on
}

// mostKept: of the entries that come to the same key of another map, it keeps the greatest, or the least
func mostKept(l *Loop, m *Term, mt *types.Map, et types.Type, val func(*Path) *Term) bool {
	for _, op := range []string{">", "<"} {
		ok := true
		for _, b := range l.Backs {
			good := false
			wrote := false
			for _, w := range b.writesSince(l.IterMem) {
				if w.addr.Op != OMapEnt || w.addr.Args[0] != m {
					continue
				}
				wrote = true
				k := w.addr.Args[1]
				has := b.LoadAt(l.IterMem, T.mk(OMapHas, "", nil, m, k), boolT())
				cur := b.LoadAt(l.IterMem, mapEnt(m, k, mt), et)
				good = w.val == val(b) && (b.Not(has) || b.Holds(cmp0(op, nSub(w.val, cur))) || b.Holds(bNot(cmp0(op, nSub(cur, w.val)))))
			}
			if !wrote {
				for _, f := range b.Facts() {
					x := f.Cond
					if !f.Val || !(x.Op == OMapHas || isLoad(x) && x.Args[0].Op == OMapHas) {
						continue
					}
					if isLoad(x) {
						x = x.Args[0]
					}
					if x.Args[0] != m {
						continue
					}
					cur := b.LoadAt(l.IterMem, mapEnt(m, x.Args[1], mt), et)
					good = good || b.Not(cmp0(op, nSub(val(b), cur)))
				}
			}
			ok = ok && good
		}
		if ok {
			return true
		}
	}
	return false
}

func isCell(a *Term) bool {
	return a.Op == OAlloc && (strings.HasPrefix(a.Aux, "local_") || strings.HasPrefix(a.Aux, "kept_"))
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isNumTerm(t *Term) bool {
	if t.Typ == nil {
		return t.Op == OPoly
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// greatest: the variable keeps the greatest, or the least, of the numbers seen
func greatest(x carrier, l *Loop, n *Term) bool {
	if !isNumTerm(x.v) {
		return false
	}
	for _, op := range []string{">", "<"} {
		ok := true
		for _, b := range l.Backs {
			nx := x.next(b)
			more := cmp0(op, nSub(n, x.v))
			ok = ok && (nx == n && b.Holds(more) || nx == x.v && b.Not(more))
		}
		if ok {
			return true
		}
	}
	return false
}

func inside(a, l *Loop) bool {
	for ; a != nil; a = a.Parent {
		if a == l {
			return true
		}
	}
	return false
}

// onlyCommands: makes a command and its flags, which are listed by name
func onlyCommands(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	n := namedOf(res.At(0).Type())
	return n != nil && n.Obj().Name() == "Command" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "spf13/cobra")
}

// takenWith: the iteration takes its entry as the best so far
func takenWith(b *Path, l *Loop, best map[*Term]bool, cs []carrier) bool {
	for _, x := range cs {
		if best[x.v] && x.next(b) == x.v {
			return false
		}
	}
	return true
}

// mentionsIn: the iteration looks at the term
func mentionsIn(b *Path, l *Loop, t *Term) bool {
	if b.anyFact(func(x *Term) bool { return x == t }) {
		return true
	}
	for _, ev := range b.in(l) {
		for _, a := range ev.Args {
			if mentions(a, []*Term{t}) {
				return true
			}
		}
	}
	for _, w := range b.writesSince(l.IterMem) {
		if mentions(w.val, []*Term{t}) && !(w.val == t && isCell(w.addr)) {
			return true
		}
	}
	return false
}

// usedAfter: what the path does once it left the loop depends on one of these
func usedAfter(p *Path, l *Loop, of []*Term) bool {
	on := false
	for _, ev := range p.Events() {
		if ev.Kind == "endloop" && ev.Loop == l {
			on = true
			continue
		}
		if !on {
			continue
		}
		if eventUses(ev, of) {
			return true
		}
	}
	for _, t := range p.Results {
		if mentions(t, of) {
			return true
		}
	}
	for _, n := range p.Next {
		if p.Loop != l && mentions(n, of) {
			return true
		}
	}
	for _, w := range p.writesSince(l.EntryMem) {
		if w.val != nil && mentions(w.val, of) && !isNewLocal(w.addr) {
			return true
		}
	}
	return false
}

// eventUses: the event, or the iterations of the loop it begins, depend on one of these
func eventUses(ev *Event, of []*Term) bool {
	for _, a := range ev.Args {
		if mentions(a, of) {
			return true
		}
	}
	if ev.Kind != "loop" || ev.Loop == nil {
		return false
	}
	for _, b := range ev.Loop.Backs {
		for _, ie := range b.in(ev.Loop) {
			if eventUses(ie, of) {
				return true
			}
		}
		for _, n := range b.Next {
			if mentions(n, of) {
				return true
			}
		}
		for _, w := range b.writesSince(ev.Loop.IterMem) {
			if w.val != nil && mentions(w.val, of) && !isNewLocal(w.addr) {
				return true
			}
		}
	}
	return false
}

// usedBefore: it is used between the end of the loop and the event
func usedBefore(p *Path, l *Loop, of []*Term, at *Event) bool {
	on := false
	for _, ev := range p.Events() {
		if ev == at {
			return false
		}
		if ev.Kind == "endloop" && ev.Loop == l {
			on = true
			continue
		}
		if on && !isSort(ev) && eventUses(ev, of) {
			return true
		}
	}
	return false
}

// isNewLocal: a variable nothing else sees
func isNewLocal(a *Term) bool {
	return isCell(rootObj(a))
}

// inSomeOrder: the list, or one that goes on with it, is put in an order that tells all entries apart
func inSomeOrder(r *Report, f *ssa.Function, p *Path, list *Term, l *Loop) bool {
	if orderedList(r, "list-order", f, p, list, l) {
		return true
	}
	try := func(ev *Event) bool {
		if !isSort(ev) || len(ev.Args) < 2 {
			return false
		}
		s := ev.Args[0]
		if s.Op == OIface {
			s = s.Args[0]
		}
		et := elemType(s.Typ)
		if et == nil {
			return false
		}
		n := namedOf(et)
		st, ok := et.Underlying().(*types.Struct)
		if !ok || n == nil {
			return false
		}
		var orders [][]string
		if isType(et, tPosting) {
			orders = [][]string{postOrder}
		} else if st.NumFields() == 2 {
			a, b := st.Field(0).Name(), st.Field(1).Name()
			orders = [][]string{{a, b}, {b, a}}
		}
		for _, o := range orders {
			q := newReport(r.prop, r.tier)
			checkSort(q, "list-order", f, ev, relPkg(n.Obj().Pkg())+"."+n.Obj().Name(), o)
			if len(q.viol) == 0 && q.nOb["list-order"] > 0 {
				return true
			}
		}
		return false
	}
	on := false
	for _, ev := range p.Events() {
		if (ev.Kind == "endloop" || ev.Kind == "loop") && ev.Loop == l {
			on = true
		}
		if on && isSort(ev) && mentions(ev.Args[0], []*Term{list}) && try(ev) && !usedBefore(p, l, []*Term{list}, ev) {
			return true
		}
	}
	// carried on to the loop around, whose list is put in order
	if p.Kind == "back" && p.Loop != nil {
		for v, n := range p.Next {
			if mentions(n, []*Term{list}) && n.Op == OAppend || n == list {
				_ = v
				return sortedLater(f, p.Loop, v, try)
			}
		}
		for _, w := range p.writesSince(l.EntryMem) {
			if w.val != nil && mentions(w.val, []*Term{list}) {
				return sortedLater(f, p.Loop, w.val, try)
			}
		}
	}
	return false
}

func sortedLater(f *ssa.Function, l *Loop, v *Term, try func(ev *Event) bool) bool {
	e := theEngine[l]
	if e == nil {
		return false
	}
	n := 0
	of := []*Term{v}
	for more := true; more; { // and the lists that go on with it
		more = false
		for _, il := range e.Loops {
			for _, x := range il.carriers() {
				if x.entry != nil && elemType(x.v.Typ) != nil && mentions(x.entry, of) && !mentions(x.v, of) {
					of = append(of, x.v)
					more = true
				}
			}
		}
	}
	for _, p := range e.Paths {
		if p.Kind != "return" || !usedAfter(p, l, of) {
			continue
		}
		ok := false
		for _, ev := range p.Events() {
			if isSort(ev) && mentions(ev.Args[0], of) && try(ev) {
				ok = true
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}

var theEngine = map[*Loop]*Engine{}

// checkChance: the time and chance come into what is shown only as the date of today
func checkChance(r *Report) {
	today := 0
	for _, f := range allFuncs {
		if !inRepo(f) || f.Synthetic != "" || !shownFrom(f) {
			continue
		}
		switch relPkg(pkgOf(f)) {
		case "cmd/web", "cmd/download":
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					r.need(false, "chance", shortFn(f), x.Pos(), "done at the same time as the rest")
				case *ssa.Select:
					r.need(false, "chance", shortFn(f), x.Pos(), "chosen by what comes first")
				case ssa.CallInstruction:
					n, _ := calleeName(x.Common())
					switch {
					case n == "time.Now" || n == "time.Since" || n == "time.Until":
						today++
						res := f.Signature.Results()
						ok := res.Len() == 1 && isType(res.At(0).Type(), "book.Date") && len(f.Params) == 0
						// pages of the manual have the date they were made
						ok = ok || relPkg(pkgOf(f)) == "cmd/utils" && strings.Contains(shortFn(f), "AddDocs")
						r.need(ok, "chance", shortFn(f)+" "+n, x.Pos(), "depends on the time, other than as the date of today")
					case strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "math/rand/v2.") || strings.HasPrefix(n, "(*math/rand.") || strings.HasPrefix(n, "crypto/rand.") || n == "os.Getpid" || n == "os.Hostname":
						r.need(false, "chance", shortFn(f)+" "+n, x.Pos(), "depends on chance or on the machine")
					}
				}
			}
		}
	}
	r.need(today >= 1, "chance", "today", noPos, "the date of today is not found")
}
