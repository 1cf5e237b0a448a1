package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tPosting = "book.Posting"

func postT() types.Type { return lookupType(tPosting) }

// writes are the changes made on the path since memory m, oldest first
func (p *Path) writesSince(m *Mem) (r []*Mem) {
	for x := p.Mem; x != nil && x != m; x = x.prev {
		if x.kind == mWrite {
			r = append([]*Mem{x}, r...)
		}
	}
	return
}

func (p *Path) havocSince(m *Mem, addr *Term) bool {
	for x := p.Mem; x != nil && x != m; x = x.prev {
		if x.kind == mHavoc && x.hv.matches(addr) {
			return true
		}
	}
	return false
}

// elemF is field name of element i of slice s in memory m
func elemF(p *Path, m *Mem, s, i *Term, name string) *Term {
	t := postT()
	k := fieldIdx(t, name)
	if k < 0 {
		return T.mk(OUndef, name, nil)
	}
	return p.LoadAt(m, fldAddr(idxAddr(s, i, t), t, k), t.Underlying().(*types.Struct).Field(k).Type())
}

// same reports that the path knows two values of type t are equal
func (p *Path) same(a, b *Term, t types.Type) bool {
	return a == b || p.Holds(cmpT("==", a, b, t))
}
func (p *Path) differ(a, b *Term, t types.Type) bool { return p.Not(cmpT("==", a, b, t)) }

// fieldsSame: the path knows the named fields of elements i and j of s are equal
func fieldsSame(p *Path, m *Mem, s, i, j *Term, names ...string) (string, bool) {
	for _, n := range names {
		if !p.same(elemF(p, m, s, i, n), elemF(p, m, s, j, n), fldT(tPosting, n)) {
			return n, false
		}
	}
	return "", true
}

// lexOrder: the paths of a comparison decide "a before b" by the fields in turn
func lexOrder(r *Report, rule, construct string, at token.Pos, e *Engine, a, b func(p *Path, field string) *Term, typ string, fields []string) {
	n := 0
	for _, p := range e.returns() {
		n++
		if len(p.Results) != 1 {
			continue
		}
		res := p.Results[0]
		// a result that is itself the last comparison
		val := 0
		if p.Holds(res) {
			val = 1
		} else if p.Not(res) {
			val = -1
		}
		ok := false
		why := ""
		for k, f := range fields {
			x, y := a(p, f), b(p, f)
			t := types.Type(types.Typ[types.String])
			if typ != "" {
				t = fldT(typ, f)
			}
			if p.same(x, y, t) {
				if k == len(fields)-1 {
					ok = val == -1
				}
				continue
			}
			lt, gt := cmpT("<", x, y, t), cmpT(">", x, y, t)
			switch {
			case p.Holds(lt):
				ok = val == 1
			case p.Holds(gt):
				ok = val == -1
			case k == len(fields)-1 && p.Not(lt):
				ok = val == -1
			case res == lt && (k == len(fields)-1 || p.Not(cmpT("==", x, y, t))):
				ok = true
			case res == bNot(gt) && p.Not(cmpT("==", x, y, t)):
				ok = true
			case p.Not(lt) && p.Not(gt):
				continue
			}
			if !ok {
				why = f
			}
			break
		}
		r.need(ok, rule, construct, at, "does not order by %s in turn (goes wrong at %s)", strings.Join(fields, ", "), why)
	}
	r.need(n > 0, rule, construct, at, "the order never answers")
}

var postOrder = []string{"date", "payee", "acctsort", "acct", "acctlevel", "ccy"}

// sortedBy checks the order of every sort of postings on the paths of e
func sortCalls(e *Engine) map[*Event]*Path {
	m := map[*Event]*Path{}
	for _, p := range e.Paths {
		for _, ev := range p.Events() {
			if ev.Kind == "call" && (ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable") {
				if _, ok := m[ev]; !ok {
					m[ev] = p
				}
			}
			if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "slices.SortFunc") || strings.HasPrefix(ev.Name, "slices.SortStableFunc")) {
				if _, ok := m[ev]; !ok {
					m[ev] = p
				}
			}
		}
	}
	return m
}

// checkSort analyses the comparison a sort call is given
func checkSort(r *Report, rule string, f *ssa.Function, ev *Event, typ string, fields []string) {
	if len(ev.Args) < 2 {
		return
	}
	s, cl := ev.Args[0], ev.Args[1]
	if s.Op == OIface {
		s = s.Args[0]
	}
	if cl.Op != OClosure || cl.Fn == nil || len(cl.Fn.Params) != 2 {
		r.need(false, rule, shortFn(f), ev.Pos, "the order of the sort is not known")
		return
	}
	t := lookupType(typ)
	k := func(n string) int { return fieldIdx(t, n) }
	if strings.HasPrefix(ev.Name, "slices.") {
		x, y := param(cl.Fn, 0), param(cl.Fn, 1)
		e := AnalyseFrom(cl.Fn, nil, cl.Args, ev.Mem, nil, Config{})
		r.took(e, cl.Fn)
		// three-way: negative means before
		for _, p := range e.Paths {
			if p.Kind == "return" && len(p.Results) == 1 {
				p.Results = []*Term{cmp0("<", p.Results[0])}
			}
		}
		lexOrder(r, rule, shortFn(f), ev.Pos, e,
			func(p *Path, n string) *Term { return mkField(x, k(n), fldT(typ, n)) },
			func(p *Path, n string) *Term { return mkField(y, k(n), fldT(typ, n)) }, typ, fields)
		return
	}
	e := AnalyseFrom(cl.Fn, nil, cl.Args, ev.Mem, nil, Config{})
	r.took(e, cl.Fn)
	at := func(i *Term) func(p *Path, n string) *Term {
		return func(p *Path, n string) *Term {
			return p.LoadAt(ev.Mem, fldAddr(idxAddr(s, i, t), t, k(n)), fldT(typ, n))
		}
	}
	lexOrder(r, rule, shortFn(f), ev.Pos, e, at(param(cl.Fn, 0)), at(param(cl.Fn, 1)), typ, fields)
}

func elemIsType(ev *Event, typ string) bool {
	if len(ev.Args) < 1 {
		return false
	}
	s := ev.Args[0]
	if s.Op == OIface {
		s = s.Args[0]
	}
	et := elemType(s.Typ)
	return et != nil && isType(et, typ)
}

// keepLoop describes a loop that goes over the elements of a slice and keeps some of them in order
type keepLoop struct {
	idx  *Term // the element an iteration is about
	out  *Term // the slice with the elements kept, when the loop is left
	free *Term // where the next one kept goes
	app  *Term // or: the list the ones kept are appended to
}

// asKeepLoop recognises an in-place filter of s, on a path p that has left l
func asKeepLoop(p *Path, l *Loop, s *Term) (*keepLoop, string) {
	n := mkLen(s)
	var pick *keepLoop
	why := "no index goes over every element"
	for _, v := range l.Vars {
		if et := elemType(v.Typ); et == nil || !isType(et, tPosting) || len(l.Backs) == 0 {
			continue
		}
		i, ok := p.idxScan(l, n)
		if !ok || !p.Holds(cmp0("=", mkLen(l.Entry[v]))) {
			continue
		}
		good := true
		for _, b := range l.Backs {
			if b.Next[v] != v && !(b.Next[v].Op == OAppend && b.Next[v].Args[0] == v && len(b.Next[v].Args) == 2) {
				good = false
			}
		}
		if good {
			return &keepLoop{idx: i, free: mkLen(v), out: v, app: v}, ""
		}
	}
	for _, v := range l.Vars {
		if !isIntT(v.Typ) || len(l.Backs) == 0 {
			continue
		}
		up := true
		for _, b := range l.Backs {
			if b.Next[v] != nAdd(v, cInt(1)) {
				up = false
			}
		}
		first := l.Entry[v]
		c, isC := polyOf(first).constant()
		if !up || !isC {
			continue
		}
		// a range loop starts its counter at -1 and looks at counter+1
		for _, off := range []int64{0, 1} {
			i := nAdd(v, cInt(off))
			if !p.Holds(bNot(cmp0("<", nSub(i, n)))) || p.Holds(bNot(cmp0("<", nSub(nSub(i, cInt(1)), n)))) && off == 0 {
				continue
			}
			start := nAdd(cNum(c), cInt(off))
			if k, ok := start.intVal(); !ok || k < 0 {
				continue
			}
			// the place the next one kept goes
			for _, w := range l.Vars {
				if w == v || !isIntT(w.Typ) {
					continue
				}
				free := nAdd(w, nSub(start, l.Entry[w]))
				ok := true
				for _, b := range l.Backs {
					nw := nAdd(b.Next[w], nSub(start, l.Entry[w]))
					if nw != free && nw != nAdd(free, cInt(1)) {
						ok = false
					}
				}
				if ok {
					return &keepLoop{idx: i, free: free, out: mkSlice(s, cInt(0), free, s.Typ, false)}, ""
				}
			}
			why = "no counter of the elements kept"
		}
	}
	return pick, why
}

func (k *keepLoop) kept(b *Path) bool {
	if k.app != nil {
		return b.Next[k.app] != k.app
	}
	nw := subst(k.free, b.Loop.backSub(b))
	return nw == nAdd(k.free, cInt(1))
}

// checkCompact: C10
func checkCompact(r *Report) {
	t := postT()
	if !r.need(t != nil, "anchor", tPosting, noPos, "the posting type is gone") {
		return
	}
	root := "book.Book.Transactions"
	f := r.fn(root)
	if f == nil {
		return
	}
	e := r.run(root, Config{})
	b := param(f, 0)
	post0 := loadTM(nil, newFacts(), fld(b, "book.Book", "post"), fldT("book.Book", "post"))
	done := 0
	for _, p := range e.returns() {
		if p.Holds(cmp0("=", mkLen(post0))) {
			continue
		}
		checkCompactPath(r, f, b, post0, p)
		done++
	}
	r.need(done > 0, "compact", "Transactions", f.Pos(), "never goes through the postings")
	for ev := range sortCalls(e) {
		if elemIsType(ev, tPosting) {
			checkSort(r, "posting-order", f, ev, tPosting, postOrder)
		}
	}
	r.atLeast("posting-order", 8)
	r.atLeast("merge-equal-keys", 1)
	r.atLeast("drop-zero", 1)
	r.atLeast("keep-whole", 2)
	r.atLeast("running-balance", 2)
}

func checkCompactPath(r *Report, f *ssa.Function, b, post0 *Term, p *Path) {
	cur := post0
	at := f.Pos()
	cons := func(l *Loop) string { return shortFn(l.Fn) }
	sorted := false
	for _, ev := range p.Events() {
		if ev.Kind == "call" && sortEv(ev) && elemIsType(ev, tPosting) {
			s := ev.Args[0]
			if s.Op == OIface {
				s = s.Args[0]
			}
			r.need(s == cur, "sorted-first", shortFn(f), ev.Pos, "sorts something other than all the postings")
			sorted = true
		}
		if ev.Kind != "loop" {
			continue
		}
		l := ev.Loop
		if !r.need(sorted, "sorted-first", cons(l), ev.Pos, "the postings are gone through before they are sorted") {
			return
		}
		l2 := l
		_ = l2
		ca := classifyLoop(p, l, cur)
		switch ca {
		case "keep":
			k, why := asKeepLoop(p, l, cur)
			if !r.need(k != nil, "keep-whole", cons(l), ev.Pos, "the postings kept are not decided: %s", why) {
				return
			}
			merged := false
			for _, bk := range l.Backs {
				if bk.kindOf(l) == "merge" {
					merged = true
				}
			}
			for _, bk := range l.Backs {
				checkKeepIter(r, l, bk, cur, k, merged, ev.Pos)
			}
			cur = k.out
		case "balance", "part", "none":
		default:
			r.need(false, "compact", cons(l), ev.Pos, "what this loop does to the postings is not decided")
		}
	}
	_ = at
	// the outcome
	post := p.Load(fld(b, "book.Book", "post"), fldT("book.Book", "post"))
	r.need(post == cur, "outcome", shortFn(f), f.Pos(), "the book does not end up with the postings kept: has %v, kept %v", post, cur)
	trans := p.Load(fld(b, "book.Book", "trans"), fldT("book.Book", "trans"))
	_ = trans
	empty := p.Holds(cmp0("=", mkLen(cur)))
	if !empty {
		checkPartition(r, f, p, cur, fld(b, "book.Book", "trans"))
		checkBalances(r, f, p, cur)
	} else {
		tr := p.Load(fld(b, "book.Book", "trans"), fldT("book.Book", "trans"))
		r.need(p.Holds(cmp0("=", mkLen(tr))), "partition", shortFn(f)+" empty", f.Pos(), "transactions are left when there are no postings")
	}
}

func sortEv(ev *Event) bool {
	return ev.Name == "sort.Slice" || ev.Name == "sort.SliceStable" || strings.HasPrefix(ev.Name, "slices.Sort")
}

// kindOf: does the iteration add one amount into another?
func (b *Path) kindOf(l *Loop) string {
	for _, w := range b.writesSince(l.IterMem) {
		if w.addr.Op == ONumLoc {
			return "merge"
		}
	}
	return ""
}

// classifyLoop says what a loop over the postings in s is for
func classifyLoop(p *Path, l *Loop, s *Term) string {
	elems, balW, numW, sliceW := false, false, false, false
	for _, b := range l.Backs {
		for _, w := range b.writesSince(l.IterMem) {
			r := rootObj(w.addr)
			switch {
			case w.addr.Op == ONumLoc && isFieldLoad(w.addr.Args[0], tPosting, "bal"):
				balW = true
			case w.addr.Op == ONumLoc && isFieldLoad(w.addr.Args[0], tPosting, "val"):
				numW = true
			case (w.addr.Op == OFld || w.addr.Op == OIdx) && appendRoot(baseSlice(r)) == appendRoot(baseSlice(s)):
				elems = true
			}
			if w.val != nil && w.val.Op == OAppend && len(w.val.Args) == 2 && baseSlice(w.val.Args[1]) == baseSlice(s) {
				sliceW = true
			}
		}
		for _, v := range b.Next {
			if v.Op == OAppend && len(v.Args) == 2 && v.Args[1].Op == OSlice {
				sliceW = true
			}
		}
	}
	switch {
	case sliceW && !elems && !numW:
		return "part"
	case balW && !elems && !numW:
		return "balance"
	case elems || numW:
		return "keep"
	}
	// does it keep some by counting only, or in a list of their own?
	if k, _ := asKeepLoop(p, l, s); k != nil {
		for _, b := range l.Backs {
			if !k.kept(b) || k.app != nil {
				return "keep"
			}
		}
	}
	return "none"
}

// isFieldLoad: t was read from field name of an object of type typ
func isFieldLoad(t *Term, typ, name string) bool {
	if t.Op != OLd && t.Op != OInit || len(t.Args) == 0 {
		return false
	}
	a := t.Args[0]
	if a.Op != OFld {
		return false
	}
	ty := lookupType(typ)
	return a.Aux == fmt.Sprintf("%s.%s#%d", shortType(ty), name, fieldIdx(ty, name))
}

// checkKeepIter: one iteration of a loop that keeps some postings either moves the whole of
// the posting to the next free place, or adds its amount to the last one kept because they
// agree in date, payee, account and currency, or drops it because the amount is zero
func checkKeepIter(r *Report, l *Loop, b *Path, s *Term, k *keepLoop, merging bool, at token.Pos) {
	t := postT()
	st := t.Underlying().(*types.Struct)
	c := shortFn(l.Fn)
	i := k.idx
	f0 := b.facts
	for j := 0; j < st.NumFields(); j++ {
		_ = j
	}
	val := elemF(b, l.IterMem, s, i, "val")
	num := b.LoadAt(l.IterMem, numLoc(val), nil)
	ws := b.writesSince(l.IterMem)
	if k.kept(b) {
		ok := true
		bad := ""
		if k.app != nil {
			want := b.LoadAt(l.IterMem, idxAddr(s, i, t), t)
			got := b.Next[k.app].Args[1]
			for j := 0; j < st.NumFields(); j++ {
				if mkField(got, j, st.Field(j).Type()) != mkField(want, j, st.Field(j).Type()) {
					ok = false
					bad = st.Field(j).Name()
				}
			}
		}
		atPlace := k.app != nil || f0.decide(cmp0("=", nSub(k.free, i))) == 1
		if !atPlace && f0.decide(cmp0("<", nSub(k.free, i))) != 1 {
			// place and index are the same here if the place is never beyond the index
			le := bNot(cmp0(">", nSub(k.free, i)))
			if inductive(l, newFacts(), le) {
				g := f0.clone()
				if g.assume(le, true) && (g.decide(cmp0("=", nSub(k.free, i))) == 1 || g.decide(cmp0("<", nSub(k.free, i))) == -1) {
					atPlace = true
				}
			}
		}
		if !atPlace {
			for j := 0; j < st.NumFields(); j++ {
				ft := st.Field(j).Type()
				want := b.LoadAt(l.IterMem, fldAddr(idxAddr(s, i, t), t, j), ft)
				got := b.Load(fldAddr(idxAddr(s, k.free, t), t, j), ft)
				if got != want {
					ok = false
					bad = st.Field(j).Name()
				}
			}
		}
		for _, w := range ws {
			if w.addr.Op == ONumLoc {
				ok = false
				bad = "amount"
			}
		}
		r.need(ok, "keep-whole", c, b.Pos, "a posting that is kept is not moved whole to the next place (%s)", bad)
		return
	}
	// not kept: merged into the last kept, or zero
	var adds []*Mem
	for _, w := range ws {
		if w.addr.Op == ONumLoc {
			adds = append(adds, w)
		}
	}
	if len(adds) == 0 {
		r.need(b.Holds(cmp0("=", num)), "drop-zero", c, b.Pos, "a posting is dropped although its amount is not known to be zero")
		return
	}
	last := nSub(k.free, cInt(1))
	o := s
	if k.app != nil {
		o = k.app
	}
	tval := elemF(b, l.IterMem, o, last, "val")
	tnum := b.LoadAt(l.IterMem, numLoc(tval), nil)
	got := b.Load(numLoc(b.Load(fld(idxAddr(o, last, t), tPosting, "val"), fldT(tPosting, "val"))), nil)
	r.need(got == nAdd(tnum, num), "merge-adds", c, b.Pos, "postings are merged but the amount becomes %v", got)
	miss, eq := "", true
	for _, fd := range []string{"date", "payee", "acct", "ccy"} {
		if !b.same(elemF(b, l.IterMem, s, i, fd), elemF(b, l.IterMem, o, last, fd), fldT(tPosting, fd)) {
			miss, eq = fd, false
		}
	}
	r.need(eq, "merge-equal-keys", c, b.Pos, "postings are merged although they may differ in %s", miss)
}

// checkPartition: the transactions are consecutive runs of the postings in s that agree in
// date and payee, and cover all of them
func checkPartition(r *Report, f *ssa.Function, p *Path, s *Term, transAddr *Term) {
	n := mkLen(s)
	found := false
	for _, l := range p.loopsOn() {
		if classifyLoop(p, l, s) != "part" {
			continue
		}
		found = true
		partitionLoop(r, f, p, l, s, n)
	}
	r.need(found, "partition", shortFn(f), f.Pos(), "the postings are not divided into transactions")
}

// newSlices are the runs of s that the path appends to a list of transactions after memory m
func newSlices(b *Path, m *Mem, s *Term) (r []*Term) {
	seen := map[*Term]bool{}
	add := func(v *Term) {
		if v != nil && v.Op == OAppend && len(v.Args) == 2 && v.Args[1].Op == OSlice && baseSlice(v.Args[1]) == baseSlice(s) && !seen[v.Args[1]] {
			seen[v.Args[1]] = true
			r = append(r, v.Args[1])
		}
	}
	for _, w := range b.writesSince(m) {
		add(w.val)
	}
	for _, v := range b.Next {
		add(v)
	}
	for _, v := range b.Results {
		add(v)
	}
	return
}

func partitionLoop(r *Report, f *ssa.Function, p *Path, l *Loop, s, n *Term) {
	c := shortFn(l.Fn)
	// the start of the run: the low end of what is appended
	var lo *Term
	for _, q := range append(append([]*Path{}, l.Backs...), p) {
		for _, sl := range newSlices(q, l.IterMem, s) {
			lo = sl.Args[1]
		}
	}
	if !r.need(lo != nil && lo.Op == OLoopVar && lo.Loop == l, "partition", c, p.Pos, "the start of a transaction is not carried from the end of the one before") {
		return
	}
	r.need(l.Entry[lo] == cInt(0), "partition-start", c, p.Pos, "the first transaction does not start at the first posting")
	boundary := func(q *Path, hi *Term) bool {
		if q.Holds(cmp0("=", nSub(hi, n))) || q.Holds(bNot(cmp0("<", nSub(hi, n)))) {
			return true
		}
		for _, o := range []*Term{lo, nSub(hi, cInt(1))} {
			for _, fd := range []string{"date", "payee"} {
				if q.differ(elemF(q, l.IterMem, s, hi, fd), elemF(q, l.IterMem, s, o, fd), fldT(tPosting, fd)) {
					return true
				}
			}
		}
		return false
	}
	runsAgree(p, l, s, lo, c, r)
	for _, b := range l.Backs {
		sl := newSlices(b, l.IterMem, s)
		if len(sl) == 0 {
			r.need(b.Next[lo] == lo, "partition-cover", c, b.Pos, "postings are passed over without becoming part of a transaction")
			continue
		}
		for _, x := range sl {
			hi := x.Args[2]
			r.need(len(sl) == 1 && x.Args[1] == lo && b.Next[lo] == hi, "partition-cover", c, b.Pos, "consecutive transactions do not meet")
			r.need(boundary(b, hi), "partition-split", c, b.Pos, "a transaction ends before a posting that may have the same date and payee")
		}
	}
	// leaving: the last run reaches the end
	sl := newSlices(p, l.IterMem, s)
	if len(sl) > 0 {
		x := sl[0]
		r.need(x.Args[1] == lo && p.Holds(cmp0("=", nSub(x.Args[2], n))), "partition-end", c, p.Pos, "the last transaction does not reach the last posting")
	} else {
		r.need(p.Holds(bNot(cmp0("<", nSub(lo, n)))), "partition-end", c, p.Pos, "the last postings are in no transaction")
	}
}

// runsAgree: every run that is appended lies within [lo, v+off) for a variable v (of the loop,
// or of one inside it) of which [lo, v+off) holds only postings of the same date and payee:
// v starts at most one past lo, and goes on by one only past a posting that agrees with the
// run's first or with the one before.
func runsAgree(p *Path, l *Loop, s, lo *Term, c string, r *Report) {
	same := func(b *Path, i *Term) bool {
		for _, o := range []*Term{lo, nSub(i, cInt(1))} {
			if _, ok := fieldsSame(b, l.IterMem, s, i, o, "date", "payee"); ok {
				return true
			}
		}
		return false
	}
	within := func(q *Path, hi, end *Term) bool {
		return q.Holds(bNot(cmp0("<", nSub(end, hi))))
	}
	// does the loop l2 keep [lo, v+off) to postings that agree, outside the paths that append?
	keeps := func(l2 *Loop, v, off *Term) string {
		for _, b := range l2.Backs {
			if l2 == l && len(newSlices(b, l.IterMem, s)) > 0 {
				continue
			}
			if b.Next[v] == v {
				continue
			}
			if b.Next[v] != nAdd(v, cInt(1)) || !same(b, nAdd(v, off)) {
				return "a transaction goes on to a posting that may have another date or payee"
			}
		}
		return ""
	}
	qs := append(append([]*Path{}, l.Backs...), p)
	why := "the end of a transaction is not found by comparing postings"
	ok := false
	for _, v := range l.Vars {
		for _, off := range []*Term{cInt(0), cInt(1)} {
			if v == lo || !isIntT(v.Typ) || l.Entry[v] == nil || ok {
				continue
			}
			if !p.Holds(bNot(cmp0("<", nSub(cInt(1), nAdd(l.Entry[v], off))))) {
				continue
			}
			if w := keeps(l, v, off); w != "" {
				why = w
				continue
			}
			all := true
			for _, q := range qs {
				for _, x := range newSlices(q, l.IterMem, s) {
					all = all && within(q, x.Args[2], nAdd(v, off))
					if q != p && !q.Holds(bNot(cmp0("<", nSub(nAdd(q.Next[lo], cInt(1)), nAdd(q.Next[v], off))))) {
						all, why = false, "the posting after the first of a transaction is not compared with it"
					}
				}
			}
			ok = ok || all
		}
	}
	if !ok {
		// the run is found by a loop of its own
		ok = true
		for _, q := range qs {
			for _, x := range newSlices(q, l.IterMem, s) {
				found := false
				for _, l2 := range q.innerLoops(l) {
					for _, v := range l2.Vars {
						for _, off := range []*Term{cInt(0), cInt(1)} {
							if isIntT(v.Typ) && l2.Entry[v] != nil && within(q, x.Args[2], nAdd(v, off)) &&
								q.Holds(bNot(cmp0("<", nSub(nAdd(lo, cInt(1)), nAdd(l2.Entry[v], off))))) {
								if w := keeps(l2, v, off); w == "" {
									found = true
								} else {
									why = w
								}
							}
						}
					}
				}
				ok = ok && found
			}
		}
	}
	r.need(ok, "partition-same", c, p.Pos, "%s", why)
}

// checkBalances: the balance of each posting is the sum of the amounts of its account and
// currency up to and including it
func checkBalances(r *Report, f *ssa.Function, p *Path, s *Term) {
	t := postT()
	n := mkLen(s)
	found := false
	for _, l := range p.loopsOn() {
		if classifyLoop(p, l, s) != "balance" {
			continue
		}
		i, ok := p.idxScan(l, n)
		if !r.need(ok, "running-balance", shortFn(l.Fn), p.Pos, "not every posting gets a balance, in order") {
			return
		}
		for _, v := range l.Vars {
			if b := l.Backs[0]; isIntT(v.Typ) && nSub(b.Next[v], v) != cInt(1) {
				r.need(false, "running-balance", shortFn(l.Fn), p.Pos, "balances are not calculated in order")
			}
		}
		found = true
		for _, b := range l.Backs {
			acct, ccy := elemF(b, l.IterMem, s, i, "acct"), elemF(b, l.IterMem, s, i, "ccy")
			num := b.LoadAt(l.IterMem, numLoc(elemF(b, l.IterMem, s, i, "val")), nil)
			bal := b.Load(numLoc(b.Load(fld(idxAddr(s, i, t), tPosting, "bal"), fldT(tPosting, "bal"))), nil)
			// the map the sums are kept in
			good, why := false, "no running sum is kept"
			for _, h := range mapsTouched(b) {
				key := h.Args[1]
				if !key.contains(acct) || !key.contains(ccy) || len(flatKey(key)) < 2 {
					why = "the running sum is not kept by account and currency"
					continue
				}
				m := h.Args[0]
				mt, isM := m.Typ.Underlying().(*types.Map)
				if !isM {
					continue
				}
				if !isNew(m) {
					why = "the running sums are not started afresh"
					continue
				}
				ent := mapEnt(m, key, mt)
				has := T.mk(OMapHas, "", nil, m, key)
				h0 := b.LoadAt(l.IterMem, has, types.Typ[types.Bool])
				p0 := b.LoadAt(l.IterMem, ent, mt.Elem())
				present := b.Holds(h0) || b.Not(mkEq(p0, cNil()))
				absent := b.Not(h0) || b.Holds(mkEq(p0, cNil()))
				p1 := b.Load(ent, mt.Elem())
				var want *Term
				if present {
					want = nAdd(b.LoadAt(l.IterMem, numLoc(p0), nil), num)
				} else if absent {
					want = num
				}
				if want == nil {
					continue
				}
				sum := b.Load(numLoc(p1), nil)
				// writing the balance may touch the sum only if they are the same number
				if bal == want && (sum == want || sumBefore(b, p1) == want) && b.Load(has, types.Typ[types.Bool]) != cBool(false) {
					if absent && !b.Load(has, types.Typ[types.Bool]).isTrue() {
						why = "a new running sum is not kept"
						continue
					}
					good = true
				} else {
					why = fmt.Sprintf("balance %v, expected %v", bal, want)
				}
			}
			r.need(good, "running-balance", shortFn(l.Fn), b.Pos, "the balance of a posting is not the running sum of its account and currency: %s", why)
		}
	}
	r.need(found, "running-balance", shortFn(f), f.Pos(), "balances are not calculated")
}

// sumBefore is the last value written to the number at ptr itself
func sumBefore(b *Path, ptr *Term) *Term {
	for m := b.Mem; m != nil; m = m.prev {
		if m.kind == mWrite && m.addr == numLoc(ptr) {
			return m.val
		}
	}
	return nil
}

func flatKey(k *Term) []*Term {
	switch k.Op {
	case OStruct, OConcat:
		return k.Args
	}
	return []*Term{k}
}

// mapsTouched are the map presence terms the conditions or changes of the iteration mention
func mapsTouched(b *Path) (r []*Term) {
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		t.any(func(x *Term) bool {
			if (x.Op == OMapHas || x.Op == OMapEnt) && !seen[x] {
				seen[x] = true
				h := T.mk(OMapHas, "", nil, x.Args[0], x.Args[1])
				r = append(r, h)
			}
			return false
		})
	}
	for _, f := range b.Facts() {
		add(f.Cond)
	}
	for _, w := range b.writesSince(b.Loop.IterMem) {
		add(w.addr)
		add(w.val)
	}
	return
}
