package main

// Accounts opened and closed in beancount files.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keysOf: list holds all the keys of m
func keysOf(p *Path, list, m *Term) *listing {
	b := p.builtFrom(list, m)
	if b == nil {
		return nil
	}
	for _, x := range b.elems {
		if x == nil || x != b.sc.key {
			return nil
		}
	}
	return b
}

// sortedSince: the list is sorted on the path after the loop was left
func sortedSince(p *Path, list *Term, l *Loop) bool {
	on := false
	for _, ev := range p.Events() {
		if ev.Kind == "endloop" && ev.Loop == l || ev.Kind == "loop" && ev.Loop == l {
			on = true
		}
		if on && ev.Kind == "call" && isSort(ev) && len(ev.Args) > 0 && ev.Args[0].contains(list) {
			return true
		}
	}
	return false
}

func isSort(ev *Event) bool {
	return strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "sort.Search") && !strings.HasSuffix(ev.Name, "Sorted") && !strings.HasPrefix(ev.Name, "sort.Find") || strings.HasPrefix(ev.Name, "slices.Sort") || strings.HasSuffix(ev.Name, "Slice).Sort")
}

// checkAccountDates: C37
func checkAccountDates(r *Report) {
	add := lookup("book.Date.AddDays")
	for _, n := range []string{"cmd/reports.ShowBeancount", "cmd/export.ShowBeancount"} {
		f := r.fn(n)
		if f == nil {
			continue
		}
		cfg, _ := printMode()
		mode := cfg.Mode
		cfg.Mode = func(g *ssa.Function) Mode {
			if g == add {
				return MPure
			}
			return mode(g)
		}
		e := r.runFn(f, nil, cfg)
		c := shortFn(f)
		k := 0
		for _, p := range e.returns() {
			r.need(retErr(p) != 1 || failedCall(p), "refused", c, p.Pos, "it fails although nothing that it did has failed")
			if retErr(p) == 1 {
				continue
			}
			trans := param(f, 1)
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.Fn != nil && shortFn(ev.Fn) == "(*book.Book).Transactions" {
					trans = ev.part(0)
				}
			}
			_, loops := outputOf(p, nil)
			st := transLoop(p, loops, trans)
			if !r.need(st != nil, "account-lines", c, p.Pos, "not every transaction is printed, in order") {
				continue
			}
			var ol *Loop
			n := 0
			for _, l := range loops {
				if l == st.l {
					break
				}
				ol = l
				n++
			}
			if r.need(n == 1, "account-open", c, p.Pos, "the accounts are not listed once before the transactions (%d times)", n) {
				k++
				accountLines(r, c, p, ol, st, add)
			}
		}
		r.need(k > 0, "account-open", c, f.Pos(), "no path lists the accounts")
	}
	r.atLeast("account-open", 4)
	r.atLeast("account-close", 2)
	r.atLeast("account-balance", 4)
}

// acctText: how the account is written in the line of a posting, and the posting's account
func acctText(st *scan) (text, acct *Term, ps *scan) {
	for _, b := range st.l.Backs {
		_, loops := outputOf(b, st.l)
		for _, l := range loops {
			elem := st.elem(b)
			idx, ok := b.idxScan(l, mkLen(elem))
			if !ok {
				continue
			}
			ps = &scan{l, elem, idx, nil}
			for _, q := range l.Backs {
				texts, _ := outputOf(q, l)
				acct = ps.field(q, "acct")
				_, vals := pieces(texts[0])
				for _, v := range vals {
					if beanAcct(acct)(q, v) {
						return v, acct, ps
					}
				}
			}
		}
	}
	return nil, nil, nil
}

func accountLines(r *Report, c string, p *Path, ol *Loop, st *scan, add *ssa.Function) {
	var sc *scan
	for _, x := range p.scans(ol) {
		if x.idx != nil {
			y := x
			sc = &y
		}
	}
	if !r.need(sc != nil, "account-all", c, p.Pos, "not every account is gone over") {
		return
	}
	// the accounts are the keys of a map, sorted
	var m *Term
	for _, l := range p.loopsOn() {
		for _, x := range p.scans(l) {
			if x.key != nil && keysOf(p, sc.over, x.over) != nil {
				m = x.over
				r.need(sortedSince(p, sc.over, l), "account-sorted", c, p.Pos, "the accounts are not sorted")
			}
		}
	}
	if !r.need(m != nil, "account-all", c, p.Pos, "the accounts listed are not all of those collected: %v", sc.over) {
		return
	}
	mt, _ := mapOf(m)
	for _, b := range ol.Backs {
		texts, loops := outputOf(b, ol)
		acct := sc.elem(b)
		info := b.LoadAt(ol.IterMem, mapEnt(m, acct, mt), mt.Elem())
		if !r.need(len(loops) == 0, "account-open", c, b.Pos, "more than lines to open and close are printed") {
			continue
		}
		var first, last *Term
		anyDate := func(dst **Term) role {
			return func(p *Path, t *Term) bool {
				var d *Term
				if t.Op == OCall && len(t.Args) == 1 {
					d = t.Args[0]
				}
				if d == nil || !dateText(d)(p, t) {
					return false
				}
				if d.Op == OCall && d.Aux == callName(add) {
					if len(d.Args) != 2 || d.Args[1] != cInt(1) {
						return false
					}
					*dst = d.Args[0]
					return dst == &last
				}
				*dst = d
				return dst == &first
			}
		}
		if lineIs(b, texts[0], ``, anyDate(&first), ` +open +`, is(acct), ` *\n`) {
			r.need(first.contains(info) && fieldOf(first) != "", "account-open", c, b.Pos, "the account is not opened on the date noted for it: %v", first)
			r.need(anyBalance(b, info, m), "account-close", c, b.Pos, "an account without a balance is not closed")
		} else if r.need(lineIs(b, texts[0], ``, anyDate(&first), ` +open +`, is(acct), ` *\n`, anyDate(&last), ` +close +`, is(acct), ` *\n`), "account-open", c, b.Pos, "the account is not opened, and closed the day after the last posting: %v", texts[0]) {
			r.need(first.contains(info) && last.contains(info) && fieldOf(first) != "" && fieldOf(last) != "", "account-open", c, b.Pos, "the account is not opened and closed on the dates noted for it: %v", texts[0])
			r.need(noBalance(b, info), "account-close", c, b.Pos, "an account is closed that may have a balance in some currency")
		}
		if first != nil {
			collected(r, c, p, m, st, fieldOf(first), fieldOf(last))
		}
	}
}

// balanceLoops are the loops on b over a map of amounts reached from info
func balanceLoops(b *Path, info *Term) (r []scan) {
	for _, l := range b.loopsOn() {
		for _, q := range l.Backs {
			for _, f := range q.Facts() {
				if f.Val && f.Cond.Op == OFresh && f.Cond.name() == "rangeok" && len(f.Cond.Args) == 1 && f.Cond.Args[0].contains(info) && f.Cond.Seq > l.Start {
					r = append(r, scan{l, f.Cond.Args[0], nil, rangeKey(f.Cond)})
				}
			}
		}
	}
	return
}

func (s *scan) isZero(q *Path) (zero, not bool) {
	e := s.elem(q)
	num := q.LoadAt(s.l.IterMem, numLoc(e), nil)
	z := cmp0("=", num)
	return q.Holds(z), q.Not(z)
}

// noBalance: on b, every entry is zero
func noBalance(b *Path, info *Term) bool {
	for _, s := range balanceLoops(b, info) {
		if _, ok := b.mapScan(s.l, s.over); !ok {
			continue
		}
		s := s
		if everyIter(b, s.l, func(q *Path) bool { z, _ := s.isZero(q); return z }) {
			return true
		}
	}
	return false
}

// anyBalance: on b, some entry is not zero
func anyBalance(b *Path, info, m *Term) bool {
	for _, s := range balanceLoops(b, info) {
		s := s
		// left early, at one that is not zero
		num := b.Facts()
		for _, f := range num {
			if f.Cond.Op == OCmp && f.Cond.contains(s.key) && b.Not(cmp0("=", b.LoadAt(s.l.IterMem, numLoc(s.elem(b)), nil))) {
				return true
			}
		}
		if someIter(b, s.l, func(q *Path) bool { _, not := s.isZero(q); return not }) {
			return true
		}
	}
	return false
}

// collected: what is noted for an account is the dates of its first and last posting and its
// balance in each currency
func collected(r *Report, c string, p *Path, m *Term, st *scan, first, last string) {
	text, acct, _ := acctText(st)
	if !r.need(text != nil, "account-key", c, p.Pos, "no account in the lines of postings") {
		return
	}
	mt, et := mapOf(m)
	var col *scan
	for _, l := range p.loopsOn() {
		if l == st.l {
			break
		}
		if i, ok := p.idxScan(l, mkLen(st.over)); ok {
			if s := (&scan{l, st.over, i, nil}); s.forward() {
				col = s
				break
			}
		}
	}
	if !r.need(col != nil, "account-collect", c, p.Pos, "the accounts are not collected from all transactions, in order") {
		return
	}
	for _, b := range col.l.Backs {
		elem := col.elem(b)
		inner := b.innerLoops(col.l)
		var ps *scan
		for _, l := range inner {
			if i, ok := b.idxScan(l, mkLen(elem)); ok {
				if s := (&scan{l, elem, i, nil}); s.forward() {
					ps = s
				}
			}
		}
		if !r.need(ps != nil, "account-collect", c, b.Pos, "the accounts are not collected from all postings of a transaction") {
			continue
		}
		for _, q := range ps.l.Backs {
			a, ccy, val := ps.field(q, "acct"), ps.field(q, "ccy"), ps.field(q, "val")
			key := subst(text, map[*Term]*Term{acct: a})
			was := q.LoadAt(ps.l.IterMem, T.mk(OMapHas, "", nil, m, key), boolT())
			now := q.Load(T.mk(OMapHas, "", nil, m, key), boolT())
			ent := q.Load(mapEnt(m, key, mt), mt.Elem())
			if !r.need(now.isTrue() || q.Holds(now), "account-collect", c, q.Pos, "the account of a posting is not noted as it is written") {
				continue
			}
			st := deref(et)
			get := func(mem bool, n string) *Term {
				k := fieldIdx(st, n)
				if k < 0 {
					return T.mk(OUndef, n, nil)
				}
				ad := fldAddr(ent, st, k)
				if mem {
					return q.LoadAt(ps.l.IterMem, ad, fieldT(st, k))
				}
				return q.Load(ad, fieldT(st, k))
			}
			date := firstField(q, elem, "date")
			isNewEnt := q.Not(was)
			if !r.need(isNewEnt || q.Holds(was), "account-dates", c, q.Pos, "not known if the account is noted already") {
				continue
			}
			if isNewEnt {
				r.need(isNew(ent), "account-dates", c, q.Pos, "what is noted for an account is not its own")
				r.need(date(q, get(false, first)), "account-dates", c, q.Pos, "the date an account is opened is not that of its first posting: %v", get(false, first))
			} else {
				r.need(ent == q.LoadAt(ps.l.IterMem, mapEnt(m, key, mt), mt.Elem()), "account-dates", c, q.Pos, "what is noted for an account is replaced")
				r.need(get(false, first) == get(true, first), "account-dates", c, q.Pos, "the date an account is opened is changed by a later posting: %v", get(false, first))
			}
			if last != "" {
				r.need(date(q, get(false, last)), "account-dates", c, q.Pos, "the date of the last posting is not noted: %v", get(false, last))
			}
			// the balance in the currency
			ok := false
			for i := 0; i < nFields(st); i++ {
				ft := fieldT(st, i)
				bt, isM := mapTypeOf(ft)
				if !isM || !isNumPtr(bt.Elem()) {
					continue
				}
				bm := q.Load(fldAddr(ent, st, i), ft)
				v := q.Load(mapEnt(bm, ccy, bt), bt.Elem())
				got := q.Load(numLoc(v), nil)
				add := q.LoadAt(ps.l.IterMem, numLoc(val), nil)
				want := add
				hadNone := isNewEnt && isNew(bm)
				if !isNewEnt {
					has := q.LoadAt(ps.l.IterMem, T.mk(OMapHas, "", nil, bm, ccy), boolT())
					switch {
					case q.Holds(has):
						ov := q.LoadAt(ps.l.IterMem, mapEnt(bm, ccy, bt), bt.Elem())
						want = nAdd(q.LoadAt(ps.l.IterMem, numLoc(ov), nil), add)
					case q.Not(has):
						hadNone = true
					}
				}
				if got == want && (!hadNone || isNew(v)) {
					ok = true
				}
			}
			r.need(ok, "account-balance", c, q.Pos, "the amount of a posting is not added to the account's balance in its currency")
		}
	}
}

func nFields(st types.Type) int {
	if s, ok := st.Underlying().(*types.Struct); ok {
		return s.NumFields()
	}
	return 0
}

func fieldT(st types.Type, i int) types.Type { return st.Underlying().(*types.Struct).Field(i).Type() }

func mapTypeOf(t types.Type) (*types.Map, bool) {
	m, ok := t.Underlying().(*types.Map)
	return m, ok
}

func isNumPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigNum(p.Elem())
}
