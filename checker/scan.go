package main

// What loops go over.

import "go/types"

// scan is a loop that goes over every element of a slice (idx) or entry of a map (key)
type scan struct {
	l    *Loop
	over *Term
	idx  *Term
	key  *Term
}

// scans are the slices and maps the loop has gone over to the end on p
func (p *Path) scans(l *Loop) (r []scan) {
	seen := map[*Term]bool{}
	for _, b := range l.Backs {
		for _, f := range b.Facts() {
			f.Cond.any(func(x *Term) bool {
				if x.Op == OLen && len(x.Args) == 1 && !seen[x] {
					seen[x] = true
					if i, ok := p.idxScan(l, x); ok {
						r = append(r, scan{l, x.Args[0], i, nil})
					}
				}
				if x.Op == OFresh && x.name() == "rangeok" && len(x.Args) == 1 && !seen[x] {
					seen[x] = true
					if k, ok := p.mapScan(l, x.Args[0]); ok {
						r = append(r, scan{l, x.Args[0], nil, k})
					}
				}
				return false
			})
		}
	}
	return
}

// scanOf: the first loop left on p that goes over every element of what
func (p *Path) scanOf(what *Term) *scan {
	for _, l := range p.loopsOn() {
		if _, isMap := typUnder(what).(*types.Map); isMap {
			if k, ok := p.mapScan(l, what); ok {
				return &scan{l, what, nil, k}
			}
			continue
		}
		if i, ok := p.idxScan(l, mkLen(what)); ok {
			return &scan{l, what, i, nil}
		}
	}
	return nil
}

func typUnder(t *Term) types.Type {
	if t == nil || t.Typ == nil {
		return nil
	}
	return t.Typ.Underlying()
}

// elem is the element an iteration is about
func (s *scan) elem(b *Path) *Term {
	if s.key != nil {
		mt, ok := s.over.Typ.Underlying().(*types.Map)
		if !ok {
			return nil
		}
		return b.LoadAt(s.l.IterMem, mapEnt(s.over, s.key, mt), mt.Elem())
	}
	et := elemType(s.over.Typ)
	return b.LoadAt(s.l.IterMem, idxAddr(s.over, s.idx, et), et)
}

// elemAddr is where it is
func (s *scan) elemAddr() *Term {
	return idxAddr(s.over, s.idx, elemType(s.over.Typ))
}

// field of the element, as it was when the iteration started
func (s *scan) field(b *Path, name string) *Term {
	et := elemType(s.over.Typ)
	k := fieldIdx(et, name)
	if k < 0 {
		return T.mk(OUndef, name, nil)
	}
	return b.LoadAt(s.l.IterMem, fldAddr(s.elemAddr(), et, k), et.Underlying().(*types.Struct).Field(k).Type())
}

// after is the field of the element at the end of the iteration
func (s *scan) after(b *Path, name string) *Term {
	et := elemType(s.over.Typ)
	k := fieldIdx(et, name)
	if k < 0 {
		return T.mk(OUndef, name, nil)
	}
	return b.Load(fldAddr(s.elemAddr(), et, k), et.Underlying().(*types.Struct).Field(k).Type())
}

// in are the events of the path in the iteration of l it is in
func (p *Path) in(l *Loop) []*Event {
	evs := p.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loop" && evs[i].Loop == l {
			return evs[i+1:]
		}
	}
	return nil
}

// innerLoops are the loops inside l that were left on b
func (b *Path) innerLoops(l *Loop) (r []*Loop) {
	for _, e := range b.in(l) {
		if e.Kind == "loop" {
			r = append(r, e.Loop)
		}
	}
	return
}

func filterCalls(evs []*Event, match func(ev *Event) bool) (r []*Event) {
	for _, e := range evs {
		if e.Kind == "call" && match(e) {
			r = append(r, e)
		}
	}
	return
}

// forward: the elements are gone over from the first to the last
func (s *scan) forward() bool {
	if s.idx == nil {
		return false
	}
	for _, b := range s.l.Backs {
		m := map[*Term]*Term{}
		for _, v := range s.l.Vars {
			m[v] = b.Next[v]
		}
		if subst(s.idx, m) != nAdd(s.idx, cInt(1)) {
			return false
		}
	}
	return len(s.l.Backs) > 0
}

// listing is how a list is made from another: what each iteration over the other adds
type listing struct {
	sc    *scan
	elems map[*Path]*Term // nil: nothing is added
}

// builtFrom: on p, list has been made by going over all of src, each iteration adding at most one
// element, in place or at the end
func (p *Path) builtFrom(list, src *Term) *listing { return p.builtAfter(list, src, 0) }

// builtAfter: so, after the first k elements
func (p *Path) builtAfter(list, src *Term, k int64) *listing {
	for _, l := range p.loopsOn() {
		var sc *scan
		if _, isMap := typUnder(src).(*types.Map); isMap {
			if k, ok := p.mapScan(l, src); ok {
				sc = &scan{l, src, nil, k}
			}
		} else if i, ok := p.idxScan(l, mkLen(src)); ok {
			sc = &scan{l, src, i, nil}
		}
		if sc == nil {
			continue
		}
		r := &listing{sc, map[*Path]*Term{}}
		good := len(l.Backs) > 0
		isVar := false
		for _, v := range l.Vars {
			if v != list {
				continue
			}
			isVar = true
			n, isC := mkLen(l.Entry[v]).intVal()
			good = good && (isC && int64(n) == k || k == 0 && l.Entry[v].isNil())
			for _, b := range l.Backs {
				switch nx := b.Next[v]; {
				case nx == v:
					r.elems[b] = nil
				case nx.Op == OAppend && len(nx.Args) == 2 && nx.Args[0] == v:
					r.elems[b] = nx.Args[1]
				default:
					good = false
				}
			}
		}
		if !isVar {
			et := elemType(list.Typ)
			if et == nil || sc.idx == nil || mkLen(list) != nAdd(mkLen(src), cInt(k)) || !isNew(baseSlice(list)) {
				continue
			}
			at := idxAddr(list, nAdd(sc.idx, cInt(k)), et)
			for _, b := range l.Backs {
				wrote := false
				for _, w := range b.writesSince(l.IterMem) {
					if w.addr == at || w.addr.Op == OFld && w.addr.Args[0] == at {
						wrote = true
					}
				}
				good = good && wrote
				r.elems[b] = b.Load(at, et)
			}
		}
		if good {
			return r
		}
	}
	return nil
}
