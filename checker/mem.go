package main

// Abstract memory: a chain of the changes made on a trace partition, over
// locations named by terms.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type memKind uint8

const (
	mWrite memKind = iota
	mHavoc
)

type Mem struct {
	prev *Mem
	kind memKind
	id   int
	addr *Term
	val  *Term
	hv   *havoc
	n    int
	pos  token.Pos
	fn   *ssa.Function
}

// havoc is a set of locations that may have changed
type havoc struct {
	exact map[*Term]bool
	class map[string]bool // every location of the class
	other map[string]bool // every location of the class in objects that can be reached from elsewhere
	esc   map[*Term]bool  // those of the objects made on the path that can be
	elems map[*Term]bool  // every location in elements of the slice/array/map
	under map[*Term]bool  // every location reached through the term
	all   bool
	full  bool           // also variables that only this function has
	drop  map[*Term]bool // of the variables that others only read, those that this full one is about
	rest  bool           // every location in objects that can be reached from elsewhere
	seq   int            // objects made after this are not affected by class
}

func newHavoc() *havoc {
	return &havoc{exact: map[*Term]bool{}, class: map[string]bool{}, other: map[string]bool{}, elems: map[*Term]bool{}, under: map[*Term]bool{}, seq: 1 << 60}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

// class of locations: two locations of different classes are never the same
func class(a *Term) string {
	switch a.Op {
	case OFld:
		return "f:" + a.Aux
	case OIdx:
		return "e:" + typeName(deref(a.Typ))
	case OMapEnt, OMapHas:
		return "m:" + typeName(a.Args[0].Typ)
	case ONumLoc:
		return "num"
	case OBufLoc:
		return "buf"
	}
	return "t:" + typeName(deref(a.Typ))
}

func rootObj(a *Term) *Term {
	for {
		switch a.Op {
		case OFld, OIdx, OMapEnt, OMapHas, ONumLoc, OBufLoc, OSlice:
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isNew(t *Term) bool { return t.Op == OAlloc || t.Op == OMake }

// objectsMayEqual: can two pointer/slice/map values be the same object?
func objectsMayEqual(a, b *Term, f *Facts) bool {
	if a == b {
		return true
	}
	if a.isNil() || b.isNil() {
		return false
	}
	if isNew(a) && isNew(b) {
		return false
	}
	if a.Op == OGlobal && b.Op == OGlobal {
		return false
	}
	if isNew(b) {
		a, b = b, a
	}
	if isNew(a) {
		// made on this path: not one of the values from before, and only
		// reachable from elsewhere if it was put somewhere
		if b.Op == OGlobal || f != nil && !f.esc[a] && (!f.in[a] || !viaNew(b)) && !carried(b, a) {
			return false
		}
		if b.Max < a.Seq {
			return false
		}
		// a variable whose address isn't taken
		if strings.HasPrefix(a.Aux, "local") {
			return false
		}
	}
	if f != nil && f.decide(mkEq(a, b)) < 0 {
		return false
	}
	return true
}

// viaNew: the value was found through an object made on the path
func viaNew(t *Term) bool {
	return t.any(func(x *Term) bool { return isNew(x) || x.Op == OLoopVar && refType(x.Typ) })
}

// carried: the value is carried round a loop that starts with the object
func carried(b, a *Term) bool {
	return b.any(func(x *Term) bool {
		if x.Op != OLoopVar || x.Loop == nil || !refType(x.Typ) {
			return false
		}
		for _, e := range x.Loop.Entry {
			if e.Max >= a.Seq && e.contains(a) {
				return true
			}
		}
		return false
	})
}

func refType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return true
}

func baseSlice(s *Term) *Term {
	for s.Op == OSlice {
		s = s.Args[0]
	}
	return s
}

// partOf: a is a field of something of the type of b, which is read and written whole
func partOf(a, b *Term) bool {
	if a.Op != OFld || b.Typ == nil {
		return false
	}
	t := deref(a.Args[0].Typ)
	return isOpaqueStruct(t) && types.Identical(deref(b.Typ), t)
}

func mayAlias(a, b *Term, f *Facts) bool {
	if a == b {
		return true
	}
	// part of something that is otherwise read and written whole
	if partOf(a, b) && mayAlias(a.Args[0], b, f) || partOf(b, a) && mayAlias(a, b.Args[0], f) {
		return true
	}
	if class(a) != class(b) {
		return false
	}
	if a.Op != b.Op {
		if a.Op == OMapHas || b.Op == OMapHas {
			return false
		}
		// pointer to T, and a location of type T some other way
		return objectsMayEqual(rootObj(a), rootObj(b), f)
	}
	switch a.Op {
	case OFld:
		return mayAliasPtr(a.Args[0], b.Args[0], f)
	case OIdx:
		sa, sb := baseSlice(a.Args[0]), baseSlice(b.Args[0])
		if sa == sb {
			return f == nil || f.decide(cmp0("=", nSub(a.Args[1], b.Args[1]))) >= 0
		}
		if sa.Op == OAppend || sa.Op == OAppendS || sb.Op == OAppend || sb.Op == OAppendS {
			ra, rb := appendRoot(sa), appendRoot(sb)
			if ra != rb && !objectsMayEqual(ra, rb, f) {
				return false
			}
			return true
		}
		return mayAliasPtr(sa, sb, f)
	case OMapEnt, OMapHas:
		if !objectsMayEqual(a.Args[0], b.Args[0], f) {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return keysMayEqual(a.Args[1], b.Args[1], f)
		}
		return true
	case ONumLoc, OBufLoc:
		return mayAliasPtr(a.Args[0], b.Args[0], f)
	case OGlobal:
		return false
	}
	return objectsMayEqual(a, b, f)
}

func appendRoot(s *Term) *Term {
	for s.Op == OAppend || s.Op == OAppendS || s.Op == OSlice {
		s = s.Args[0]
	}
	return s
}

// pointers that may themselves be addresses inside objects
func mayAliasPtr(a, b *Term, f *Facts) bool {
	if a == b {
		return true
	}
	addrA := a.Op == OFld || a.Op == OIdx || a.Op == OMapEnt
	addrB := b.Op == OFld || b.Op == OIdx || b.Op == OMapEnt
	if addrA && addrB {
		return mayAlias(a, b, f)
	}
	if addrA || addrB {
		return objectsMayEqual(rootObj(a), rootObj(b), f) && !(a.Op == OAlloc || b.Op == OAlloc || a.Op == OGlobal || b.Op == OGlobal)
	}
	return objectsMayEqual(a, b, f)
}

func keysMayEqual(a, b *Term, f *Facts) bool {
	if a == b {
		return true
	}
	if a.isConst() && b.isConst() {
		return false
	}
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if !keysMayEqual(a.Args[i], b.Args[i], f) {
				return false
			}
		}
		return true
	}
	if f == nil {
		return true
	}
	if isStringT(a.Typ) || isStringT(b.Typ) {
		return f.decide(cmpT("==", a, b, types.Typ[types.String])) >= 0
	}
	if isIntT(a.Typ) || isIntT(b.Typ) {
		return f.decide(cmp0("=", nSub(a, b))) >= 0
	}
	return f.decide(mkEq(a, b)) >= 0
}

func (h *havoc) matches(a *Term) bool {
	if h.all {
		r := rootObj(a)
		if h.full && (r.Op != OAlloc || !strings.HasPrefix(r.Aux, "kept_") || h.drop[r]) {
			return true
		}
		if !h.full && r.Op != OAlloc || !h.full && !strings.HasPrefix(r.Aux, "local") && !strings.HasPrefix(r.Aux, "kept_") {
			return true
		}
	}
	if h.exact[a] {
		return true
	}
	if h.class[class(a)] {
		r := rootObj(a)
		if r.Op == OAlloc && strings.HasPrefix(r.Aux, "local") {
			return false
		}
		if (r.Op == OAlloc || r.Op == OMake) && r.Seq > h.seq {
			return false
		}
		return true
	}
	if h.rest || h.other[class(a)] {
		if r := rootObj(a); (!isNew(r) || h.esc[r]) && !strings.HasPrefix(r.Aux, "kept_") {
			return true
		}
	}
	if len(h.elems) > 0 {
		x := a
		for {
			switch x.Op {
			case OIdx:
				if h.elems[baseSlice(x.Args[0])] {
					return true
				}
				x = x.Args[0]
				continue
			case OMapEnt, OMapHas:
				if h.elems[x.Args[0]] {
					return true
				}
				x = x.Args[0]
				continue
			case OFld, ONumLoc, OBufLoc, OSlice:
				x = x.Args[0]
				continue
			}
			break
		}
	}
	if len(h.under) > 0 {
		for u := range h.under {
			if a.contains(u) {
				return true
			}
		}
	}
	return false
}

func (s *State) write(addr, val *Term) {
	T.seq++
	n := 0
	if s.mem != nil {
		n = s.mem.n + 1
	}
	s.mem = &Mem{prev: s.mem, kind: mWrite, id: T.seq, addr: addr, val: val, n: n, pos: s.pos, fn: s.posFn}
	r := rootObj(addr)
	if !isNew(r) || s.facts.esc[r] {
		s.escape(val)
		return
	}
	if val.Max == 0 {
		return
	}
	s.objectsIn(val, func(x *Term) {
		if x != r {
			for _, y := range s.facts.held[r] {
				if x == y {
					return
				}
			}
			s.facts.hold(r, x)
			s.facts.in[x] = true
		}
	})
}

// objectsIn calls f with the objects made on the path that can be reached through the value
func (s *State) objectsIn(v *Term, f func(x *Term)) {
	seen := map[*Term]bool{}
	var rec func(v *Term)
	rec = func(v *Term) {
		if v == nil || v.Max == 0 || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case OAlloc, OMake:
			f(v)
		case OPoly, OCmp, OEq, ONot, OConcat, OLen, OMapHas:
		case OLd, OInit:
			// something that was put there
			r := rootObj(v.Args[0])
			if isNew(r) {
				for _, y := range s.facts.held[r] {
					rec(y)
				}
			} else {
				rec(r)
			}
		case OLoopVar:
			if v.Loop != nil && refType(v.Typ) {
				for _, e := range v.Loop.Entry {
					rec(e)
				}
			}
		case OCall, OFresh:
			if refType(v.Typ) {
				for _, a := range v.Args {
					rec(a)
				}
			}
		default:
			for _, a := range v.Args {
				rec(a)
			}
		}
	}
	rec(v)
}

func (s *State) escapeObj(x *Term) {
	if s.facts.esc[x] {
		return
	}
	s.facts.esc[x] = true
	for _, y := range s.facts.held[x] {
		s.escapeObj(y)
	}
}

// escape notes the objects that can be reached through the value
func (s *State) escape(v *Term) {
	if v.Max == 0 {
		return
	}
	s.objectsIn(v, s.escapeObj)
}

func (s *State) doHavoc(h *havoc) {
	T.seq++
	n := 0
	if s.mem != nil {
		n = s.mem.n + 1
	}
	if h.seq > 1<<59 {
		h.seq = T.seq
	}
	if (h.rest || len(h.other) > 0) && h.esc == nil {
		h.esc = make(map[*Term]bool, len(s.facts.esc))
		for k := range s.facts.esc {
			h.esc[k] = true
		}
	}
	s.mem = &Mem{prev: s.mem, kind: mHavoc, id: T.seq, hv: h, n: n}
}

func ldTerm(addr *Term, id int, typ types.Type) *Term {
	t := T.mk(OLd, fmt.Sprint(id), typ, addr)
	if t.Seq == 0 {
		t.Seq = id
		if id > t.Max {
			t.Max = id
		}
	}
	return t
}

// load reads a location that is not split into fields
func (s *State) load(addr *Term, typ types.Type) *Term {
	return loadMem(s.mem, s.facts, addr, typ)
}

func loadMem(m *Mem, f *Facts, addr *Term, typ types.Type) *Term {
	// the numerator and denominator that belong to a number
	if addr.Op == ONumLoc && addr.Args[0].Op == OCall {
		switch addr.Args[0].Aux {
		case "numptr":
			return T.mk(OCall, "numer", types.Typ[types.Int], loadMem(m, f, numLoc(addr.Args[0].Args[0]), nil))
		case "denptr":
			return T.mk(OCall, "denom", types.Typ[types.Int], loadMem(m, f, numLoc(addr.Args[0].Args[0]), nil))
		}
	}
	made := 0
	if r := rootObj(addr); r.Op == OAlloc || r.Op == OMake {
		made = r.Seq
	}
	for ; m != nil && m.id >= made; m = m.prev {
		if m.kind == mWrite {
			if m.addr == addr {
				return m.val
			}
			if mayAlias(m.addr, addr, f) {
				return ldTerm(addr, m.id, typ)
			}
		} else if m.hv.matches(addr) {
			return ldTerm(addr, m.id, typ)
		}
	}
	return initial(addr, typ)
}

func initial(addr *Term, typ types.Type) *Term {
	// contents of something made on this path
	switch addr.Op {
	case OAlloc:
		return zeroOf(typ)
	case OMapEnt, OMapHas:
		if addr.Args[0].Op == OMake {
			return zeroOf(typ)
		}
	case ONumLoc:
		if o := addr.Args[0]; o.Op == OAlloc || (o.Op == OFld || o.Op == OIdx) && (rootObj(o).Op == OAlloc || rootObj(o).Op == OMake) {
			return cInt(0)
		}
	case OBufLoc:
		if o := addr.Args[0]; o.Op == OAlloc || o.Op == OFld && rootObj(o).Op == OAlloc {
			return cStr("")
		}
	case OFld:
		if addr.Args[0].Op == OIdx {
			if e, ok := elemOf(addr.Args[0]); ok {
				return mkField(e, fldIndex(addr), typ)
			}
		}
		if r := rootObj(addr); r.Op == OAlloc || r.Op == OMake {
			return zeroOf(typ)
		}
	case OIdx:
		if e, ok := elemOf(addr); ok {
			return e
		}
		if r := rootObj(addr); r.Op == OAlloc || r.Op == OMake {
			return zeroOf(typ)
		}
	}
	return T.mk(OInit, "", typ, addr)
}

func fldIndex(addr *Term) int {
	i := strings.LastIndexByte(addr.Aux, '#')
	n := 0
	fmt.Sscan(addr.Aux[i+1:], &n)
	return n
}

// elemOf resolves an element of an append with known elements
func elemOf(addr *Term) (*Term, bool) {
	s, i := addr.Args[0], addr.Args[1]
	for {
		switch s.Op {
		case OAppend:
			d := nSub(i, mkLen(s.Args[0]))
			if k, ok := d.intVal(); ok {
				if k >= 0 && int(k) < len(s.Args)-1 {
					return s.Args[k+1], true
				}
				if k < 0 {
					s = s.Args[0]
					continue
				}
			}
			return nil, false
		}
		return nil, false
	}
}

// zeroOf is the zero value of a type
func zeroOf(t types.Type) *Term {
	if t == nil {
		return cNil()
	}
	if isOpaqueStruct(t) {
		return T.mk(OConst, "zero:"+typeName(t), t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsNumeric != 0:
			return cInt(0)
		}
		return cNil()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return T.mk(OStruct, typeName(t), t, fs...)
	case *types.Array:
		if u.Len() <= 64 {
			var fs []*Term
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, zeroOf(u.Elem()))
			}
			return T.mk(OStruct, typeName(t), t, fs...)
		}
		return T.mk(OConst, "zero:"+typeName(t), t)
	}
	return cNil()
}

// isOpaqueStruct: struct types whose fields are not ours to look at
func isOpaqueStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if strings.HasPrefix(p.Path(), modPath) {
		return false
	}
	// one that can be put together field by field is known field by field
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return st.NumFields() == 0
}

func isFlat(t types.Type) bool {
	if t == nil || isOpaqueStruct(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return true
	case *types.Array:
		return u.Len() <= 64
	}
	return false
}

func fldAddr(base *Term, st types.Type, i int) *Term {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	return T.mk(OFld, fmt.Sprintf("%s.%s#%d", shortType(st), u.Field(i).Name(), i), types.NewPointer(ft), base)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func idxAddr(s, i *Term, et types.Type) *Term {
	for s.Op == OSlice {
		i = nAdd(s.Args[1], i)
		s = s.Args[0]
	}
	return T.mk(OIdx, "", types.NewPointer(et), s, i)
}

// loadT reads a location of any type
func (s *State) loadT(addr *Term, typ types.Type) *Term { return loadTM(s.mem, s.facts, addr, typ) }

func loadTM(m *Mem, f *Facts, addr *Term, typ types.Type) *Term {
	if isBigNum(typ) {
		return T.mk(OStruct, "bignum", typ, loadMem(m, f, numLoc(addr), nil))
	}
	if !isFlat(typ) {
		return loadMem(m, f, addr, typ)
	}
	var fs []*Term
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, loadTM(m, f, fldAddr(addr, typ, i), u.Field(i).Type()))
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			fs = append(fs, loadTM(m, f, idxAddr(addr, cInt(i), u.Elem()), u.Elem()))
		}
	}
	// a whole value read back is that value
	if len(fs) > 0 && fs[0].Op == OField && fs[0].Aux == "0" {
		x := fs[0].Args[0]
		same := true
		for i, q := range fs {
			if q.Op != OField || q.Args[0] != x || q.Aux != fmt.Sprint(i) {
				same = false
			}
		}
		if same && typeName(x.Typ) == typeName(typ) {
			return x
		}
	}
	return T.mk(OStruct, typeName(typ), typ, fs...)
}

// storeT writes a location of any type
func (s *State) storeT(addr, val *Term, typ types.Type) {
	if isBigNum(typ) {
		v := val
		if val.Op == OStruct && len(val.Args) == 1 {
			v = val.Args[0]
		} else if val.isConst() {
			v = cInt(0)
		}
		s.write(numLoc(addr), v)
		return
	}
	if !isFlat(typ) {
		s.write(addr, val)
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			s.storeT(fldAddr(addr, typ, i), mkField(val, i, u.Field(i).Type()), u.Field(i).Type())
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			s.storeT(idxAddr(addr, cInt(i), u.Elem()), mkField(val, int(i), u.Elem()), u.Elem())
		}
	}
}

func numLoc(p *Term) *Term { return T.mk(ONumLoc, "", nil, p) }
func bufLoc(p *Term) *Term { return T.mk(OBufLoc, "", nil, p) }

func isBigNum(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == "math/big" && (n.Obj().Name() == "Rat" || n.Obj().Name() == "Int")
}
