package main

// Value terms: a hash-consed (global value numbering) domain. Two program values
// with the same term are the same value on the trace partition being looked at.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst   Op = iota // aux: n:.. number, s:.. string, b:.. bool, nil
	OParam             // aux: name, parameter or free variable of the entry
	OGlobal            // address of a package variable
	OAlloc             // address of an object made on this path
	OFld               // address of field aux of the object at args[0]
	OIdx               // address of element args[1] of slice/array args[0]
	OMapEnt            // entry of map args[0] for key args[1]
	OMapHas            // presence of the key
	ONumLoc            // content of the big number at args[0]
	OBufLoc            // content of the buffer at args[0]
	OInit              // value on entry of location args[0]
	OLd                // value of location args[0] after memory change aux
	OLoopVar           // value of a loop-carried variable at the start of an iteration
	OFresh             // unknown result
	OPoly              // linear/polynomial normal form of numbers
	OCmp               // aux <,>,= of number/string difference with zero
	OEq                // equality of pointers, interfaces, structs, ..
	ONot               // negation
	OStruct            // struct or array value
	OField             // field aux of a struct value
	OLen               // length
	OCap               // capacity
	OSlice             // args[0][args[1]:args[2]]
	OAppend            // append(args[0], args[1:]...)
	OAppendS           // append(args[0], args[1]...)
	OMake              // slice or map made on this path; args[0] length
	OCall              // function of the arguments only
	OConv              // conversion that changes the value
	OIface             // interface holding args[0], of type aux
	OTAssert           // args[0].(aux)
	OTAssertOK
	OClosure // function literal with bindings
	OTuple
	OExtract
	OConcat // string concatenation
	OBin    // anything else
	OUndef
)

var opNames = map[Op]string{OConst: "const", OParam: "param", OGlobal: "global", OAlloc: "alloc", OFld: "fld", OIdx: "idx", OMapEnt: "mapent",
	OMapHas: "maphas", ONumLoc: "num", OBufLoc: "buf", OInit: "init", OLd: "ld", OLoopVar: "loopvar", OFresh: "fresh", OPoly: "poly", OCmp: "cmp",
	OEq: "eq", ONot: "not", OStruct: "struct", OField: "field", OLen: "len", OCap: "cap", OSlice: "slice", OAppend: "append", OAppendS: "appends",
	OMake: "make", OCall: "call", OConv: "conv", OIface: "iface", OTAssert: "tassert", OTAssertOK: "tassertok", OClosure: "closure", OTuple: "tuple",
	OExtract: "extract", OConcat: "concat", OBin: "bin", OUndef: "undef"}

type Term struct {
	ID   int
	Op   Op
	Aux  string
	Args []*Term
	Poly *Poly
	Typ  types.Type
	Fn   *ssa.Function // closures
	Seq  int           // when it was made, for terms that stand for something new
	Max  int           // latest Seq of the term and its parts
	Loop *Loop         // loop variables
	Phi  *ssa.Phi
	NonN bool // never nil
}

type Terms struct {
	tab map[string]*Term
	n   int
	seq int
}

var T = &Terms{tab: map[string]*Term{}}

func (ts *Terms) mk(op Op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.n++
	t := &Term{ID: ts.n, Op: op, Aux: aux, Args: args, Typ: typ}
	for _, a := range args {
		if a.Max > t.Max {
			t.Max = a.Max
		}
	}
	ts.tab[k] = t
	return t
}

func (ts *Terms) fresh(op Op, name string, typ types.Type, args ...*Term) *Term {
	ts.seq++
	t := ts.mk(op, fmt.Sprintf("%s#%d", name, ts.seq), typ, args...)
	t.Seq = ts.seq
	t.Max = ts.seq
	return t
}

func (t *Term) name() string {
	if i := strings.LastIndexByte(t.Aux, '#'); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

// ---- constants

func cNum(r *big.Rat) *Term    { return T.mk(OConst, "n:"+r.RatString(), nil) }
func cInt(i int64) *Term       { return cNum(big.NewRat(i, 1)) }
func cStr(s string) *Term      { return T.mk(OConst, "s:"+s, types.Typ[types.String]) }
func cBool(b bool) *Term       { return T.mk(OConst, "b:"+strconv.FormatBool(b), types.Typ[types.Bool]) }
func cNil() *Term              { return T.mk(OConst, "nil", nil) }
func (t *Term) isNil() bool    { return t.Op == OConst && t.Aux == "nil" }
func (t *Term) isTrue() bool   { return t.Op == OConst && t.Aux == "b:true" }
func (t *Term) isFalse() bool  { return t.Op == OConst && t.Aux == "b:false" }
func (t *Term) isConst() bool  { return t.Op == OConst }
func (t *Term) isStrC() bool   { return t.Op == OConst && strings.HasPrefix(t.Aux, "s:") }
func (t *Term) isNumC() bool   { return t.Op == OConst && strings.HasPrefix(t.Aux, "n:") }
func (t *Term) strVal() string { return t.Aux[2:] }
func (t *Term) numVal() *big.Rat {
	r, _ := new(big.Rat).SetString(t.Aux[2:])
	return r
}

// intVal returns the constant integer or ok false
func (t *Term) intVal() (int64, bool) {
	if !t.isNumC() {
		return 0, false
	}
	r := t.numVal()
	if !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

// ---- polynomials

type factor struct {
	t *Term
	e int
}
type mono struct {
	c *big.Rat
	f []factor
}
type Poly struct {
	m map[string]*mono
}

func monoKey(f []factor) string {
	var sb strings.Builder
	for _, x := range f {
		fmt.Fprintf(&sb, "%d^%d.", x.t.ID, x.e)
	}
	return sb.String()
}

func newPoly() *Poly { return &Poly{m: map[string]*mono{}} }

func (p *Poly) addMono(c *big.Rat, f []factor) {
	k := monoKey(f)
	if o, ok := p.m[k]; ok {
		n := new(big.Rat).Add(o.c, c)
		if n.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{n, f}
		}
		return
	}
	if c.Sign() != 0 {
		p.m[k] = &mono{new(big.Rat).Set(c), f}
	}
}

func polyOf(t *Term) *Poly {
	if t.Op == OPoly {
		return t.Poly
	}
	p := newPoly()
	if t.isNumC() {
		p.addMono(t.numVal(), nil)
		return p
	}
	p.addMono(big.NewRat(1, 1), []factor{{t, 1}})
	return p
}

func (p *Poly) keys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Poly) constant() (*big.Rat, bool) {
	if len(p.m) == 0 {
		return new(big.Rat), true
	}
	if len(p.m) == 1 {
		if m, ok := p.m[""]; ok {
			return m.c, true
		}
	}
	return nil, false
}

func polyTerm(p *Poly) *Term {
	if c, ok := p.constant(); ok {
		return cNum(c)
	}
	if len(p.m) == 1 {
		for _, m := range p.m {
			if len(m.f) == 1 && m.f[0].e == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
				return m.f[0].t
			}
		}
	}
	var sb strings.Builder
	var args []*Term
	seen := map[*Term]bool{}
	for _, k := range p.keys() {
		m := p.m[k]
		sb.WriteString(m.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
		for _, f := range m.f {
			if !seen[f.t] {
				seen[f.t] = true
				args = append(args, f.t)
			}
		}
	}
	sort.Slice(args, func(i, j int) bool { return args[i].ID < args[j].ID })
	t := T.mk(OPoly, sb.String(), nil, args...)
	if t.Poly == nil {
		t.Poly = p
		if len(args) > 0 {
			t.Typ = args[0].Typ
		}
	}
	return t
}

func nAdd(a, b *Term) *Term {
	p := newPoly()
	for _, m := range polyOf(a).m {
		p.addMono(m.c, m.f)
	}
	for _, m := range polyOf(b).m {
		p.addMono(m.c, m.f)
	}
	return polyTerm(p)
}

func nScale(a *Term, c *big.Rat) *Term {
	p := newPoly()
	for _, m := range polyOf(a).m {
		p.addMono(new(big.Rat).Mul(m.c, c), m.f)
	}
	return polyTerm(p)
}
func nNeg(a *Term) *Term    { return nScale(a, big.NewRat(-1, 1)) }
func nSub(a, b *Term) *Term { return nAdd(a, nNeg(b)) }

func mulFactors(a, b []factor) []factor {
	exp := map[*Term]int{}
	for _, f := range a {
		exp[f.t] += f.e
	}
	for _, f := range b {
		exp[f.t] += f.e
	}
	r := make([]factor, 0, len(exp))
	for t, e := range exp {
		if e != 0 {
			r = append(r, factor{t, e})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].t.ID < r[j].t.ID })
	return r
}

func nMul(a, b *Term) *Term {
	p := newPoly()
	for _, x := range polyOf(a).m {
		for _, y := range polyOf(b).m {
			p.addMono(new(big.Rat).Mul(x.c, y.c), mulFactors(x.f, y.f))
		}
	}
	return polyTerm(p)
}

func nInv(a *Term) *Term {
	pa := polyOf(a)
	if len(pa.m) == 1 {
		for _, m := range pa.m {
			f := make([]factor, len(m.f))
			for i, x := range m.f {
				f[i] = factor{x.t, -x.e}
			}
			p := newPoly()
			p.addMono(new(big.Rat).Inv(m.c), f)
			return polyTerm(p)
		}
	}
	// 1/(sum): an opaque factor with exponent -1 of the normalised sum
	n, c := normSign(a)
	atom := T.mk(OCall, "sum", nil, n)
	p := newPoly()
	p.addMono(new(big.Rat).Inv(c), []factor{{atom, -1}})
	return polyTerm(p)
}

// normSign scales the polynomial so that its first coefficient is one; a == n*c
func normSign(a *Term) (*Term, *big.Rat) {
	p := polyOf(a)
	for _, k := range p.keys() {
		if k == "" {
			continue
		}
		c := p.m[k].c
		return nScale(a, new(big.Rat).Inv(c)), new(big.Rat).Set(c)
	}
	return a, big.NewRat(1, 1)
}

// splitConst returns the polynomial without its constant and the constant
func splitConst(a *Term) (*Term, *big.Rat) {
	p := polyOf(a)
	m, ok := p.m[""]
	if !ok {
		return a, new(big.Rat)
	}
	q := newPoly()
	for k, x := range p.m {
		if k != "" {
			q.addMono(x.c, x.f)
		}
	}
	return polyTerm(q), m.c
}

// ---- booleans

func bNot(t *Term) *Term {
	if t.Op == ONot {
		return t.Args[0]
	}
	if t.isTrue() {
		return cBool(false)
	}
	if t.isFalse() {
		return cBool(true)
	}
	return T.mk(ONot, "", types.Typ[types.Bool], t)
}

func isSgn(t *Term) bool { return t.Op == OCall && t.Aux == "sgn" }

// cmp0 is "d rel 0" for rel one of <, >, =
func cmp0(rel string, d *Term) *Term {
	if c, ok := polyOf(d).constant(); ok {
		switch rel {
		case "<":
			return cBool(c.Sign() < 0)
		case ">":
			return cBool(c.Sign() > 0)
		default:
			return cBool(c.Sign() == 0)
		}
	}
	base, k := splitConst(d)
	// sgn(x) compared with a constant is x compared with zero
	if n, c := normSign(base); isSgn(n) {
		x := n.Args[0]
		in := map[int]bool{}
		for s := -1; s <= 1; s++ {
			v := new(big.Rat).Add(new(big.Rat).Mul(c, big.NewRat(int64(s), 1)), k)
			switch rel {
			case "<":
				in[s] = v.Sign() < 0
			case ">":
				in[s] = v.Sign() > 0
			default:
				in[s] = v.Sign() == 0
			}
		}
		switch {
		case in[-1] && in[0] && in[1]:
			return cBool(true)
		case in[-1] && in[0]:
			return bNot(cmp0(">", x))
		case in[0] && in[1]:
			return bNot(cmp0("<", x))
		case in[-1] && in[1]:
			return bNot(cmp0("=", x))
		case in[-1]:
			return cmp0("<", x)
		case in[0]:
			return cmp0("=", x)
		case in[1]:
			return cmp0(">", x)
		}
		return cBool(false)
	}
	// numerators have the sign of the number
	if k.Sign() == 0 {
		if n, c := normSign(base); n.Op == OCall && n.Aux == "numer" {
			return cmp0(rel, nScale(n.Args[0], c))
		}
	}
	n, c := normSign(d)
	if c.Sign() < 0 {
		if rel == "<" {
			rel = ">"
		} else if rel == ">" {
			rel = "<"
		}
	}
	return T.mk(OCmp, rel, types.Typ[types.Bool], n)
}

func nSgn(x *Term) *Term {
	if c, ok := polyOf(x).constant(); ok {
		return cInt(int64(c.Sign()))
	}
	n, c := normSign(x)
	if n.Op == OCall && n.Aux == "numer" {
		n2, c2 := normSign(n.Args[0])
		n, c = n2, new(big.Rat).Mul(c, c2)
	}
	return nScale(T.mk(OCall, "sgn", types.Typ[types.Int], n), big.NewRat(int64(c.Sign()), 1))
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func mkLen(s *Term) *Term {
	it := types.Typ[types.Int]
	switch s.Op {
	case OConst:
		if s.isStrC() {
			return cInt(int64(len(s.strVal())))
		}
		if s.isNil() {
			return cInt(0)
		}
	case OAppend:
		return nAdd(mkLen(s.Args[0]), cInt(int64(len(s.Args)-1)))
	case OAppendS:
		return nAdd(mkLen(s.Args[0]), mkLen(s.Args[1]))
	case OSlice:
		return nSub(s.Args[2], s.Args[1])
	case OMake:
		if len(s.Args) > 0 {
			return s.Args[0]
		}
	}
	return T.mk(OLen, "", it, s)
}

// cmpT compares values of type typ; op is a Go operator
func cmpT(op string, a, b *Term, typ types.Type) *Term {
	switch op {
	case "!=":
		return bNot(cmpT("==", a, b, typ))
	case "<=":
		return bNot(cmpT(">", a, b, typ))
	case ">=":
		return bNot(cmpT("<", a, b, typ))
	}
	rel := map[string]string{"<": "<", ">": ">", "==": "="}[op]
	switch {
	case isBoolT(typ):
		if op == "==" {
			if a == b {
				return cBool(true)
			}
			if a.isTrue() {
				return b
			}
			if b.isTrue() {
				return a
			}
			if a.isFalse() {
				return bNot(b)
			}
			if b.isFalse() {
				return bNot(a)
			}
		}
	case isStringT(typ):
		if a.isStrC() && b.isStrC() {
			c := strings.Compare(a.strVal(), b.strVal())
			return cBool(rel == "<" && c < 0 || rel == ">" && c > 0 || rel == "=" && c == 0)
		}
		if rel == "=" && a.isStrC() && a.strVal() == "" {
			return cmp0("=", mkLen(b))
		}
		if rel == "=" && b.isStrC() && b.strVal() == "" {
			return cmp0("=", mkLen(a))
		}
		return cmp0(rel, nSub(a, b))
	case isIntT(typ), isFloatT(typ):
		return cmp0(rel, nSub(a, b))
	}
	if op != "==" {
		if a.ID > b.ID {
			return T.mk(OBin, rel+"'", types.Typ[types.Bool], b, a)
		}
		return T.mk(OBin, rel, types.Typ[types.Bool], a, b)
	}
	if a == b {
		return cBool(true)
	}
	// structs and arrays: field by field
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		return mkEq(a, b)
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return cBool(false)
	}
	// nil slices have no elements; an interface is never equal to nil if it holds something
	return mkEq(a, b)
}

func mkEq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return T.mk(OEq, "", types.Typ[types.Bool], a, b)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OFld, OIdx, OGlobal, OClosure, OIface, OMake, OAppend:
		return true
	case OConst:
		return !t.isNil()
	}
	return t.NonN
}

func mkField(x *Term, i int, typ types.Type) *Term {
	if x.Op == OStruct && i < len(x.Args) {
		return x.Args[i]
	}
	return T.mk(OField, strconv.Itoa(i), typ, x)
}

func mkConcat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == OConcat {
			parts = append(parts, t.Args...)
		} else {
			parts = append(parts, t)
		}
	}
	add(a)
	add(b)
	var out []*Term
	for _, p := range parts {
		if p.isStrC() {
			if p.strVal() == "" {
				continue
			}
			if len(out) > 0 && out[len(out)-1].isStrC() {
				out[len(out)-1] = cStr(out[len(out)-1].strVal() + p.strVal())
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return cStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(OConcat, "", types.Typ[types.String], out...)
}

func mkExtract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple {
		return t.Args[i]
	}
	return T.mk(OExtract, strconv.Itoa(i), typ, t)
}

// contains reports if sub is t or a part of it
func (t *Term) contains(sub *Term) bool {
	return t.any(func(x *Term) bool { return x == sub })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string { return t.str(0) }

func fieldName(t *Term) string {
	// aux is "type.index"; show name if known
	return t.Aux
}

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	args := func(ts []*Term) string {
		var s []string
		for _, a := range ts {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if t.isStrC() {
			return strconv.Quote(t.strVal())
		}
		if i := strings.IndexByte(t.Aux, ':'); i >= 0 {
			return t.Aux[i+1:]
		}
		return t.Aux
	case OParam, OGlobal, OAlloc, OFresh, OMake:
		return t.Aux
	case OLoopVar:
		return t.Aux
	case OFld:
		return t.Args[0].str(d+1) + "." + fieldName(t)
	case OIdx:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OMapEnt:
		return t.Args[0].str(d+1) + "{" + t.Args[1].str(d+1) + "}"
	case OInit:
		return "*" + t.Args[0].str(d+1)
	case OLd:
		return "*" + t.Args[0].str(d+1) + "@" + t.Aux
	case ONumLoc, OBufLoc:
		return "val(" + t.Args[0].str(d+1) + ")"
	case OPoly:
		var s []string
		for _, k := range t.Poly.keys() {
			m := t.Poly.m[k]
			x := ""
			if m.c.Cmp(big.NewRat(1, 1)) != 0 || len(m.f) == 0 {
				x = m.c.RatString()
			}
			for _, f := range m.f {
				if x != "" {
					x += "·"
				}
				x += f.t.str(d + 1)
				if f.e != 1 {
					x += fmt.Sprintf("^%d", f.e)
				}
			}
			s = append(s, x)
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OCmp:
		return t.Args[0].str(d+1) + " " + t.Aux + " 0"
	case OEq:
		return t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1)
	case ONot:
		return "!(" + t.Args[0].str(d+1) + ")"
	case OCall:
		return t.Aux + "(" + args(t.Args) + ")"
	case OConcat:
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, "+")
	}
	return opNames[t.Op] + "[" + t.Aux + "](" + args(t.Args) + ")"
}
