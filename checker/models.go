package main

// What the functions outside of the repository do, as far as the rules need it.

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newRat() *big.Rat { return new(big.Rat) }

// functions of their arguments only
var pureFns = map[string]bool{}

// functions that have an effect or an unknown result, but don't change memory we look at
var quietFns = map[string]bool{}

// functions that return something that isn't nil
var nonNilFns = map[string]bool{"regexp.MustCompile": true, "time.Now": true, "bufio.NewReader": true, "encoding/csv.NewReader": true, "encoding/csv.NewWriter": true,
	"bytes.NewReader": true, "encoding/json.NewDecoder": true, "golang.org/x/text/message.NewPrinter": true, "compress/gzip.NewWriter": true,
	"strings.NewReplacer": true, "go.starlark.net/starlark.NewBuiltin": true, "go.starlark.net/starlark.NewDict": true, "go.starlark.net/starlark.NewList": true}

func init() {
	for _, n := range strings.Fields(`
		strings.* strconv.* unicode.* unicode/utf8.* math.* path.* path/filepath.Base path/filepath.Dir path/filepath.Ext path/filepath.Join
		path/filepath.Abs html.* errors.Is
		regexp.Compile regexp.MustCompile regexp.QuoteMeta (*regexp.Regexp).* (*strings.Replacer).Replace
		(time.Time).* time.Date time.Parse time.Unix (time.Duration).* (time.Month).String
		(*math/big.Rat).Float64 (*math/big.Rat).FloatString (*math/big.Rat).RatString (*math/big.Rat).String (*math/big.Rat).IsInt
		(*math/big.Int).BitLen (*math/big.Int).Int64 (*math/big.Int).IsInt64 (*math/big.Int).String
		(go.starlark.net/starlark.Int).BigInt (go.starlark.net/starlark.Float).String (go.starlark.net/starlark.NoneType).Type
		golang.org/x/text/message.MatchLanguage github.com/antzucaro/matchr.JaroWinkler
		(net/url.Values).Encode (*net/url.URL).Query (net/url.Values).Get (*go.starlark.net/starlark.Builtin).Name (*go.starlark.net/starlark.Builtin).Receiver
		(*os.File).Name
	`) {
		pureFns[n] = true
	}
	for _, n := range strings.Fields(`
		time.Now time.Sleep bufio.NewReader bytes.NewReader encoding/csv.NewReader encoding/csv.NewWriter encoding/json.NewDecoder
		encoding/json.Marshal encoding/json.MarshalIndent golang.org/x/text/message.NewPrinter
		os.* (*os.File).* io/ioutil.* os/exec.* golang.org/x/term.* golang.org/x/net/context.Background context.Background
		compress/gzip.NewReader compress/gzip.NewWriter (*compress/gzip.Writer).* (*encoding/csv.Writer).*
		golang.org/x/oauth2.* (*golang.org/x/oauth2.Config).* (*net/http.Client).* go.starlark.net/starlark.NewBuiltin
		go.starlark.net/starlark.NewDict go.starlark.net/starlark.NewList (*go.starlark.net/starlark.Dict).SetKey
		(*go.starlark.net/starlark.Builtin).BindReceiver (*go.starlark.net/starlark.EvalError).Backtrace go.starlark.net/starlark.ExecFile
		github.com/spf13/cobra.* (*github.com/spf13/cobra.Command).OutOrStdout (net/http.ResponseWriter).WriteHeader
		(*bufio.Reader).ReadRune log.Printf net/http.NewRequest (*net/http.Response).* io.ReadAll io.Copy
	`) {
		quietFns[n] = true
	}
}

// what they read goes to where they are told
var fillFns = map[string]bool{"(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).ReadFrom": true, "(*os.File).WriteTo": true}

func inTable(tab map[string]bool, name string) bool {
	if fillFns[name] {
		return false
	}
	if tab[name] {
		return true
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		return tab[name[:i]+".*"]
	}
	return false
}

// numAt is the number a pointer points to
func numAt(s *State, p *Term) *Term { return s.load(numLoc(p), nil) }

// variadic gives the elements of a variadic argument
func variadic(s *State, a *Term) ([]*Term, bool) {
	if a.isNil() {
		return nil, true
	}
	if a.Op == OAppend && a.Args[0].isNil() {
		return a.Args[1:], true
	}
	b := a
	if b.Op == OSlice && b.Args[0].Op == OAlloc {
		if n, ok := mkLen(b).intVal(); ok && n <= 64 {
			var et types.Type
			if a.Typ != nil {
				et = elemType(a.Typ)
			}
			var r []*Term
			for i := int64(0); i < n; i++ {
				r = append(r, s.loadT(idxAddr(b, cInt(i), et), et))
			}
			return r, true
		}
	}
	return nil, false
}

// fmtPieces splits a format with its arguments into text
func fmtPieces(s *State, format *Term, args []*Term, locale bool) *Term {
	if format.Op == OIface && len(format.Args) == 1 {
		format = format.Args[0]
	}
	if !format.isStrC() {
		return T.mk(OCall, "fmt.Sprintf", types.Typ[types.String], append([]*Term{format}, args...)...)
	}
	f := format.strVal()
	out := cStr("")
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit += "%!"
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		flags, verb := f[i+1:j], f[j]
		out = mkConcat(out, cStr(lit))
		lit = ""
		// widths and precisions given as arguments
		var stars []*Term
		for k := strings.Count(flags, "*"); k > 0 && ai < len(args); k-- {
			a := args[ai]
			if a.Op == OIface && len(a.Args) == 1 {
				a = a.Args[0]
			}
			stars = append(stars, a)
			ai++
		}
		if ai >= len(args) {
			out = mkConcat(out, T.mk(OCall, "fmt:missing", types.Typ[types.String]))
		} else {
			x := fmtArg(s, args[ai], flags, verb, locale)
			if len(stars) > 0 {
				x = T.mk(OCall, x.Aux, x.Typ, append(append([]*Term(nil), x.Args...), stars...)...)
			}
			out = mkConcat(out, x)
			ai++
		}
		i = j
	}
	out = mkConcat(out, cStr(lit))
	for ; ai < len(args); ai++ {
		out = mkConcat(out, T.mk(OCall, "fmt:extra", types.Typ[types.String], args[ai]))
	}
	return out
}

func hasMethod(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	for _, n := range names {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

func fmtArg(s *State, a *Term, flags string, verb byte, locale bool) *Term {
	v := a
	t := a.Typ
	if a.Op == OIface && a.Aux != "panic" {
		v = a.Args[0]
	}
	if flags == "" && (verb == 's' || verb == 'v') && isStringT(t) && !hasMethod(t, "String", "Error", "Format") {
		return v
	}
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok && isBigNum(p.Elem()) {
			v = T.mk(OCall, "num", nil, numAt(s, v))
		}
	}
	pre := "fmt:"
	// only numbers depend on the locale
	if locale && (t == nil || isNumT(t) && (verb == 'd' || verb == 'v' || verb == 'f' || verb == 'g' || verb == 'e') && !hasMethod(t, "String", "Error", "Format")) {
		pre = "locale:"
	}
	tn := ""
	if t != nil {
		tn = shortType(t)
	}
	// %d of any integer is its decimal
	if verb == 'd' && isIntT(t) {
		tn = "int"
	}
	// %s and %v are the same if there's a method for it
	if verb == 'v' && flags == "" && hasMethod(t, "String", "Error") {
		verb = 's'
	}
	as := []*Term{v}
	// of bytes, what they are by now
	if isBytes(t) && s != nil {
		as = append(as, bytesNow(s.mem, s.facts, v))
	}
	return T.mk(OCall, pre+"%"+flags+string(verb)+":"+tn, types.Typ[types.String], as...)
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// bytesNow stands for the contents of the slice
func bytesNow(m *Mem, f *Facts, v *Term) *Term {
	return loadMem(m, f, idxAddr(v, T.mk(OUndef, "any", types.Typ[types.Int]), types.Typ[types.Byte]), types.Typ[types.Byte])
}

func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func newNum(s *State, name string, typ types.Type, v *Term) *Term {
	p := T.fresh(OAlloc, "new_"+name, typ)
	s.write(numLoc(p), v)
	return p
}

func tuple(ts ...*Term) *Term { return T.mk(OTuple, "", nil, ts...) }

// model gives the result of a function outside of the repository; nil if there's no model
func model(e *Engine, s *State, fn *ssa.Function, name string, args []*Term, res *types.Tuple) *Term {
	if strings.HasPrefix(name, "(*math/big.") {
		if r := modelBig(s, name, args, res); r != nil {
			return r
		}
	}
	switch name {
	case "math/big.NewRat":
		return newNum(s, "rat", res.At(0).Type(), nMul(args[0], nInv(args[1])))
	case "math/big.NewInt":
		return newNum(s, "int", res.At(0).Type(), args[0])
	case "errors.Is":
		if args[0].isNil() && nonNil(args[1]) {
			return cBool(false)
		}
	case "errors.New":
		t := T.fresh(OFresh, "errors.New", res.At(0).Type(), args[0])
		t.NonN = true
		return t
	case "fmt.Errorf":
		as, ok := variadic(s, args[1])
		if !ok {
			as = []*Term{args[1]}
		}
		t := T.fresh(OFresh, "fmt.Errorf", res.At(0).Type(), append([]*Term{fmtPieces(s, args[0], as, false)}, as...)...)
		t.NonN = true
		return t
	case "fmt.Sprintf", "(*golang.org/x/text/message.Printer).Sprintf":
		k := 0
		loc := false
		if name != "fmt.Sprintf" {
			k, loc = 1, true
		}
		as, ok := variadic(s, args[k+1])
		if !ok {
			n := "fmt.Sprintf..."
			if loc {
				n = "locale:Sprintf..."
			}
			return T.mk(OCall, n, types.Typ[types.String], args[k], args[k+1])
		}
		return fmtPieces(s, args[k], as, loc)
	case "fmt.Printf", "fmt.Fprintf", "(*golang.org/x/text/message.Printer).Fprintf":
		k := 0
		loc := false
		w := T.mk(OGlobal, "os.Stdout", nil)
		if name == "fmt.Fprintf" {
			w, k = args[0], 1
		}
		if strings.HasPrefix(name, "(*golang") {
			w, k, loc = args[1], 2, true
		}
		as, ok := variadic(s, args[k+1])
		var text *Term
		if ok {
			text = fmtPieces(s, args[k], as, loc)
		} else {
			n := "fmt.Sprintf..."
			if loc {
				n = "locale:Sprintf..."
			}
			text = T.mk(OCall, n, types.Typ[types.String], args[k], args[k+1])
		}
		r := freshResult(name, res)
		s.event(&Event{Kind: "call", Fn: fn, Name: "print", Args: []*Term{w, text}, Res: r})
		return r
	case "fmt.Println", "fmt.Print", "fmt.Fprintln", "fmt.Fprint":
		k := 0
		w := T.mk(OGlobal, "os.Stdout", nil)
		if strings.HasPrefix(name, "fmt.F") {
			w, k = args[0], 1
		}
		as, ok := variadic(s, args[k])
		text := cStr("")
		if ok {
			for i, a := range as {
				if i > 0 && strings.HasSuffix(name, "ln") {
					text = mkConcat(text, cStr(" "))
				}
				text = mkConcat(text, fmtArg(s, a, "", 'v', false))
			}
		} else {
			text = T.mk(OCall, "fmt.Sprint", types.Typ[types.String], args[k])
		}
		if strings.HasSuffix(name, "ln") {
			text = mkConcat(text, cStr("\n"))
		}
		r := freshResult(name, res)
		s.event(&Event{Kind: "call", Fn: fn, Name: "print", Args: []*Term{w, text}, Res: r})
		return r
	case "io.WriteString":
		r := freshResult(name, res)
		s.event(&Event{Kind: "call", Fn: fn, Name: "print", Args: []*Term{args[0], args[1]}, Res: r})
		return r
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		s.event(&Event{Kind: "call", Fn: fn, Name: name, Args: args})
		x := args[0]
		if x.Op == OIface {
			x = x.Args[0]
		}
		h := newHavoc()
		h.elems[baseSlice(x)] = true
		s.doHavoc(h)
		return tuple()
	case "sort.Search":
		// what it's given must only look
		if args[1].Op == OClosure && args[1].Fn != nil {
			if ef := effectsOf(args[1].Fn); !ef.unknown && len(ef.classes) == 0 {
				r := freshResult(name, res)
				s.fact(bNot(cmp0("<", r)), true)
				s.fact(bNot(cmp0(">", nSub(r, args[0]))), true)
				s.event(&Event{Kind: "call", Fn: fn, Name: name, Args: args, Res: r})
				return r
			}
		}
	case "strings.HasPrefix":
		return mkHasPrefix(args[0], args[1])
	case "strings.EqualFold":
		a, b := args[0], args[1]
		if a.isStrC() && b.isStrC() {
			return cBool(strings.EqualFold(a.strVal(), b.strVal()))
		}
		if a == b {
			return cBool(true)
		}
	case "strings.NewReplacer":
		as, ok := variadic(s, args[0])
		if ok {
			t := T.mk(OCall, "strings.NewReplacer", res.At(0).Type(), as...)
			t.NonN = true
			return t
		}
	case "strings.Join":
		as, ok := variadic(s, args[0])
		if ok {
			out := cStr("")
			for i, a := range as {
				if i > 0 {
					out = mkConcat(out, args[1])
				}
				out = mkConcat(out, a)
			}
			return out
		}
	case "regexp.MustCompile":
		t := T.mk(OCall, "regexp.Compile.0", res.At(0).Type(), args[0])
		t.NonN = true
		return t
	}
	if r := modelBuf(s, name, args, res); r != nil {
		return r
	}
	// a function given to it may do anything
	for _, a := range args {
		if fn := a.Fn; a.Op == OClosure && fn != nil {
			if ef := effectsOf(fn); ef.unknown || len(ef.classes) > 0 {
				return nil
			}
		}
	}
	if inTable(pureFns, name) {
		// slices are read: their contents at this time
		as := make([]*Term, len(args))
		for i, a := range args {
			as[i] = a
			if a.Op == OSlice && a.Args[0].Op == OAlloc {
				if els, ok := variadic(s, a); ok {
					as[i] = T.mk(OCall, "list", nil, els...)
				}
			}
		}
		t := pureCall(s, name, as, res)
		if nonNilFns[name] {
			t.NonN = true
		}
		return t
	}
	if inTable(quietFns, name) {
		for _, a := range args {
			s.escape(a)
		}
		ev := s.event(&Event{Kind: "call", Fn: fn, Name: name, Args: args})
		ev.Res = freshResult(name, res)
		if nonNilFns[name] {
			ev.Res.NonN = true
		}
		return ev.Res
	}
	return nil
}

func mkHasPrefix(a, b *Term) *Term {
	if a.isStrC() && b.isStrC() {
		return cBool(strings.HasPrefix(a.strVal(), b.strVal()))
	}
	if b.isStrC() && b.strVal() == "" {
		return cBool(true)
	}
	if a.Op == OConcat && a.Args[0].isStrC() && b.isStrC() {
		p, q := a.Args[0].strVal(), b.strVal()
		if len(p) >= len(q) {
			return cBool(strings.HasPrefix(p, q))
		}
		if !strings.HasPrefix(q, p) {
			return cBool(false)
		}
	}
	if a == b {
		return cBool(true)
	}
	return T.mk(OCall, "strings.HasPrefix", types.Typ[types.Bool], a, b)
}

func modelBig(s *State, name string, args []*Term, res *types.Tuple) *Term {
	isRat := strings.HasPrefix(name, "(*math/big.Rat).")
	if !isRat && !strings.HasPrefix(name, "(*math/big.Int).") {
		return nil
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	z := args[0]
	n := func(i int) *Term { return numAt(s, args[i]) }
	set := func(v *Term) *Term { s.write(numLoc(z), v); return z }
	switch m {
	case "Add":
		return set(nAdd(n(1), n(2)))
	case "Sub":
		return set(nSub(n(1), n(2)))
	case "Mul":
		return set(nMul(n(1), n(2)))
	case "Neg":
		return set(nNeg(n(1)))
	case "Set":
		return set(n(1))
	case "Abs":
		return set(T.mk(OCall, "abs", nil, n(1)))
	case "SetInt64", "SetUint64":
		return set(args[1])
	case "Sign":
		return nSgn(n(0))
	case "Cmp":
		return nSgn(nSub(n(0), n(1)))
	case "CmpAbs":
		return nSgn(nSub(T.mk(OCall, "abs", nil, n(0)), T.mk(OCall, "abs", nil, n(1))))
	case "SetString":
		r := []*Term{z}
		k := T.mk(OCall, "parsenum", nil, args[1:]...)
		set(k)
		r = append(r, T.mk(OCall, "parsenum.ok", types.Typ[types.Bool], args[1:]...))
		return tuple(r...)
	case "SetBit", "SetBits", "SetBytes", "UnmarshalText", "UnmarshalJSON", "GobDecode":
		set(T.fresh(OFresh, m, nil))
		return nil
	}
	if isRat {
		switch m {
		case "Quo":
			return set(nMul(n(1), nInv(n(2))))
		case "Inv":
			return set(nInv(n(1)))
		case "SetInt":
			return set(n(1))
		case "SetFrac":
			return set(nMul(n(1), nInv(n(2))))
		case "SetFrac64":
			return set(nMul(args[1], nInv(args[2])))
		case "SetFloat64":
			set(T.mk(OCall, "floatnum", nil, args[1]))
			return z
		case "Num":
			t := T.mk(OCall, "numptr", res.At(0).Type(), z)
			t.NonN = true
			return t
		case "Denom":
			t := T.mk(OCall, "denptr", res.At(0).Type(), z)
			t.NonN = true
			return t
		case "IsInt":
			return cmp0("=", nSub(T.mk(OCall, "denom", nil, n(0)), cInt(1)))
		}
	} else {
		switch m {
		case "Rem", "Mod", "Quo", "Div", "Exp", "And", "Or", "Xor", "GCD", "Lsh", "Rsh", "Sqrt":
			var as []*Term
			for i := 1; i < len(args); i++ {
				as = append(as, numArg(s, args[i]))
			}
			return set(T.mk(OCall, "int."+m, types.Typ[types.Int], as...))
		}
	}
	return nil
}

// modelBuf: bytes.Buffer and strings.Builder
func modelBuf(s *State, name string, args []*Term, res *types.Tuple) *Term {
	if !strings.HasPrefix(name, "(*bytes.Buffer).") && !strings.HasPrefix(name, "(*strings.Builder).") {
		return nil
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	l := bufLoc(args[0])
	cur := func() *Term {
		t := s.load(l, types.Typ[types.String])
		if t.Typ == nil {
			t.Typ = types.Typ[types.String]
		}
		return t
	}
	out := func() *Term {
		var r []*Term
		for i := 0; i < res.Len(); i++ {
			if isErrorType(res.At(i).Type()) {
				r = append(r, cNil())
			} else {
				r = append(r, T.fresh(OFresh, "n", res.At(i).Type()))
			}
		}
		if len(r) == 1 {
			return r[0]
		}
		return tuple(r...)
	}
	switch m {
	case "WriteRune", "WriteByte":
		c := T.mk(OConv, "string", types.Typ[types.String], args[1])
		if n, ok := args[1].intVal(); ok && (m == "WriteRune" || n < 0x80) {
			c = cStr(string(rune(n)))
		}
		s.write(l, mkConcat(cur(), c))
		return out()
	case "WriteString":
		s.write(l, mkConcat(cur(), args[1]))
		return out()
	case "Write":
		s.write(l, mkConcat(cur(), T.mk(OConv, "string", types.Typ[types.String], args[1])))
		return out()
	case "String":
		return cur()
	case "Bytes":
		return T.mk(OConv, "[]byte", res.At(0).Type(), cur())
	case "Len":
		return mkLen(cur())
	case "Reset":
		s.write(l, cStr(""))
		return tuple()
	case "Grow":
		return tuple()
	}
	return nil
}

// modelInvoke: calls through interfaces whose value isn't known
func modelInvoke(e *Engine, s *State, c *ssa.CallCommon, name string, args []*Term) *Term {
	switch c.Method.FullName() {
	case "(error).Error", "(fmt.Stringer).String", "(go.starlark.net/starlark.Value).Type", "(go.starlark.net/starlark.Indexable).Len", "(go.starlark.net/starlark.Indexable).Index":
		return pureCall(s, c.Method.FullName(), args, c.Signature().Results())
	case "(io.Writer).Write", "(io.Closer).Close", "(net/http.ResponseWriter).Header", "(net/http.ResponseWriter).WriteHeader", "(golang.org/x/oauth2.TokenSource).Token":
		ev := s.event(&Event{Kind: "call", Name: c.Method.FullName(), Args: args})
		ev.Res = freshResult(c.Method.FullName(), c.Signature().Results())
		return ev.Res
	}
	return nil
}

// ---- what a repository function may change, by class of location

type effects struct {
	classes map[string]bool         // of anything
	params  map[int]map[string]bool // of what a parameter points to or holds
	calls   []effCall
	unknown bool
	why     string
}

type effCall struct {
	fn   *ssa.Function
	args []ssa.Value // nil: not known
}

// at notes a change of what v points to or holds
func (ef *effects) at(v ssa.Value, fill func(map[string]bool)) {
	ps := map[int]bool{}
	if !originOf(v, ps, map[ssa.Value]bool{}) {
		fill(ef.classes)
		return
	}
	for i := range ps {
		if ef.params[i] == nil {
			ef.params[i] = map[string]bool{}
		}
		fill(ef.params[i])
	}
}

var effCache = map[*ssa.Function]*effects{}
var effDone bool

func addTypeClasses(m map[string]bool, t types.Type, whole string) {
	if isBigNum(t) {
		m["num"] = true
		return
	}
	if !isFlat(t) {
		m[whole] = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			addTypeClasses(m, u.Field(i).Type(), "f:"+shortType(t)+"."+u.Field(i).Name()+"#"+strconv.Itoa(i))
		}
	case *types.Array:
		addTypeClasses(m, u.Elem(), "e:"+typeName(u.Elem()))
	}
}

func addrClasses(m map[string]bool, a ssa.Value) {
	t := deref(a.Type())
	switch a := a.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		u := st.Underlying().(*types.Struct)
		addTypeClasses(m, t, "f:"+shortType(st)+"."+u.Field(a.Field).Name()+"#"+strconv.Itoa(a.Field))
	case *ssa.IndexAddr:
		addTypeClasses(m, t, "e:"+typeName(t))
	default:
		addTypeClasses(m, t, "t:"+typeName(t))
		if !isFlat(t) {
			// may be the address of an element or a field of that type
			m["e:"+typeName(t)] = true
		}
	}
}

func localEffects(fn *ssa.Function) *effects {
	ef := &effects{classes: map[string]bool{}, params: map[int]map[string]bool{}}
	call := func(g *ssa.Function) { ef.calls = append(ef.calls, effCall{g, nil}) }
	unknown := func(why string) {
		if !ef.unknown {
			ef.unknown = true
			ef.why = why
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				// variables of the function itself can't be seen by others
				ef.at(ins.Addr, func(m map[string]bool) { addrClasses(m, ins.Addr) })
			case *ssa.MapUpdate:
				ef.at(ins.Map, func(m map[string]bool) { m["m:"+typeName(ins.Map.Type())] = true })
			case *ssa.MakeClosure:
				call(ins.Fn.(*ssa.Function))
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" && isFull(cc.Args[0]) {
					continue
				}
				switch bi.Name() {
				case "copy", "append":
					et := elemType(cc.Args[0].Type())
					ef.at(cc.Args[0], func(m map[string]bool) { addTypeClasses(m, et, "e:"+typeName(et)) })
				case "delete", "clear":
					ef.at(cc.Args[0], func(m map[string]bool) { m["m:"+typeName(cc.Args[0].Type())] = true })
				}
				continue
			}
			for _, a := range cc.Args {
				if f, ok := a.(*ssa.Function); ok {
					call(f)
				}
			}
			g := cc.StaticCallee()
			if g != nil && inRepo(g) && len(g.Blocks) > 0 {
				ef.calls = append(ef.calls, effCall{g, cc.Args})
				continue
			}
			if g == nil {
				if cc.IsInvoke() {
					if fs := implementations(cc); fs != nil {
						for _, f := range fs {
							call(f)
						}
						continue
					}
					// methods of other packages' interfaces: their own state only
					continue
				}
				// function values: a closure passed in belongs to the caller
				// any function of the repository of that type that is used as a value
				for _, f := range valuesOf(cc.Signature()) {
					call(f)
				}
				continue
			}
			name := g.String()
			switch {
			case strings.HasPrefix(name, "(*math/big."):
				m := g.Name()
				if !inTable(pureFns, name) && m != "Sign" && m != "Cmp" && m != "Num" && m != "Denom" {
					ef.at(cc.Args[0], func(m map[string]bool) { m["num"] = true })
				}
			case strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*strings.Builder)."):
				ef.at(cc.Args[0], func(m map[string]bool) { m["buf"] = true })
			case len(cc.Args) > 0 && (strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.")):
				x := cc.Args[0]
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				if et := elemType(x.Type()); et != nil {
					ef.at(x, func(m map[string]bool) { addTypeClasses(m, et, "e:"+typeName(et)) })
				}
			case inTable(pureFns, name), inTable(quietFns, name), strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "errors."),
				strings.HasPrefix(name, "math/big.New"), strings.HasPrefix(name, "(*golang.org/x/text"), strings.HasPrefix(name, "golang.org/x/text"):
			case name == "encoding/json.Unmarshal" || name == "(*encoding/json.Decoder).Decode" || name == "go.starlark.net/starlark.UnpackArgs":
				ef.classes["json"] = true
				unknown("decodes in " + fnKey(fn))
			default:
				// may change what it's given the address of
				for _, a := range cc.Args {
					if reachesRepoMemory(a.Type()) {
						unknown(name + " in " + fnKey(fn))
					}
				}
			}
		}
	}
	return ef
}

func reachesRepoMemory(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		n, ok := types.Unalias(u.Elem()).(*types.Named)
		return !ok || n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	case *types.Slice, *types.Map:
		return true
	case *types.Interface:
		return !isErrorType(t)
	}
	return false
}

// implementations are the methods that a call of a method of an interface of the repository may call
func implementations(cc *ssa.CallCommon) (r []*ssa.Function) {
	if !cc.IsInvoke() || !strings.HasPrefix(cc.Method.FullName(), "("+modPath) {
		return nil
	}
	// any implementation in the repository
	for _, f := range allFuncs {
		if f.Name() == cc.Method.Name() && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
			r = append(r, f)
		}
	}
	return
}

// changesNothing: no implementation of the method changes anything
func changesNothing(cc *ssa.CallCommon) bool {
	fs := implementations(cc)
	for _, f := range fs {
		if eff := effectsOf(f); !inRepo(f) || eff.unknown || len(eff.classes) > 0 {
			return false
		}
	}
	return len(fs) > 0
}

// effectsOf is what a call of the function may change
func effectsOf(fn *ssa.Function) *effects {
	if e, ok := effCache[fn]; ok {
		return e
	}
	if !effDone {
		summarise()
	}
	r := &effects{classes: map[string]bool{}}
	sum := effSums[fn]
	if sum == nil {
		sum = localEffects(fn)
		r.unknown, r.why = len(sum.calls) > 0, "not summarised"
	}
	for k := range sum.classes {
		r.classes[k] = true
	}
	for _, m := range sum.params {
		for k := range m {
			r.classes[k] = true
		}
	}
	if sum.unknown {
		r.unknown, r.why = true, sum.why
	}
	effCache[fn] = r
	return r
}

// calledInPlace is the variable of the enclosing function, if all that is done with the closure is
// to call it there
func calledInPlace(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	var made *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if made != nil {
					return nil
				}
				made = mc
			}
		}
	}
	if made == nil || made.Referrers() == nil {
		return nil
	}
	for _, in := range *made.Referrers() {
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		if c, ok := in.(*ssa.Call); !ok || c.Call.Value != made {
			return nil
		}
	}
	for i, x := range fn.FreeVars {
		if x == fv {
			al, _ := made.Bindings[i].(*ssa.Alloc)
			return al
		}
	}
	return nil
}

var effSums = map[*ssa.Function]*effects{}

// summarise adds to what each function may change what those it calls may, until nothing is new
func summarise() {
	effDone = true
	summariseBut(effSums, nil)
}

// summariseBut: calls of the function that is left out change nothing
func summariseBut(effSums map[*ssa.Function]*effects, left *ssa.Function) {
	var todo []*ssa.Function
	add := func(f *ssa.Function) {
		if effSums[f] == nil {
			effSums[f] = localEffects(f)
			if f == left {
				effSums[f] = &effects{classes: map[string]bool{}}
			}
			todo = append(todo, f)
		}
	}
	for _, f := range allFuncs {
		add(f)
	}
	for i := 0; i < len(todo); i++ {
		for _, c := range effSums[todo[i]].calls {
			add(c.fn)
		}
	}
	for again := true; again; {
		again = false
		for _, f := range todo {
			ef := effSums[f]
			put := func(v ssa.Value, k string) {
				ef.at(v, func(m map[string]bool) {
					if !m[k] {
						m[k] = true
						again = true
					}
				})
			}
			all := func(k string) {
				if !ef.classes[k] {
					ef.classes[k] = true
					again = true
				}
			}
			for _, c := range ef.calls {
				g := effSums[c.fn]
				for k := range g.classes {
					all(k)
				}
				for i, m := range g.params {
					for k := range m {
						if i < len(c.args) {
							put(c.args[i], k)
						} else {
							all(k)
						}
					}
				}
				if g.unknown && !ef.unknown {
					ef.unknown, ef.why = true, g.why
					again = true
				}
			}
		}
	}
}

var valueFns map[*ssa.Function]bool

// valuesOf are the functions of the repository that a value of the type may be
func valuesOf(sig *types.Signature) (r []*ssa.Function) {
	if valueFns == nil {
		valueFns = map[*ssa.Function]bool{}
		for _, f := range allFuncs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var called ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						called = c.Common().Value
					}
					for _, o := range in.Operands(nil) {
						if *o == nil {
							continue
						}
						if g, ok := (*o).(*ssa.Function); ok && ((*o) != called || isClosureOf(in, g)) {
							valueFns[g] = true
						}
					}
				}
			}
		}
	}
	for f := range valueFns {
		s := f.Signature
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}

func isClosureOf(in ssa.Instruction, g *ssa.Function) bool {
	m, ok := in.(*ssa.MakeClosure)
	return ok && m.Fn == g
}

// madeHere: what the value points to or holds was made by the function itself; it can't have been
// there before
func madeHere(v ssa.Value, _ map[ssa.Value]bool) bool {
	ps := map[int]bool{}
	return originOf(v, ps, map[ssa.Value]bool{}) && len(ps) == 0
}

// originOf: what the value points to or holds was made by the function itself or is what one of
// its parameters points to or holds; those are noted in ps
func originOf(v ssa.Value, ps map[int]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				ps[i] = true
				return true
			}
		}
		return false
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Const:
		return v.IsNil()
	case *ssa.FieldAddr:
		return originOf(v.X, ps, seen)
	case *ssa.IndexAddr:
		return originOf(v.X, ps, seen)
	case *ssa.Slice:
		return originOf(v.X, ps, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !originOf(e, ps, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return originOf(v.Call.Args[0], ps, seen)
		}
		if g := v.Call.StaticCallee(); g != nil {
			switch g.String() {
			case "math/big.NewRat", "math/big.NewInt":
				return true
			}
			// methods that give what they were called on
			if strings.HasPrefix(g.String(), "(*math/big.") && g.Signature.Results().Len() > 0 && types.Identical(g.Signature.Results().At(0).Type(), g.Signature.Recv().Type()) && g.Name() != "Num" && g.Name() != "Denom" {
				return originOf(v.Call.Args[0], ps, seen)
			}
			// functions that give what they make or are given
			if inRepo(g) && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
				inner := map[int]bool{}
				for _, b := range g.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(ret.Results) != 1 || !originOf(ret.Results[0], inner, seen)) {
						return false
					}
				}
				for i := range inner {
					if i >= len(v.Call.Args) || !originOf(v.Call.Args[i], ps, seen) {
						return false
					}
				}
				return true
			}
		}
	case *ssa.UnOp:
		// a variable of the function that only ever held such
		al, ok := v.X.(*ssa.Alloc)
		if fv, is := v.X.(*ssa.FreeVar); is && v.Op == token.MUL {
			// or of the one it is in, if it's only called there
			if al = calledInPlace(fv); al == nil || !readOnlyElsewhere(al, 0) {
				return false
			}
			for _, in := range *al.Referrers() {
				if st, ok := in.(*ssa.Store); ok && !madeHere(st.Val, nil) {
					return false
				}
			}
			return true
		}
		if !ok || v.Op != token.MUL || !readOnlyElsewhere(al, 0) {
			return false
		}
		for _, in := range *al.Referrers() {
			if st, ok := in.(*ssa.Store); ok && !originOf(st.Val, ps, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// isFull: a slice cut off so that nothing can be added in place
func isFull(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil || s.High == nil {
		return false
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	return s.Max == s.High || lenOf(s.Max) != nil && lenOf(s.Max) == lenOf(s.High)
}
