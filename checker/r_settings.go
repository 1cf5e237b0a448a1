package main

// Settings: where values of the command line and the configuration come from, and which are taken.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// foldEq: what the path knows of two texts being the same in any case: 1 yes, -1 no
func foldEq(p *Path, a, b *Term) int {
	for _, f := range p.Facts() {
		c := f.Cond
		val := -1
		if f.Val {
			val = 1
		}
		if c.Op == OCall && c.Aux == "strings.EqualFold" && len(c.Args) == 2 && (c.Args[0] == a && c.Args[1] == b || c.Args[0] == b && c.Args[1] == a) {
			return val
		}
		for _, fn := range []string{"strings.ToLower", "strings.ToUpper"} {
			x := T.mk(OCall, fn, types.Typ[types.String], a)
			y := T.mk(OCall, fn, types.Typ[types.String], b)
			if c == cmp0("=", nSub(x, y)) || c == cmp0("=", nSub(y, x)) {
				return val
			}
		}
	}
	return 0
}

// kept are the writes of the path to what was there before
func kept(p *Path) (r []*Mem) {
	for _, w := range p.writesSince(nil) {
		if !isNew(rootObj(w.addr)) {
			r = append(r, w)
		}
	}
	return
}

// elementOf: v is read from a place of the list
func elementOf(v, list *Term) bool {
	if v == nil || !isLoad(v) || len(v.Args) == 0 || v.Args[0].Op != OIdx {
		return false
	}
	s := list
	for s.Op == OSlice {
		s = s.Args[0]
	}
	return v.Args[0].Args[0] == s
}

// enumSet: a value is taken just when it is one of those listed, in any case
func enumSet(r *Report, name string, configured bool) {
	f := r.fn(name)
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	c := shortFn(f)
	enum := param(f, 0)
	okN, errN := 0, 0
	listAddr := fld(enum, "cmd/utils.Enum", "ValidValues")
	ptrAddr := fld(enum, "cmd/utils.Enum", "Value")
	for _, p := range e.Paths {
		list := p.LoadAt(nil, listAddr, fldT("cmd/utils.Enum", "ValidValues"))
		at := p.LoadAt(nil, ptrAddr, fldT("cmd/utils.Enum", "Value"))
		old := p.LoadAt(nil, at, types.Typ[types.String])
		value := old
		if !configured {
			value = param(f, 1)
		}
		ws := kept(p)
		switch p.Kind {
		case "panic":
			r.need(false, "enum-taken", c, p.Pos, "it may panic")
		case "back":
			r.need(len(ws) == 0, "enum-taken", c, p.Pos, "written before the value is found among those listed")
		case "return":
			now := p.Load(at, types.Typ[types.String])
			switch retErr(p) {
			case -1:
				if configured && len(ws) == 0 && p.Holds(cmp0("=", mkLen(old))) {
					r.need(true, "enum-empty", c, p.Pos, "")
					continue
				}
				ok := false
				p.anyFact(func(x *Term) bool {
					if elementOf(x, list) && x == now && foldEq(p, x, value) == 1 {
						ok = true
					}
					return ok
				})
				if r.need(ok, "enum-taken", c, p.Pos, "%v is taken, which may not be the listed one that was asked for", now) {
					okN++
				}
				for _, w := range ws {
					r.need(w.addr == at, "enum-taken", c+" writes", p.Pos, "%v is written too", w.addr)
				}
			case 1:
				errN++
				r.need(len(ws) == 0, "enum-refused", c, p.Pos, "written although the value is refused")
				sc := p.scanOf(list)
				if !r.need(sc != nil, "enum-refused", c, p.Pos, "refused without being compared with every one listed") {
					continue
				}
				for _, b := range sc.l.Backs {
					x := b.LoadAt(sc.l.IterMem, sc.elemAddr(), types.Typ[types.String])
					r.need(foldEq(b, x, value) == -1, "enum-refused", c+" compared", b.Pos, "goes on past a listed value that may be the one asked for")
				}
			default:
				r.need(false, "enum-taken", c, p.Pos, "whether the value is taken is not known")
			}
		}
	}
	r.need(okN > 0 && errN > 0, "enum-taken", c+" both", f.Pos(), "nothing taken or nothing refused")
}

// enumeration is a setting that is one of a list
type enumeration struct {
	ptr  *Term // the pointer made
	at   *Term // where its value is
	list []string
	fn   *ssa.Function
}

// listTexts are the texts of a list made on the path, if they are constants
func listTexts(p *Path, mem *Mem, list *Term) (r []string, ok bool) {
	switch {
	case list.Op == OAppend:
		r, ok = listTexts(p, mem, list.Args[0])
		for _, a := range list.Args[1:] {
			if !a.isStrC() {
				return nil, false
			}
			r = append(r, a.strVal())
		}
		return r, ok
	case list.Op == OAppendS && len(list.Args) == 2:
		r, ok = listTexts(p, mem, list.Args[0])
		q, ok2 := listTexts(p, mem, list.Args[1])
		return append(r, q...), ok && ok2
	case isLoad(list) && len(list.Args) > 0 && list.Args[0].Op == OGlobal || list.Op == OGlobal:
		g := list
		if isLoad(list) {
			g = list.Args[0]
		}
		return globalTexts(g.name())
	}
	n, isN := mkLen(list).intVal()
	if !isN || n > 100 {
		return nil, false
	}
	for i := int64(0); i < n; i++ {
		x := loadTM(mem, p.facts, idxAddr(list, cInt(i), types.Typ[types.String]), types.Typ[types.String])
		if x == nil || !x.isStrC() {
			return nil, false
		}
		r = append(r, x.strVal())
	}
	return r, true
}

// globalTexts are the texts of a list kept in a package variable and set once
func globalTexts(name string) (r []string, ok bool) {
	name = strings.TrimPrefix(name, "val:")
	for g, v := range globalInit {
		if g.Pkg == nil || g.Pkg.Pkg.Path()+"."+g.Name() != name && !strings.HasSuffix(name, g.Pkg.Pkg.Path()+"."+g.Name()) {
			continue
		}
		sl, isS := v.(*ssa.Slice)
		if !isS {
			return nil, false
		}
		at := map[int64]string{}
		for _, ref := range *sl.X.Referrers() {
			ia, isI := ref.(*ssa.IndexAddr)
			if !isI {
				continue
			}
			i, isC := ia.Index.(*ssa.Const)
			if !isC {
				return nil, false
			}
			for _, w := range *ia.Referrers() {
				if st, isW := w.(*ssa.Store); isW && st.Addr == ia {
					s, isC := st.Val.(*ssa.Const)
					if !isC {
						return nil, false
					}
					at[i.Int64()] = constText(s)
				}
			}
		}
		for i := 0; i < len(at); i++ {
			s, has := at[int64(i)]
			if !has {
				return nil, false
			}
			r = append(r, s)
		}
		return r, len(r) > 0
	}
	return nil, false
}

func constText(c *ssa.Const) string {
	if c.Value == nil {
		return ""
	}
	s, err := strconv.Unquote(c.Value.ExactString())
	if err != nil {
		return c.Value.ExactString()
	}
	return s
}

func reachesLoad(f *ssa.Function) bool {
	load := lookup("cmd/app.App.LoadBook")
	return f != nil && load != nil && reach(f)[load]
}

// commandFns are the functions of the repository, outside of the web server, that make such calls
func commandFns(match func(name string, fn *ssa.Function) bool) (r []*ssa.Function) {
	for _, f := range allFuncs {
		if inRepo(f) && f.Synthetic == "" && relPkg(pkgOf(f)) != "cmd/web" && len(callsOf(f, match)) > 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return fnKey(r[i]) < fnKey(r[j]) })
	return
}

// made is the configuration of the analysis of a function that makes commands
func madeMode() Config {
	return Config{Mode: func(f *ssa.Function) Mode {
		if inRepo(f) && !reachesLoad(f) {
			return MInline
		}
		return MEvent
	}}
}

// checkEnums: every enumerated setting that can come from the configuration is looked at before a
// command does anything
func checkEnums(r *Report) (all []enumeration) {
	newEnum := lookup("cmd/utils.NewEnum")
	if r.fn("cmd/utils.NewEnum") == nil {
		return
	}
	valid := lookup("cmd/utils.Enum.Validate")
	// the functions that set commands up
	fs := map[*ssa.Function]bool{}
	reached := map[*ssa.Function]bool{}
	if exec := r.fn("cmd.Execute"); exec != nil {
		for g := range reach(exec) {
			if relPkg(pkgOf(g)) != "cmd" {
				continue
			}
			for _, call := range callsOf(g, func(_ string, h *ssa.Function) bool {
				return h != nil && inRepo(h) && relPkg(pkgOf(h)) != "cmd" && reach(h)[newEnum]
			}) {
				h := call.Common().StaticCallee()
				fs[h] = true
				for k := range reach(h) {
					reached[k] = true
				}
			}
		}
	}
	for _, f := range commandFns(func(_ string, fn *ssa.Function) bool { return fn == newEnum }) {
		r.need(reached[f], "enum-list", shortFn(f), f.Pos(), "makes a setting of a command that is not set up")
	}
	var order []*ssa.Function
	for f := range fs {
		order = append(order, f)
	}
	sort.Slice(order, func(i, j int) bool { return fnKey(order[i]) < fnKey(order[j]) })
	for _, f := range order {
		e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
			if inRepo(g) && g != newEnum && g != valid {
				return MInline
			}
			return MEvent
		}})
		for _, p := range e.returns() {
			var enums []enumeration
			for _, ev := range p.Events() {
				if ev.Kind != "call" || ev.Fn != newEnum {
					continue
				}
				list, ok := listTexts(p, ev.Mem, ev.Args[1])
				r.need(ok, "enum-list", shortFn(f), ev.Pos, "the values listed are not constants: %v", ev.Args[1])
				dup := ""
				for i := range list {
					for j := 0; j < i; j++ {
						if strings.EqualFold(list[i], list[j]) {
							dup = list[i]
						}
					}
				}
				r.need(dup == "", "enum-list", shortFn(f)+" "+rootPath(ev.Args[0]), ev.Pos, "%q is listed twice", dup)
				enums = append(enums, enumeration{ev.Res, ev.Args[0], list, f})
			}
			all = append(all, enums...)
			for _, cl := range commandsOf(p) {
				checkCommand(r, f, p, cl, enums, valid)
			}
		}
	}
	r.atLeast("enum-list", 5)
	r.atLeast("enum-before", 4)
	return
}

// commandsOf are the functions the path gives to its commands to run
func commandsOf(p *Path) (r []*Mem) {
	for _, w := range p.writesSince(nil) {
		if w.addr.Op != OFld || w.val == nil {
			continue
		}
		if n := fieldOnly(w.addr); (n == "RunE" || n == "Run") && w.val.Op == OClosure {
			r = append(r, w)
		}
	}
	return
}

func checkCommand(r *Report, f *ssa.Function, p *Path, w *Mem, enums []enumeration, valid *ssa.Function) {
	cfg := madeMode()
	mode := cfg.Mode
	cfg.Mode = func(g *ssa.Function) Mode {
		if g == valid {
			return MEvent
		}
		return mode(g)
	}
	cl := w.val
	// the variables it shares are as they were when it was given
	e := AnalyseFrom(cl.Fn, nil, cl.Args, w, nil, cfg)
	r.took(e, cl.Fn)
	c := shortFn(cl.Fn)
	for _, q := range e.Paths {
		evs := q.Events()
		for i, ev := range evs {
			if ev.Kind != "call" || ev.Fn == nil || !reachesLoad(ev.Fn) {
				continue
			}
			for _, en := range enums {
				if isNew(rootObj(en.at)) {
					continue // can only be given on the command line
				}
				done := false
				for _, b := range evs[:i] {
					if b.Kind == "call" && b.Fn == valid && b.Args[0] == en.ptr && q.isNil(b.err()) {
						done = true
					}
					if b.Kind == "endloop" && eachValid(q, b.Loop, valid, en.ptr) {
						done = true
					}
				}
				r.need(done, "enum-before", c+" "+fieldOnly(en.at), ev.Pos, "runs although the value configured for %s may not be one of those listed", fieldOnly(en.at))
			}
		}
	}
	errorsHeeded(r, "enum-before", cl.Fn, e, nil)
}

// eachValid: the loop looks at every one of a list of settings, and this is one of them
func eachValid(p *Path, l *Loop, valid *ssa.Function, ptr *Term) bool {
	if l == nil || len(l.Backs) == 0 {
		return false
	}
	for _, b := range l.Backs {
		ok := false
		for _, ev := range b.Events() {
			if ev.Kind != "call" || ev.Fn != valid || !b.isNil(ev.err()) || !isLoad(ev.Args[0]) || ev.Args[0].Args[0].Op != OIdx {
				continue
			}
			list := ev.Args[0].Args[0].Args[0]
			n := mkLen(list)
			if list.Op == OAlloc {
				at, isA := ptrElem(list.Typ).Underlying().(*types.Array)
				if !isA {
					continue
				}
				n = cInt(at.Len())
			}
			idx, all := p.idxScan(l, n)
			k, isN := n.intVal()
			if !all || idx != ev.Args[0].Args[0].Args[1] || !isN {
				continue
			}
			for i := int64(0); i < k; i++ {
				if p.LoadAt(l.EntryMem, idxAddr(list, cInt(i), ev.Args[0].Typ), ev.Args[0].Typ) == ptr {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// checkCompared: what a command compares its type with is listed, and it can tell all that are listed
func checkCompared(r *Report, all []enumeration) {
	seen := map[string]bool{}
	for _, en := range all {
		if fieldOnly(en.at) != "Type" || isNew(rootObj(en.at)) {
			continue
		}
		typ := namedOf(rootObj(en.at).Typ)
		if typ == nil || seen[typ.String()] {
			continue
		}
		seen[typ.String()] = true
		st := typ
		c := relPkg(pkgOf(en.fn))
		used := map[string]bool{}
		for _, f := range allFuncs {
			if !inRepo(f) || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
						continue
					}
					k, x := bo.X, bo.Y
					if _, isC := k.(*ssa.Const); !isC {
						k, x = x, k
					}
					kc, isC := k.(*ssa.Const)
					if !isC || !typeField(x, st, map[ssa.Value]bool{}) {
						continue
					}
					s := constText(kc)
					if s == "" {
						continue
					}
					used[s] = true
					r.need(in2(s, en.list), "enum-compared", c+" "+s, bo.Pos(), "compared with %q, which is not among %v", s, en.list)
				}
			}
		}
		miss := []string{}
		for _, s := range en.list {
			if !used[s] {
				miss = append(miss, s)
			}
		}
		r.need(len(miss) <= 1, "enum-compared", c, en.fn.Pos(), "%v are listed, but nothing tells them apart", miss)
	}
	r.atLeast("enum-compared", 10)
}

func in2(s string, list []string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// typeField: v is the field Type of the structure, followed into functions it is given to
func typeField(v ssa.Value, st *types.Named, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	named := func(t types.Type, i int) bool {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n != st {
			return false
		}
		s, ok := n.Underlying().(*types.Struct)
		return ok && s.Field(i).Name() == "Type"
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if cell := madeCell(x.X); cell != nil {
				for _, ref := range *cell.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == cell && typeField(s.Val, st, seen) {
						return true
					}
				}
				return false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return named(fa.X.Type(), fa.Field)
			}
		}
	case *ssa.Field:
		return named(x.X.Type(), x.Field)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if typeField(y, st, seen) {
				return true
			}
		}
	case *ssa.FreeVar:
		if b := boundTo(x); b != nil {
			return typeField(b, st, seen)
		}
	case *ssa.Parameter:
		fn := x.Parent()
		at := -1
		for i, y := range fn.Params {
			if y == x {
				at = i
			}
		}
		for _, g := range callersOf(fn) {
			for _, call := range callsOf(g, func(_ string, h *ssa.Function) bool { return h == fn }) {
				if as := call.Common().Args; at >= 0 && at < len(as) && typeField(as[at], st, seen) {
					return true
				}
			}
		}
	}
	return false
}

// boundTo is what the function around it gives a variable of a closure
func boundTo(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				for i, x := range fn.FreeVars {
					if x == fv {
						return mc.Bindings[i]
					}
				}
			}
		}
	}
	return nil
}

// madeCell is the variable an address is of
func madeCell(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			if v = boundTo(x); v == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// splitAt: the text before (0) or after (1) the first sep in t; whether the path knows t has one
func splitAt(p *Path, x *Term) (t *Term, sep string, part int, has int) {
	yes := func(c *Term) int {
		if p.Holds(c) {
			return 1
		}
		if p.Not(c) {
			return -1
		}
		return 0
	}
	if isLoad(x) && len(x.Args) > 0 && x.Args[0].Op == OIdx {
		s := x.Args[0].Args[0]
		i, ok := x.Args[0].Args[1].intVal()
		if ok && i <= 1 && s.Op == OCall && s.Aux == "strings.SplitN" && len(s.Args) == 3 && s.Args[1].isStrC() && s.Args[2] == cInt(2) {
			return s.Args[0], s.Args[1].strVal(), int(i), yes(cmp0("=", nSub(mkLen(s), cInt(2))))
		}
	}
	if x.Op == OCall && len(x.Args) == 2 && x.Args[1].isStrC() && (x.Aux == "strings.Cut.0" || x.Aux == "strings.Cut.1") {
		return x.Args[0], x.Args[1].strVal(), int(x.Aux[len(x.Aux)-1] - '0'), yes(T.mk(OCall, "strings.Cut.2", boolT(), x.Args...))
	}
	return nil, "", 0, 0
}

// hasSep: what the path knows of t having the separator
func hasSep(p *Path, t *Term, sep string) int {
	str := types.Typ[types.String]
	for _, c := range []*Term{
		T.mk(OCall, "strings.Cut.2", boolT(), t, cStr(sep)),
		cmp0("=", nSub(mkLen(T.mk(OCall, "strings.SplitN", types.NewSlice(str), t, cStr(sep), cInt(2))), cInt(2))),
	} {
		if p.Holds(c) {
			return 1
		}
		if p.Not(c) {
			return -1
		}
	}
	return 0
}

// checkFormat: the type and settings of an import, as written
func checkFormat(r *Report) {
	f := r.fn("cmd/utils.CLIConfig.Set")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	c := shortFn(f)
	cfgT := "cmd/utils.CLIConfig"
	str := types.Typ[types.String]
	given := param(f, 1)
	typAt, parAt := fld(param(f, 0), cfgT, "ConfigType"), fld(param(f, 0), cfgT, "Params")
	two, one := 0, 0
	for _, p := range e.Paths {
		if p.Kind == "panic" {
			r.need(false, "format-read", c, p.Pos, "it may panic")
			continue
		}
		typ := p.Load(typAt, str)
		t, sep, part, _ := splitAt(p, typ)
		r.need(t == given && sep == ":" && part == 0, "format-type", c, p.Pos, "the type is %v", typ)
		m := p.Load(parAt, fldT(cfgT, "Params"))
		r.need(isNew(m), "format-new", c, p.Pos, "settings given before are kept: %v", m)
		for _, w := range kept(p) {
			r.need(w.addr == typAt || w.addr == parAt || rootObj(w.addr) == m || isNew(rootObj(w.addr)), "format-read", c+" writes", p.Pos, "%v is written too", w.addr)
		}
		settings := hasSep(p, given, ":")
		if p.Kind == "back" {
			r.need(p.Loop != nil, "format-read", c, p.Pos, "")
			continue
		}
		switch {
		case retErr(p) == 1:
			// only a setting given twice
			twice := false
			for _, f := range p.Facts() {
				if x := f.Cond; f.Val && isLoad(x) && x.Args[0].Op == OMapHas && x.Args[0].Args[0] == m {
					t, sep, part, _ := splitAt(p, x.Args[0].Args[1])
					twice = twice || t != nil && sep == "=" && part == 0
				}
			}
			r.need(twice && settings == 1, "format-twice", c, p.Pos, "refused for something other than a setting given twice")
		case retErr(p) == -1 && settings == -1:
			one++
			r.need(len(p.loopsOn()) == 0, "format-read", c, p.Pos, "settings are read although none are given")
		case retErr(p) == -1 && settings == 1:
			two++
			var sc *scan
			for _, l := range p.loopsOn() {
				for _, s := range p.scans(l) {
					s := s
					if x := s.over; s.idx != nil && x.Op == OCall && x.Aux == "strings.Split" && x.Args[1].isStrC() && x.Args[1].strVal() == "," {
						if t, sep, part, _ := splitAt(p, x.Args[0]); t == given && sep == ":" && part == 1 {
							sc = &s
						}
					}
				}
			}
			if !r.need(sc != nil, "format-read", c, p.Pos, "not every setting given is read") {
				continue
			}
			for _, b := range sc.l.Backs {
				arg := sc.elem(b)
				var put []*Mem
				for _, w := range b.writesSince(sc.l.IterMem) {
					if w.addr.Op == OMapEnt && rootObj(w.addr) == m {
						put = append(put, w)
					}
				}
				if !r.need(len(put) == 1, "format-setting", c, b.Pos, "%d settings are kept for one given", len(put)) {
					continue
				}
				key, val := put[0].addr.Args[1], put[0].val
				t, sep, part, has := splitAt(b, key)
				r.need(t == arg && sep == "=" && part == 0, "format-setting", c+" name", b.Pos, "kept as %v", key)
				if has == 0 {
					has = hasSep(b, arg, "=")
				}
				switch has {
				case -1:
					r.need(val.isStrC() && val.strVal() == "true", "format-setting", c+" value", b.Pos, "a setting without a value is %v", val)
				case 1:
					t, sep, part, _ := splitAt(b, val)
					r.need(t == arg && sep == "=" && part == 1, "format-setting", c+" value", b.Pos, "its value is %v", val)
				default:
					r.need(false, "format-setting", c+" value", b.Pos, "its value does not depend on one being given")
				}
				// not there before
				had := b.Not(b.LoadAt(sc.l.IterMem, T.mk(OMapHas, "", nil, m, key), boolT()))
				r.need(had, "format-twice", c+" kept", b.Pos, "a setting given again takes the place of the first")
			}
		default:
			r.need(false, "format-read", c, p.Pos, "whether settings are given is not known")
		}
	}
	r.need(one > 0 && two > 0, "format-read", c+" both", f.Pos(), "settings are never or always read")
}

// checkReader: the reader of an import is the one of the type given, with its settings
func checkReader(r *Report) {
	f := r.fn("cmd/importer.NewBookImporterByConfig")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, madeMode())
	c := shortFn(f)
	cfgT := "cmd/utils.CLIConfig"
	str := types.Typ[types.String]
	csv, json := 0, 0
	for _, p := range e.Paths {
		if p.Kind != "return" {
			r.need(p.Kind == "back", "reader-type", c, p.Pos, "it may panic")
			continue
		}
		typ := p.LoadAt(nil, fld(param(f, 0), cfgT, "ConfigType"), str)
		m := p.LoadAt(nil, fld(param(f, 0), cfgT, "Params"), fldT(cfgT, "Params"))
		is := func(x *Term, s string) int {
			q := cmp0("=", nSub(x, cStr(s)))
			if p.Holds(q) {
				return 1
			}
			if p.Not(q) {
				return -1
			}
			return 0
		}
		// what a setting is: its text, whether it is there
		get := func(name string) (*Term, int) {
			has := p.LoadAt(nil, T.mk(OMapHas, "", nil, m, cStr(name)), boolT())
			v := p.LoadAt(nil, mapEntAddr(m, name), str)
			mt, _ := mapOf(m)
			if mt != nil {
				v = p.LoadAt(nil, mapEnt(m, cStr(name), mt), str)
			}
			switch {
			case p.Holds(has):
				return v, 1
			case p.Not(has):
				return v, -1
			}
			return v, 0
		}
		delim, hasDelim := get("delim")
		header, hasHeader := get("header")
		upper := T.mk(OCall, "strings.ToUpper", str, header)
		lower := T.mk(OCall, "strings.ToLower", str, header)
		flag := func(s string) int {
			if x := foldEq(p, header, cStr(s)); x != 0 {
				return x
			}
			if x := is(upper, strings.ToUpper(s)); x != 0 {
				return x
			}
			return is(lower, strings.ToLower(s))
		}
		one := func(t *Term) int {
			n := mkLen(t)
			found := 0
			p.anyFact(func(x *Term) bool {
				if x.Op == OLen && len(x.Args) == 1 && x.Args[0].Op == OConv && x.Args[0].Args[0] == t {
					n = x
					found = 1
				}
				if x.Op == OCall && strings.HasPrefix(x.Aux, "unicode/utf8.RuneCount") && x.Args[0] == t {
					n, found = x, 1
				}
				if x.Op == OCall && strings.HasPrefix(x.Aux, "utf8.RuneCount") && x.Args[0] == t {
					n, found = x, 1
				}
				return false
			})
			if found == 0 {
				return 0
			}
			q := cmp0("=", nSub(n, cInt(1)))
			switch {
			case p.Holds(q):
				return 1
			case p.Not(q):
				return -1
			}
			return 0
		}
		if retErr(p) == 1 {
			bad := is(typ, "csv") == -1 && is(typ, "json") == -1 || p.Holds(cmp0("=", mkLen(typ)))
			if is(typ, "csv") == 1 {
				bad = hasDelim == 1 && one(delim) == -1 || hasHeader == 1 && flag("true") == -1 && flag("false") == -1 || hasDelim == -1 && one(cStr(",")) == -1
			}
			r.need(bad, "reader-refused", c, p.Pos, "refused although nothing is wrong with what was given")
			continue
		}
		if !r.need(retErr(p) == -1 && len(p.Results) == 2, "reader-type", c, p.Pos, "whether there is a reader is not known") {
			continue
		}
		cl := p.Results[0]
		reads := func(name string) bool {
			if cl.Op != OClosure {
				return false
			}
			for g := range reach(cl.Fn) {
				if len(callsOf(g, func(n string, _ *ssa.Function) bool { return strings.HasSuffix(n, name) })) > 0 {
					return true
				}
			}
			return false
		}
		switch {
		case is(typ, "csv") == 1:
			csv++
			r.need(reads("csv.NewReader") || reads("encoding/csv.NewReader"), "reader-type", c+" csv", p.Pos, "csv is read by %v", cl)
			// what it was made with
			var texts, flags []*Term
			for _, a := range cl.Args {
				v := a
				if a.Op == OAlloc {
					if pt, ok := a.Typ.(*types.Pointer); ok {
						v = p.Load(a, pt.Elem())
					}
				}
				if v.Typ != nil && types.Identical(v.Typ.Underlying(), boolT()) || v == cBool(true) || v == cBool(false) {
					flags = append(flags, v)
				} else {
					texts = append(texts, v)
				}
			}
			want := delim
			if hasDelim == -1 {
				want = cStr(",")
			}
			r.need(hasDelim != 0 && len(texts) == 1 && (texts[0] == want || texts[0].contains(want)), "reader-delim", c, p.Pos, "the delimiter is %v", texts)
			r.need(one(want) == 1, "reader-delim", c, p.Pos, "the delimiter may not be one character")
			got := len(flags) == 1
			switch {
			case hasHeader == -1:
				got = got && flags[0] == cBool(false)
			case hasHeader == 1 && flag("true") == 1:
				got = got && flags[0] == cBool(true)
			case hasHeader == 1 && flag("false") == 1:
				got = got && flags[0] == cBool(false)
			default:
				got = false
			}
			r.need(got, "reader-header", c, p.Pos, "whether there is a header is %v", flags)
		case is(typ, "json") == 1:
			json++
			r.need(reads("json.NewDecoder") || reads("encoding/json.Unmarshal"), "reader-type", c+" json", p.Pos, "json is read by %v", cl)
		default:
			r.need(false, "reader-type", c, p.Pos, "read although the type is not one that is known")
		}
	}
	r.need(csv > 0 && json > 0, "reader-type", c+" both", f.Pos(), "a type is never read")
	r.atLeast("reader-header", 3)
}

// flagNames are flags that are not called after the setting they give
var flagNames = map[string]string{
	"splitby": "Combineby", "asof": "EndDate", "begin": "BeginDate", "zero": "ZeroStart", "acct": "Account",
	"cacct": "CounterAccount", "ccy": "BaseCCY", "format": "CLIConfig",
}

// checkFlags: a flag gives the setting it is named after, and is what the configuration says until given
func checkFlags(r *Report) {
	isFlag := func(n string, _ *ssa.Function) bool {
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			k := n[i+1:]
			return strings.Contains(n, "pflag.FlagSet") && (strings.HasSuffix(k, "Var") || strings.HasSuffix(k, "VarP"))
		}
		return false
	}
	seen := map[string]string{}
	for _, f := range commandFns(isFlag) {
		e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
			if inRepo(g) {
				return MInline
			}
			return MEvent
		}})
		for _, p := range e.Paths {
			if p.Kind != "return" {
				continue
			}
			for _, ev := range p.Events() {
				if ev.Kind != "call" || !isFlag(ev.Name, nil) || len(ev.Args) < 3 {
					continue
				}
				short := strings.HasSuffix(ev.Name, "P")
				kind := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
				name, at := ev.Args[2], ev.Args[1]
				if !r.need(name.isStrC(), "flag-name", shortFn(f), ev.Pos, "the name of a flag is %v", name) {
					continue
				}
				c := shortFn(f) + " --" + name.strVal()
				i := 3
				if short {
					i++
				}
				if kind == "Var" || kind == "VarP" {
					// the value of its own kind: what it sets
					if at.Op == OIface {
						at = at.Args[0]
					}
					if x := loadTM(ev.Mem, p.facts, fld(at, "cmd/utils.Enum", "Value"), fldT("cmd/utils.Enum", "Value")); at.Typ != nil && isType(at.Typ, "cmd/utils.Enum") {
						at = x
					}
				} else if v := ptrElem(at.Typ); v != nil && len(ev.Args) > i {
					now := loadTM(ev.Mem, p.facts, at, v)
					ok := ev.Args[i] == now
					if isNew(rootObj(at)) && at.Op == OAlloc {
						ok = true // only used by the command itself
					}
					r.need(ok, "flag-default", c, ev.Pos, "unless given it is %v, not what was configured", ev.Args[i])
				}
				if at.Op != OFld || secretField(at) {
					continue
				}
				n := fieldOnly(at)
				want := flagNames[name.strVal()]
				ok := want == n || strings.EqualFold(strings.NewReplacer("-", "", " ", "", "_", "").Replace(name.strVal()), n)
				r.need(ok, "flag-name", c, ev.Pos, "it sets %s", n)
				k := shortFn(f) + "|" + n
				if o, dup := seen[k]; dup {
					r.need(o == name.strVal(), "flag-name", c, ev.Pos, "--%s sets %s too", o, n)
				}
				seen[k] = name.strVal()
			}
		}
	}
	// what an import or generator cannot do without, and was not configured, has to be given
	for _, n := range []struct{ fn, typ, fields string }{
		{"cmd/importer.ImportDef.add", "cmd/importer.ImportDef", "Account CounterAccount Code CLIConfig"},
		{"cmd/generate.Generate.add", "cmd/generate.Generate", "Code"},
	} {
		f := r.fn(n.fn)
		if f == nil {
			continue
		}
		e := r.runFn(f, nil, madeMode())
		for _, p := range e.returns() {
			for _, field := range strings.Fields(n.fields) {
				at := fld(param(f, 0), n.typ, field)
				v := at
				if field == "CLIConfig" {
					v = fld(at, "cmd/utils.CLIConfig", "ConfigType")
				}
				given := false
				for _, f := range p.Facts() {
					if !f.Val && f.Cond.any(func(x *Term) bool { return isLoad(x) && x.Args[0] == v && p.Not(cmp0("=", mkLen(x))) }) {
						given = true
					}
				}
				if given {
					r.need(true, "flag-required", shortFn(f)+" "+field, p.Pos, "")
					continue
				}
				name := ""
				for _, ev := range p.Events() {
					if ev.Kind != "call" || len(ev.Args) < 2 {
						continue
					}
					if isFlag(ev.Name, nil) && unwrapConv(ev.Args[1]) == at && ev.Args[2].isStrC() {
						name = ev.Args[2].strVal()
					}
				}
				must := false
				for _, ev := range p.Events() {
					if ev.Kind == "call" && strings.HasSuffix(ev.Name, "MarkFlagRequired") && name != "" {
						for _, a := range ev.Args {
							must = must || a.isStrC() && a.strVal() == name
						}
					}
				}
				r.need(must, "flag-required", shortFn(f)+" "+field, p.Pos, "%s is not configured, but does not have to be given", field)
			}
		}
	}
	r.atLeast("flag-required", 8)
	r.atLeast("flag-name", 25)
	r.atLeast("flag-default", 20)
}

func ptrElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func fileCall(ev *Event, what string) bool {
	return ev.Kind == "call" && (ev.Name == "os."+what || ev.Name == "io/ioutil."+what)
}

// notThere: what the path knows of the error being that there is no such file
func notThere(p *Path, err *Term) int {
	for _, ev := range p.Events() {
		if ev.Kind != "call" || len(ev.Args) == 0 || ev.Args[0] != err || ev.Res == nil {
			continue
		}
		if ev.Name == "os.IsNotExist" || ev.Name == "errors.Is" && (strings.HasSuffix(ev.Args[1].name(), "os.ErrNotExist") || strings.HasSuffix(ev.Args[1].name(), "fs.ErrNotExist")) {
			if p.Holds(ev.Res) {
				return 1
			}
			if p.Not(ev.Res) {
				return -1
			}
		}
	}
	return 0
}

// unwrapConv is a text or bytes under its conversions
func unwrapConv(t *Term) *Term {
	for t.Op == OConv || t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

// checkConfigLoad: the first configuration file that is there is read, whole; the defaults are only written
// when there is none, and then used
func checkConfigLoad(r *Report) (dflt *Term) {
	f := r.fn("cmd.load")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, outside("cmd"))
	c := shortFn(f)
	cfg := param(f, 1)
	read, wrote, none := 0, 0, 0
	decoded := func(p *Path) (r []*Event) {
		return p.calls(func(ev *Event) bool {
			return strings.HasSuffix(ev.Name, "toml.Decode") || strings.HasSuffix(ev.Name, "toml.Unmarshal")
		})
	}
	into := func(ev *Event) bool { return unwrapConv(ev.Args[1]) == cfg }
	for _, p := range e.Paths {
		if p.Kind == "panic" {
			r.need(false, "config-read", c, p.Pos, "it may panic")
			continue
		}
		reads := p.calls(func(ev *Event) bool { return fileCall(ev, "ReadFile") })
		writes := p.calls(func(ev *Event) bool { return fileCall(ev, "WriteFile") || fileCall(ev, "Create") || fileCall(ev, "OpenFile") })
		var got *Event
		for _, ev := range reads {
			err := ev.part(1)
			switch {
			case p.isNil(err):
				got = ev
			case p.notNil(err):
				if p.Kind == "back" || retErr(p) != 1 {
					r.need(notThere(p, err) == 1, "config-skipped", c, ev.Pos, "a file that is there but cannot be read is passed over")
				}
			default:
				r.need(false, "config-skipped", c, ev.Pos, "whether the file could be read is not looked at")
			}
		}
		if p.Kind == "back" {
			if got != nil {
				r.need(false, "config-first", c, p.Pos, "goes on to other files after one was read")
			}
			r.need(len(writes) == 0, "config-written", c, p.Pos, "written while looking")
			continue
		}
		if got != nil {
			r.need(len(writes) == 0, "config-written", c, p.Pos, "a file is written although there is one")
		}
		var files *Term
		for _, l := range p.loopsOn() {
			for _, b := range l.Backs {
				for _, ev := range b.calls(func(ev *Event) bool { return fileCall(ev, "ReadFile") }) {
					if x := ev.Args[0]; isLoad(x) && x.Args[0].Op == OIdx {
						if i, ok := p.idxScan(l, mkLen(x.Args[0].Args[0])); ok && i == x.Args[0].Args[1] {
							files = x.Args[0].Args[0]
						}
					}
				}
			}
		}
		for _, ev := range writes {
			if !r.need(files != nil, "config-written", c, ev.Pos, "written although not every place was looked at") {
				continue
			}
			first := loadTM(ev.Mem, p.facts, idxAddr(files, cInt(0), types.Typ[types.String]), types.Typ[types.String])
			r.need(ev.Args[0] == first && fileCall(ev, "WriteFile"), "config-written", c+" where", ev.Pos, "written to %v, which is not the first place looked at", ev.Args[0])
		}
		if retErr(p) != -1 {
			if retErr(p) == 0 {
				r.need(false, "config-read", c, p.Pos, "whether it succeeds is not known")
			}
			continue
		}
		ds := decoded(p)
		switch {
		case got != nil:
			read++
			if !r.need(len(ds) == 1 && unwrapConv(ds[0].Args[0]) == got.part(0) && into(ds[0]) && p.isNil(ds[0].err()), "config-read", c, p.Pos, "what was read does not become the configuration") {
				continue
			}
			all := false
			for _, ev := range p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "MetaData).Undecoded") }) {
				of := ev.Args[0]
				if of.Op == OAlloc {
					of = loadTM(ev.Mem, p.facts, of, ptrElem(of.Typ))
				}
				if of == ds[0].part(0) && (p.Not(cmp0(">", mkLen(ev.Res))) || p.Holds(cmp0("=", mkLen(ev.Res)))) {
					all = true
				}
			}
			r.need(all, "config-unknown", c, p.Pos, "settings of the file that are not known are passed over")
		case len(writes) > 0:
			wrote++
			if !r.need(files != nil && len(writes) == 1 && len(ds) == 1 && p.isNil(ds[0].err()) && into(ds[0]), "config-default", c, p.Pos, "the defaults are written but do not become the configuration") {
				continue
			}
			dflt = unwrapConv(writes[0].Args[1])
			r.need(dflt.isStrC() && unwrapConv(ds[0].Args[0]) == dflt, "config-default", c, p.Pos, "what is written is not what is used")
			r.need(p.isNil(writes[0].err()), "config-default", c+" written", p.Pos, "they may not have been written")
		default:
			none++
			r.need(files != nil, "config-read", c, p.Pos, "succeeds although not every place was looked at")
			home := false
			for _, ev := range p.calls(named("os.UserConfigDir")) {
				home = home || p.notNil(ev.part(1))
			}
			r.need(home, "config-default", c+" none", p.Pos, "there is a place for the configuration, but nothing is written")
		}
	}
	r.need(read > 0 && wrote > 0 && none > 0, "config-read", c+" all", f.Pos(), "never read, or never written")
	errorsHeeded(r, "config-errors", f, e, func(ev *Event) bool {
		switch ev.Name {
		case "os.UserConfigDir", "os.UserHomeDir", "os.LookupEnv", "print":
			return true
		}
		return strings.HasPrefix(ev.Name, "fmt.Print") || fileCall(ev, "ReadFile")
	})
	r.atLeast("config-skipped", 2)
	return dflt
}

// checkExecute: nothing is set up before the configuration is read; all of it is the same one
func checkExecute(r *Report) {
	f := r.fn("cmd.Execute")
	load := r.fn("cmd.load")
	if f == nil || load == nil {
		return
	}
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g != load && relPkg(pkgOf(g)) == "cmd" && inRepo(g) {
			return MInline
		}
		return MEvent
	}})
	c := shortFn(f)
	run := 0
	for _, p := range e.returns() {
		var cfg *Term
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Fn == nil {
				continue
			}
			if ev.Fn == load {
				r.need(cfg == nil, "config-before", c, ev.Pos, "read twice")
				cfg = ev.Args[1]
				r.need(isNew(cfg), "config-before", c, ev.Pos, "the configuration is %v", cfg)
				if !p.isNil(ev.err()) {
					r.need(retErr(p) == 1, "config-before", c, ev.Pos, "goes on although the configuration could not be read")
					cfg = nil
				}
				continue
			}
			if strings.HasSuffix(ev.Name, "cobra.Command).Execute") {
				run++
				r.need(cfg != nil, "config-before", c, ev.Pos, "runs without the configuration")
				continue
			}
			if !inRepo(ev.Fn) {
				continue
			}
			r.need(cfg != nil, "config-before", c+" "+shortFn(ev.Fn), ev.Pos, "set up before the configuration is read")
			if cfg == nil {
				continue
			}
			for i, a := range ev.Args {
				if cm := ptrElem(a.Typ); cm != nil && cm.String() == "github.com/spf13/cobra.Command" {
					continue
				}
				own := rootObj(a) == cfg || isLoad(a) && rootObj(a.Args[0]) == cfg
				r.need(own, "config-same", c+" "+shortFn(ev.Fn)+" "+strconv.Itoa(i), ev.Pos, "given %v, which is not of the configuration read", a)
			}
		}
	}
	r.need(run > 0, "config-before", c, f.Pos(), "nothing is run")
	errorsHeeded(r, "config-before", f, e, nil)
	r.atLeast("config-same", 10)
}

// checkDefaults: the configuration written has just what there is to set
func checkDefaults(r *Report, text *Term, all []enumeration) {
	f := r.fn("cmd.load")
	t := lookupType("cmd.Config")
	if f == nil || !r.need(text != nil && text.isStrC() && t != nil, "default-read", "cmd.load", noPos, "there are no defaults to read") {
		return
	}
	lines := strings.Split(text.strVal(), "\n")
	cur, section := t, ""
	n := 0
	for i := 0; i < len(lines); i++ {
		ln := strings.TrimSpace(lines[i])
		if ln == "" || ln[0] == '#' {
			continue
		}
		if ln[0] == '[' {
			ok := strings.HasSuffix(ln, "]")
			section = strings.Trim(ln, "[]")
			cur = t
			for _, k := range strings.Split(section, ".") {
				if cur = tomlField(cur, k); cur == nil {
					ok = false
					break
				}
			}
			r.need(ok, "default-known", "["+section+"]", f.Pos(), "there is nothing to set called %s", section)
			continue
		}
		k := strings.IndexByte(ln, '=')
		if !r.need(k > 0, "default-read", section, f.Pos(), "not read: %q", ln) {
			continue
		}
		key, val := strings.TrimSpace(ln[:k]), strings.TrimSpace(ln[k+1:])
		c := section + "." + key
		for val != "" && val[0] == '[' && !strings.HasSuffix(val, "]") && i+1 < len(lines) {
			i++
			val += strings.TrimSpace(lines[i])
		}
		if cur == nil {
			continue
		}
		ft := tomlField(cur, key)
		if !r.need(ft != nil, "default-known", c, f.Pos(), "there is nothing to set called %s", key) {
			continue
		}
		n++
		ok := false
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				_, err := strconv.Unquote(val)
				ok = err == nil
			case u.Info()&types.IsBoolean != 0:
				ok = val == "true" || val == "false"
			case u.Info()&types.IsInteger != 0:
				_, err := strconv.ParseInt(val, 10, 64)
				ok = err == nil
			}
		case *types.Slice:
			ok = strings.HasPrefix(val, "[")
		}
		r.need(ok, "default-kind", c, f.Pos(), "%s is not a %s", val, ft)
		if cn := namedOf(cur); cn != nil && ok {
			for _, en := range all {
				if s := namedOf(rootObj(en.at).Typ); en.at.Op == OFld && s != nil && s.Obj() == cn.Obj() && strings.EqualFold(fieldOnly(en.at), key) {
					s, _ := strconv.Unquote(val)
					known := false
					for _, x := range en.list {
						known = known || strings.EqualFold(x, s)
					}
					r.need(known, "default-listed", c, f.Pos(), "%q is not one of %v", s, en.list)
				}
			}
		}
	}
	r.need(n >= 10, "default-read", "cmd.load", f.Pos(), "only %d settings are read", n)
	r.atLeast("default-listed", 3)
}

// tomlField is the type of what a key of a table sets, nil if there is none
func tomlField(t types.Type, key string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
		return u.Elem()
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Exported() && !f.Embedded() && strings.EqualFold(f.Name(), key) {
				return f.Type()
			}
		}
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Embedded() {
				if x := tomlField(f.Type(), key); x != nil {
					return x
				}
			}
		}
	}
	return nil
}

// checkSettings: C39
func checkSettings(r *Report) {
	enumSet(r, "cmd/utils.Enum.Set", false)
	enumSet(r, "cmd/utils.Enum.Validate", true)
	all := checkEnums(r)
	checkCompared(r, all)
	checkFormat(r)
	checkReader(r)
	checkFlags(r)
	dflt := checkConfigLoad(r)
	checkExecute(r)
	checkDefaults(r, dflt, all)
}
