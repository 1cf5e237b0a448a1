package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// asEvents keeps calls of the named repository functions (as in lookup) as events
func asEvents(names ...string) Config {
	m := map[*ssa.Function]bool{}
	for _, n := range names {
		if f := lookup(n); f != nil {
			m[f] = true
		}
	}
	return Config{Mode: func(f *ssa.Function) Mode {
		if m[f] {
			return MEvent
		}
		return MInline
	}}
}

// outside keeps calls that leave the package of the entry as events
func outside(pkgs ...string) Config {
	return Config{Mode: func(f *ssa.Function) Mode {
		p := relPkg(pkgOf(f))
		for _, q := range pkgs {
			if p == q {
				return MInline
			}
		}
		return MEvent
	}}
}

func (ev *Event) is(name string) bool {
	f := lookup(name)
	return f != nil && ev.Fn == f
}

// calls are the call events of the path whose callee is called name (full SSA name)
func (p *Path) calls(match func(ev *Event) bool) (r []*Event) {
	for _, e := range p.Events() {
		if e.Kind == "call" && match(e) {
			r = append(r, e)
		}
	}
	return
}

func named(suffixes ...string) func(ev *Event) bool {
	return func(ev *Event) bool {
		for _, s := range suffixes {
			if ev.Name == s || strings.HasSuffix(ev.Name, "/"+s) || ev.Fn != nil && fnKey(ev.Fn) == s {
				return true
			}
		}
		return false
	}
}

// part i of the result of a call
func (ev *Event) part(i int) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == OTuple {
		if i < len(ev.Res.Args) {
			return ev.Res.Args[i]
		}
		return nil
	}
	if i == 0 {
		return ev.Res
	}
	return nil
}

// err is the error a call gives, nil if it gives none
func (ev *Event) err() *Term {
	if ev.Res == nil {
		return nil
	}
	ts := []*Term{ev.Res}
	if ev.Res.Op == OTuple {
		ts = ev.Res.Args
	}
	if len(ts) == 0 {
		return nil
	}
	if t := ts[len(ts)-1]; isErrT(t.Typ) {
		return t
	}
	return nil
}

func (p *Path) isNil(t *Term) bool  { return t.isNil() || p.Holds(mkEq(t, cNil())) }
func (p *Path) notNil(t *Term) bool { return nonNil(t) || p.Not(mkEq(t, cNil())) }

// errorsHeeded: a path that reports success had no failed call on it
func errorsHeeded(r *Report, rule string, f *ssa.Function, e *Engine, exempt func(*Event) bool) {
	hasErr := f.Signature.Results().Len() > 0 && isErrT(f.Signature.Results().At(f.Signature.Results().Len()-1).Type())
	for _, p := range e.Paths {
		if p.Kind == "panic" {
			continue
		}
		if p.Kind == "return" && hasErr {
			if _, non := nilErr(p); non {
				continue
			}
		}
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Defer {
				continue
			}
			t := ev.err()
			if t == nil || exempt != nil && exempt(ev) {
				continue
			}
			ok := p.isNil(t)
			if !ok && p.Kind == "return" && hasErr {
				ok = p.Results[len(p.Results)-1] == t
			}
			if !ok && p.Kind == "back" && !p.notNil(t) {
				// carried on round the loop
				for _, v := range p.Next {
					if v.contains(t) {
						ok = true
					}
				}
			}
			if !ok && p.Kind == "back" && p.Loop != nil && ev.Loop == nil {
				ok = false
			}
			r.need(ok, rule, shortFn(f)+": "+shortName(ev.Name), ev.Pos, "the path goes on to succeed although this call may have failed")
		}
	}
}

// retErr says whether the path reports an error: 1 yes, -1 no, 0 unknown
func retErr(p *Path) int {
	if n := len(p.Results); n == 0 || p.Results[n-1].Typ != nil && !isErrT(p.Results[n-1].Typ) && !types.IsInterface(p.Results[n-1].Typ) {
		return 0
	}
	z, n := nilErr(p)
	switch {
	case z:
		return -1
	case n:
		return 1
	}
	return 0
}

var noPos = token.NoPos

func boolT() types.Type { return types.Typ[types.Bool] }

// mapOf is the type of a map and of its entries
func mapOf(m *Term) (*types.Map, types.Type) {
	mt, ok := typUnder(m).(*types.Map)
	if !ok {
		return nil, nil
	}
	return mt, mt.Elem()
}

// rootPath names the fields a value was reached by
func rootPath(t *Term) string {
	var sb strings.Builder
	t.any(func(x *Term) bool {
		if x.Op == OFld {
			sb.WriteString(fieldName(x) + " ")
		}
		return false
	})
	return sb.String()
}

// constOf is a numeric constant of the repository by name
func constOf(pkg, name string) *Term {
	if p := thePkgs[modPath+"/"+pkg]; p != nil {
		{
			if c, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
				if n, ok := constant.Int64Val(c.Val()); ok {
					return cInt(n)
				}
			}
		}
	}
	return T.mk(OUndef, name, nil)
}
