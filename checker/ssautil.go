package main

// Queries over the SSA form that need no paths.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isType(t types.Type, name string) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	want := lookupType(name)
	return want != nil && types.Identical(n, want)
}

// fieldWrites are the places in f that set the field of an object f did not just make
func fieldWrites(f *ssa.Function, typ, field string) (r []token.Pos) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isType(fa.X.Type(), typ) {
				continue
			}
			if _, ok := fa.X.(*ssa.Alloc); ok {
				continue
			}
			s := deref(fa.X.Type()).Underlying().(*types.Struct)
			if s.Field(fa.Field).Name() == field {
				r = append(r, st.Pos())
			}
		}
	}
	return
}

// callsOf are the static and invoke calls in f whose callee name matches
func callsOf(f *ssa.Function, match func(name string, fn *ssa.Function) bool) (r []ssa.CallInstruction) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if n, fn := calleeName(c.Common()); match(n, fn) {
				r = append(r, c)
			}
		}
	}
	return
}

func calleeName(c *ssa.CallCommon) (string, *ssa.Function) {
	if c.IsInvoke() {
		return "(" + c.Value.Type().String() + ")." + c.Method.Name(), nil
	}
	if f := c.StaticCallee(); f != nil {
		return f.String(), f
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name(), nil
	}
	return "", nil
}

// callers are the functions of the repository that call name (package.Func or package.Type.Method), by SSA name
func callersOf(fn *ssa.Function) (r []*ssa.Function) {
	for _, f := range allFuncs {
		if len(callsOf(f, func(_ string, g *ssa.Function) bool { return g == fn })) > 0 {
			r = append(r, f)
		}
	}
	return
}

func isErrT(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func shortFn(f *ssa.Function) string { return strings.TrimPrefix(fnKey(f), modPath+"/") }

// topFn is the declared function a function literal is in
func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// readOnlyElsewhere: the variable is written by its own function only; what else has its address
// are closures that read it
func readOnlyElsewhere(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Val == v || depth > 0 {
				return false
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == v && !readOnlyElsewhere(fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

var leakMemo = map[ssa.Value]bool{}

// leaks: may a copy of the pointer be left somewhere by what is done with it?
func leaks(v ssa.Value) bool {
	if r, ok := leakMemo[v]; ok {
		return r
	}
	leakMemo[v] = false // assumed while it is being looked at
	r := leaks1(v)
	if r {
		leakMemo[v] = true
	} else {
		delete(leakMemo, v)
	}
	return r
}

func leaks1(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Val == v {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		case *ssa.FieldAddr:
			if leaks(in) {
				return true
			}
		case *ssa.IndexAddr:
			if leaks(in) {
				return true
			}
		case *ssa.Call:
			g := in.Call.StaticCallee()
			if g == nil || in.Call.IsInvoke() || !inRepo(g) || len(g.Blocks) == 0 || in.Call.Value == v {
				return true
			}
			for i, a := range in.Call.Args {
				if a == v && (i >= len(g.Params) || leaks(g.Params[i])) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}
