package main

// Loading the program under analysis: every package of the repository, type-checked
// and in SSA form, from its current working tree.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = "/repo"
	modPath  = "github.com/mescanne/goledger"
	theProg  *ssa.Program
	thePkgs  map[string]*packages.Package
	allFuncs []*ssa.Function // functions with a body in the repository
	fset     *token.FileSet
)

func load(dir string) error {
	repoDir = dir
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	thePkgs = map[string]*packages.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
			thePkgs[p.PkgPath] = p
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("type-checking: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, p := range sp {
		if p == nil {
			return fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	theProg = prog
	fset = prog.Fset
	for f := range ssautil.AllFunctions(prog) {
		if inRepo(f) && len(f.Blocks) > 0 {
			allFuncs = append(allFuncs, f)
		}
	}
	sort.Slice(allFuncs, func(i, j int) bool {
		if allFuncs[i].String() != allFuncs[j].String() {
			return allFuncs[i].String() < allFuncs[j].String()
		}
		return allFuncs[i].Pos() < allFuncs[j].Pos()
	})
	return nil
}

func pkgOf(f *ssa.Function) *types.Package {
	if f == nil {
		return nil
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o != f {
		return pkgOf(o)
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	return nil
}

func inRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// relPkg is the import path within the repository
func relPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// fnKey names a function without its position: book.(*Book).compact
func fnKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	return strings.ReplaceAll(s, modPath+"/", "")
}

func pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := fset.Position(p)
	if r, err := filepath.Rel(repoDir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// lookup finds "pkg.Func" or "pkg.Type.Method"; nil if it isn't there
func lookup(name string) *ssa.Function {
	i := strings.LastIndexByte(name, '/')
	j := strings.IndexByte(name[i+1:], '.')
	path, rest := name[:i+1+j], name[i+1+j+1:]
	pp := modPath
	if path != "" {
		pp += "/" + path
	}
	pk := theProg.ImportedPackage(pp)
	if pk == nil {
		return nil
	}
	if k := strings.IndexByte(rest, '.'); k >= 0 {
		t := pk.Type(rest[:k])
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := theProg.MethodSets.MethodSet(ty)
			sel := ms.Lookup(pk.Pkg, rest[k+1:])
			if sel == nil {
				continue
			}
			// the declared method, not a wrapper
			if o, ok := sel.Obj().(*types.Func); ok {
				if f := theProg.FuncValue(o); f != nil {
					return f
				}
			}
		}
		return nil
	}
	return pk.Func(rest)
}

// lookupType finds "pkg.Type"
func lookupType(name string) types.Type {
	i := strings.LastIndexByte(name, '.')
	pk := theProg.ImportedPackage(modPath + "/" + name[:i])
	if pk == nil {
		return nil
	}
	t := pk.Type(name[i+1:])
	if t == nil {
		return nil
	}
	return t.Type()
}

func ratOfConst(v constant.Value) (*Term, bool) {
	v = constant.ToFloat(v)
	s := v.ExactString()
	r := newRat()
	if _, ok := r.SetString(s); !ok {
		return nil, false
	}
	return cNum(r), true
}

// ---- package variables that are set once, by their initialiser

var globalCache map[*ssa.Global]*Term
var globalInit map[*ssa.Global]ssa.Value

// globalInits finds the package variables only ever written by package initialisation
func globalInits() map[*ssa.Global]ssa.Value {
	if globalInit != nil {
		return globalInit
	}
	globalInit = map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	for _, f := range allFuncs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if f.Name() == "init" && f.Synthetic != "" {
							if _, dup := globalInit[g]; dup {
								bad[g] = true
							}
							globalInit[g] = st.Val
						} else {
							bad[g] = true
						}
						continue
					}
				}
				// address used any other way than reading it
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					bad[g] = true
				}
			}
		}
	}
	for g := range bad {
		delete(globalInit, g)
	}
	return globalInit
}

func globalValue(g *ssa.Global) *Term {
	if globalCache == nil {
		globalCache = map[*ssa.Global]*Term{}
	}
	if t, ok := globalCache[g]; ok {
		return t
	}
	v, ok := globalInits()[g]
	var t *Term
	if ok {
		t = initTerm(v)
		if t == nil {
			if isErrorType(deref(g.Type())) {
				t = T.mk(OGlobal, "val:"+g.Pkg.Pkg.Path()+"."+g.Name(), deref(g.Type()))
			}
		}
	}
	globalCache[g] = t
	return t
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// initTerm is the value of an initialiser made of constants
func initTerm(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return nil
		}
		switch f.String() {
		case "regexp.MustCompile":
			if a := initTerm(v.Call.Args[0]); a != nil {
				t := T.mk(OCall, "regexp.Compile.0", v.Type(), a)
				t.NonN = true
				return t
			}
		case "strings.NewReplacer":
			args := sliceInit(v.Call.Args[0])
			if args != nil {
				t := T.mk(OCall, "strings.NewReplacer", v.Type(), args...)
				t.NonN = true
				return t
			}
		}
	}
	return nil
}

// sliceInit is the elements of a slice literal (or of a variadic call) made of constants
func sliceInit(v ssa.Value) []*Term {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	r := make([]*Term, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			st, ok := rr.(*ssa.Store)
			if !ok {
				return nil
			}
			t := initTerm(st.Val)
			if t == nil {
				return nil
			}
			r[k.Int64()] = t
		}
	}
	for i := range r {
		if r[i] == nil {
			return nil
		}
	}
	return r
}
