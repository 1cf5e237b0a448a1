// Rewrites a copy of the repository without changing what it does: one kind of
// refactoring, everywhere it applies (or where -only says). Development aid for finding
// rules that depend on how the code is written.
//
//	refactor -dir COPY -kind NAME [-only REGEXP of file:function]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	info    *types.Info
	pkg     *types.Package
	curFile *ast.File
	curFn   *ast.FuncDecl
	fset    *token.FileSet
	count   int
	serial  int
	extra   []ast.Decl
)

func fresh(p string) string { serial++; return fmt.Sprintf("%sRf%d", p, serial) }

func main() {
	dir := flag.String("dir", "", "copy of the repository")
	kind := flag.String("kind", "", "refactoring")
	only := flag.String("only", "", "regexp of package.function")
	list := flag.Bool("list", false, "list the kinds")
	flag.Parse()
	if *list {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
		return
	}
	onlyRe := regexp.MustCompile(*only)
	k := kinds[*kind]
	if k == nil {
		fmt.Fprintln(os.Stderr, "no such kind")
		os.Exit(2)
	}
	cfg := &packages.Config{Dir: *dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps,
		ParseFile: func(fs *token.FileSet, name string, src []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			if !strings.HasPrefix(name, *dir) {
				mode |= parser.ParseComments
			}
			return parser.ParseFile(fs, name, src, mode)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "cmd/web") || p.TypesInfo == nil {
			continue
		}
		info, pkg, fset = p.TypesInfo, p.Types, p.Fset
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles
			_ = name
			_ = i
			fn := fset.Position(f.Pos()).Filename
			if strings.HasSuffix(fn, "_test.go") || !strings.HasPrefix(fn, *dir) {
				continue
			}
			before := count
			curFile = f
			extra = nil
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				rel, _ := filepath.Rel(*dir, fn)
				id := filepath.Dir(rel) + "." + fd.Name.Name
				if !onlyRe.MatchString(id) {
					continue
				}
				curFn = fd
				b := count
				k(fd)
				if count > b && *only != "" {
					fmt.Println(id, count-b)
				}
			}
			if count == before {
				continue
			}
			f.Decls = append(f.Decls, extra...)
			f.Comments = nil
			strip(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
				fmt.Fprintln(os.Stderr, fn, err)
				os.Exit(2)
			}
			if err := os.WriteFile(fn, buf.Bytes(), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
	}
	fmt.Println(*kind, count, "places")
}

func strip(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
		case *ast.GenDecl:
			x.Doc = nil
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
		case *ast.ImportSpec:
			x.Doc, x.Comment = nil, nil
		}
		return true
	})
}

var kinds = map[string]func(*ast.FuncDecl){
	"ifswap":   each(ifswap),
	"ifinit":   blocks(ifinit),
	"rangeidx": each(rangeidx),
	"argtemp":  blocks(argtemp),
	"condfn":   each(condfn),
	"condclos": each(condclos),
	"bodyfn":   each(bodyfn),
	"vardecl":  each(vardecl),
	"opassign": each(opassign),
	"switch2if": each(switch2if),
	"retvar":   blocks(retvar),
	"ifand":    each(ifand),
	"elseless": blocks(elseless),
	"early":    blocks(early),
	"cmpflip":  each(cmpflip),
	"rename":   rename,
	"forcond":  each(forcond),
	"swap2":    blocks(swap2),
	"copyparam": copyparam,
	"notnot":   each(notnot),
	"condtemp": blocks(condtemp),
	"exprfn":   each(exprfn),
	"rangecopy": blocks(rangecopy),
	"if2switch": each(if2switch),
	"litfields": each(litfields),
	"nop":      nop,
}

// each applies f to every node, innermost first
func each(f func(c *astutil.Cursor) bool) func(*ast.FuncDecl) {
	return func(fd *ast.FuncDecl) {
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			if c.Node() != nil && f(c) {
				count++
			}
			return true
		})
	}
}

// blocks rewrites the statements of lists one by one
func blocks(f func(list []ast.Stmt, i int, fnBody bool) []ast.Stmt) func(*ast.FuncDecl) {
	return func(fd *ast.FuncDecl) {
		do := func(l []ast.Stmt, top bool) []ast.Stmt {
			for i := len(l) - 1; i >= 0; i-- {
				if n := f(l, i, top); n != nil {
					l = n
					count++
				}
			}
			return l
		}
		astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
			switch x := c.Node().(type) {
			case *ast.BlockStmt:
				_, lit := c.Parent().(*ast.FuncLit)
				x.List = do(x.List, lit || x == fd.Body)
			case *ast.CaseClause:
				x.Body = do(x.Body, false)
			}
			return true
		})
	}
}

func neg(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.ParenExpr:
		return neg(x.X)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL:
			return &ast.BinaryExpr{X: x.X, Op: token.NEQ, Y: x.Y}
		case token.NEQ:
			return &ast.BinaryExpr{X: x.X, Op: token.EQL, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func asBlock(s ast.Stmt) *ast.BlockStmt {
	if b, ok := s.(*ast.BlockStmt); ok {
		return b
	}
	return &ast.BlockStmt{List: []ast.Stmt{s}}
}

func ifswap(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.IfStmt)
	if !ok || x.Else == nil {
		return false
	}
	x.Cond, x.Body, x.Else = neg(x.Cond), asBlock(x.Else), x.Body
	return true
}

func ifinit(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.IfStmt)
	if !ok || x.Init == nil {
		return nil
	}
	b := &ast.BlockStmt{List: []ast.Stmt{x.Init, x}}
	x.Init = nil
	if i == len(l)-1 && terminates(x) {
		// still ends the function
	}
	return splice(l, i, 1, b)
}

func splice(l []ast.Stmt, i, n int, by ...ast.Stmt) []ast.Stmt {
	out := append([]ast.Stmt{}, l[:i]...)
	out = append(out, by...)
	return append(out, l[i+n:]...)
}

func terminates(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK || x.Tok == token.CONTINUE
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminates(x.List[len(x.List)-1])
	case *ast.IfStmt:
		return x.Else != nil && terminates(x.Body) && terminates(x.Else)
	case *ast.ExprStmt:
		if call, ok := x.X.(*ast.CallExpr); ok {
			if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "panic" {
				return true
			}
		}
	}
	return false
}

func typeOf(e ast.Expr) types.Type { return info.TypeOf(e) }

func rangeidx(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.RangeStmt)
	if !ok || x.Tok != token.DEFINE || typeOf(x.X) == nil {
		return false
	}
	if _, lab := c.Parent().(*ast.LabeledStmt); lab {
		return false
	}
	if _, sl := typeOf(x.X).Underlying().(*types.Slice); !sl {
		return false
	}
	list, k := fresh("list"), fresh("k")
	key, _ := x.Key.(*ast.Ident)
	if key != nil && key.Name != "_" && !assigned(x.Body, key) {
		k = key.Name
	} else if key != nil && key.Name != "_" {
		return false
	}
	if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
		x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(list), Index: id(k)}}}}, x.Body.List...)
	}
	loop := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{id(k)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
		Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(list)}}},
		Post: &ast.IncDecStmt{X: id(k), Tok: token.INC},
		Body: x.Body,
	}
	if !insertBefore(c, &ast.AssignStmt{Lhs: []ast.Expr{id(list)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}) {
		return false
	}
	c.Replace(loop)
	return true
}

func insertBefore(c *astutil.Cursor, s ast.Stmt) bool {
	if c.Index() < 0 {
		return false
	}
	switch c.Parent().(type) {
	case *ast.BlockStmt, *ast.CaseClause:
		c.InsertBefore(s)
		return true
	}
	return false
}

func assigned(n ast.Node, v *ast.Ident) bool {
	o := info.ObjectOf(v)
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		chk := func(e ast.Expr) {
			if i, ok := e.(*ast.Ident); ok && info.ObjectOf(i) == o && o != nil {
				found = true
			}
		}
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				chk(l)
			}
		case *ast.IncDecStmt:
			chk(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				chk(x.X)
			}
		}
		return true
	})
	return found
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func simple(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit, *ast.FuncLit:
		return true
	case *ast.SelectorExpr:
		_, ok := x.X.(*ast.Ident)
		return ok
	}
	return false
}

// argtemp: f(a+b, g()) -> t := a+b; u := g(); f(t, u)
func argtemp(l []ast.Stmt, i int, top bool) []ast.Stmt {
	var call *ast.CallExpr
	switch s := l[i].(type) {
	case *ast.ExprStmt:
		call, _ = s.X.(*ast.CallExpr)
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 {
			call, _ = s.Rhs[0].(*ast.CallExpr)
		}
		for _, x := range s.Lhs {
			if !pure(x) {
				return nil
			}
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			call, _ = s.Results[0].(*ast.CallExpr)
		}
	}
	if call == nil {
		return nil
	}
	if tv, ok := info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
		return nil
	}
	switch f := call.Fun.(type) {
	case *ast.Ident:
	case *ast.SelectorExpr:
		if !pure(f.X) {
			return nil
		}
	default:
		return nil
	}
	var pre []ast.Stmt
	for j, a := range call.Args {
		tv, ok := info.Types[a]
		if !ok || tv.Value != nil || tv.IsNil() || tv.IsType() || simple(a) {
			continue
		}
		if _, tuple := tv.Type.(*types.Tuple); tuple {
			return nil
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			continue
		}
		t := fresh("arg")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		call.Args[j] = id(t)
	}
	if pre == nil {
		return nil
	}
	return splice(l, i, 1, append(pre, l[i])...)
}

// free: the local variables an expression or block uses; ok is false if it cannot be moved
func free(n ast.Node, body bool) (vs []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	inside := map[types.Object]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if i, isId := n.(*ast.Ident); isId {
			if o := info.Defs[i]; o != nil {
				inside[o] = true
			}
		}
		if cc, is := n.(*ast.CaseClause); is {
			if o := info.Implicits[cc]; o != nil {
				inside[o] = true
			}
		}
		return true
	})
	outer := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				// a field of a struct variable
				if t := typeOf(x.X); t != nil {
					if _, st := t.Underlying().(*types.Struct); st {
						e = x.X
						continue
					}
				}
				return false
			case *ast.IndexExpr:
				if t := typeOf(x.X); t != nil {
					if _, ar := t.Underlying().(*types.Array); ar {
						e = x.X
						continue
					}
				}
				return false
			case *ast.Ident:
				o := info.ObjectOf(x)
				v, isVar := o.(*types.Var)
				return isVar && !inside[o] && v.Parent() != pkg.Scope() && !v.IsField()
			}
			return false
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if x.Name == "_" {
				return true
			}
			o := info.Uses[x]
			if o == nil {
				if info.Defs[x] == nil && !inside[o] {
					// an identifier made by a refactoring
					if o2 := info.ObjectOf(x); o2 == nil && isMade(x) {
						ok = false
					}
				}
				return true
			}
			switch v := o.(type) {
			case *types.Var:
				if !v.IsField() && !inside[o] && v.Pkg() == pkg && v.Parent() != pkg.Scope() && !seen[v] {
					seen[v] = true
					vs = append(vs, v)
				}
			case *types.TypeName:
				if v.Pkg() == pkg && v.Parent() != pkg.Scope() && !inside[o] {
					ok = false
				}
			case *types.Const:
				if v.Pkg() == pkg && v.Parent() != pkg.Scope() && !inside[o] {
					ok = false
				}
			}
		case *ast.FuncLit:
			if !body {
				ok = false
			}
		case *ast.ReturnStmt, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.BranchStmt:
			ok = false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if outer(l) {
					ok = false
				}
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				ok = false
			}
		case *ast.IncDecStmt:
			if outer(x.X) {
				ok = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && outer(x.X) {
				ok = false
			}
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				if sig, is := s.Obj().Type().(*types.Signature); is && sig.Recv() != nil {
					_, ptr := sig.Recv().Type().(*types.Pointer)
					if _, isPtr := s.Recv().Underlying().(*types.Pointer); ptr && !isPtr && outer(x.X) {
						ok = false
					}
				}
			}
		case *ast.SliceExpr:
			if outer(x.X) {
				if _, ar := typeOf(x.X).Underlying().(*types.Array); ar {
					ok = false
				}
			}
		}
		return true
	})
	for _, v := range vs {
		if !nameable(v.Type()) {
			ok = false
		}
	}
	return
}

func isMade(x *ast.Ident) bool { return strings.Contains(x.Name, "Rf") }

func nameable(t types.Type) bool {
	ok := true
	types.TypeString(t, func(p *types.Package) string {
		if p != pkg && importName(p) == "" {
			ok = false
		}
		return p.Name()
	})
	// a type declared in a function cannot be named outside
	var walk func(t types.Type)
	seen := map[types.Type]bool{}
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.(type) {
		case *types.Named:
			if u.Obj().Pkg() == pkg && u.Obj().Parent() != pkg.Scope() {
				ok = false
			}
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		}
	}
	walk(t)
	return ok
}

func importName(p *types.Package) string {
	for _, im := range curFile.Imports {
		if strings.Trim(im.Path.Value, `"`) == p.Path() {
			if im.Name != nil {
				return im.Name.Name
			}
			return p.Name()
		}
	}
	return ""
}

func typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return importName(p)
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(s + err.Error())
	}
	// forget positions
	return clearPos(e)
}

func clearPos(e ast.Expr) ast.Expr { return e }

func shadowed(vs []*types.Var, n ast.Node) bool {
	// a package, type or function that a parameter of the same name hides
	names := map[string]bool{}
	for _, v := range vs {
		if names[v.Name()] {
			return true
		}
		names[v.Name()] = true
	}
	bad := false
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if o := info.Uses[i]; o != nil && names[o.Name()] {
				if _, isVar := o.(*types.Var); !isVar {
					bad = true
				}
			}
		}
		return true
	})
	return bad
}

func helper(vs []*types.Var, ret ast.Expr, body []ast.Stmt) ast.Expr {
	name := fresh("helper")
	ft := &ast.FuncType{Params: &ast.FieldList{}}
	var args []ast.Expr
	for _, v := range vs {
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: typeExpr(v.Type())})
		args = append(args, id(v.Name()))
	}
	if ret != nil {
		ft.Results = &ast.FieldList{List: []*ast.Field{{Type: ret}}}
	}
	extra = append(extra, &ast.FuncDecl{Name: id(name), Type: ft, Body: &ast.BlockStmt{List: body}})
	return &ast.CallExpr{Fun: id(name), Args: args}
}

func hasMade(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && isMade(i) && info.ObjectOf(i) == nil {
			f = true
		}
		return true
	})
	return f
}

// condfn: the condition of an if becomes a function
func condfn(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.IfStmt)
	if !ok {
		return false
	}
	e := x.Cond
	if _, isId := e.(*ast.Ident); isId {
		return false
	}
	vs, ok := free(e, false)
	if !ok || shadowed(vs, e) {
		return false
	}
	x.Cond = helper(vs, id("bool"), []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}})
	return true
}

func condclos(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.IfStmt)
	if !ok {
		return false
	}
	x.Cond = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{x.Cond}}}}}}
	return true
}

// exprfn: the value assigned becomes a function
func exprfn(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.AssignStmt)
	if !ok || len(x.Rhs) != 1 || len(x.Lhs) != 1 {
		return false
	}
	e := x.Rhs[0]
	tv, ok := info.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() || simple(e) {
		return false
	}
	if b, isB := tv.Type.(*types.Basic); isB && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if call, is := e.(*ast.CallExpr); is {
		// only what is more than a call of simple things
		all := true
		for _, a := range call.Args {
			if !simple(a) {
				all = false
			}
		}
		if all {
			return false
		}
	}
	if _, is := e.(*ast.TypeAssertExpr); is {
		return false
	}
	vs, ok := free(e, false)
	if !ok || shadowed(vs, e) || !nameable(tv.Type) {
		return false
	}
	x.Rhs[0] = helper(vs, typeExpr(tv.Type), []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}})
	return true
}

// bodyfn: the body of a loop or a branch becomes a function
func bodyfn(c *astutil.Cursor) bool {
	var b *ast.BlockStmt
	switch x := c.Node().(type) {
	case *ast.IfStmt:
		b = x.Body
	case *ast.ForStmt:
		b = x.Body
	case *ast.RangeStmt:
		b = x.Body
	}
	if b == nil || len(b.List) == 0 {
		return false
	}
	if hasMade(b) {
		// made of helpers already: their arguments are all known
		ok := true
		ast.Inspect(b, func(n ast.Node) bool {
			if i, is := n.(*ast.Ident); is && isMade(i) && !strings.HasPrefix(i.Name, "helper") {
				ok = false
			}
			return true
		})
		if !ok {
			return false
		}
		return false
	}
	vs, ok := free(b, true)
	if !ok || shadowed(vs, b) {
		return false
	}
	call := helper(vs, nil, b.List)
	b.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	return true
}

func vardecl(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.AssignStmt)
	if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 || c.Index() < 0 {
		return false
	}
	switch p := c.Parent().(type) {
	case *ast.BlockStmt:
	case *ast.CaseClause:
		for _, s := range p.Body {
			if s == x {
				goto fine
			}
		}
		return false
	default:
		return false
	}
fine:
	i, ok := x.Lhs[0].(*ast.Ident)
	if !ok || i.Name == "_" {
		return false
	}
	c.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{i}, Values: x.Rhs}}}})
	return true
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.QUO_ASSIGN: token.QUO}

func opassign(c *astutil.Cursor) bool {
	switch x := c.Node().(type) {
	case *ast.IncDecStmt:
		if !pure(x.X) {
			return false
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		c.Replace(&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}})
		return true
	case *ast.AssignStmt:
		op, ok := opOf[x.Tok]
		if !ok || !pure(x.Lhs[0]) {
			return false
		}
		x.Tok = token.ASSIGN
		x.Rhs[0] = &ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}
		return true
	}
	return false
}

func breaks(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH {
				f = true
			}
		case *ast.ForStmt, *ast.RangeStmt:
			return false
		}
		return true
	})
	return f
}

func switch2if(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.SwitchStmt)
	if !ok || x.Init != nil || breaks(x.Body) {
		return false
	}
	if _, lab := c.Parent().(*ast.LabeledStmt); lab {
		return false
	}
	var def *ast.CaseClause
	var cs []*ast.CaseClause
	for _, s := range x.Body.List {
		cc := s.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			cs = append(cs, cc)
		}
	}
	if len(cs) == 0 {
		return false
	}
	var tag ast.Expr = x.Tag
	if tag != nil {
		if tv := info.Types[tag]; tv.Value != nil {
			return false
		}
		t := fresh("tag")
		if !insertBefore(c, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}}) {
			return false
		}
		tag = id(t)
	}
	var last ast.Stmt
	if def != nil {
		last = &ast.BlockStmt{List: def.Body}
	}
	for i := len(cs) - 1; i >= 0; i-- {
		var cond ast.Expr
		for _, e := range cs[i].List {
			var t ast.Expr = e
			if tag != nil {
				t = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: &ast.ParenExpr{X: e}}
			} else {
				t = &ast.ParenExpr{X: e}
			}
			if cond == nil {
				cond = t
			} else {
				cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
			}
		}
		st := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cs[i].Body}}
		if last != nil {
			st.Else = last
		}
		last = st
	}
	c.Replace(last)
	return true
}

func if2switch(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.IfStmt)
	if !ok || x.Else == nil || x.Init != nil || breaks(x) {
		return false
	}
	if _, in := c.Parent().(*ast.IfStmt); in {
		return false
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cur ast.Stmt = x
	for cur != nil {
		i, is := cur.(*ast.IfStmt)
		if is && i.Init == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
			cur = i.Else
			continue
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: asBlock(cur).List})
		cur = nil
	}
	c.Replace(sw)
	return true
}

func resultTypes(l []ast.Stmt) *types.Tuple {
	o, _ := info.Defs[curFn.Name].(*types.Func)
	if o == nil {
		return nil
	}
	return o.Type().(*types.Signature).Results()
}

func inLit(s ast.Stmt) bool {
	in := false
	ast.Inspect(curFn.Body, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			ast.Inspect(fl, func(m ast.Node) bool {
				if m == s {
					in = true
				}
				return true
			})
		}
		return true
	})
	return in
}

// retvar: return e -> var t T = e; return t
func retvar(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.ReturnStmt)
	if !ok || len(x.Results) == 0 || inLit(x) {
		return nil
	}
	rt := resultTypes(l)
	if rt == nil || rt.Len() != len(x.Results) {
		return nil
	}
	var pre []ast.Stmt
	var rs []ast.Expr
	for j, e := range x.Results {
		if !nameable(rt.At(j).Type()) {
			return nil
		}
		t := fresh("ret")
		pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(t)}, Type: typeExpr(rt.At(j).Type()), Values: []ast.Expr{e}}}}})
		rs = append(rs, id(t))
	}
	return splice(l, i, 1, append(pre, &ast.ReturnStmt{Results: rs})...)
}

func ifand(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.IfStmt)
	if !ok || x.Else != nil {
		return false
	}
	b, ok := x.Cond.(*ast.BinaryExpr)
	if !ok || b.Op != token.LAND {
		return false
	}
	x.Cond = b.X
	x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
	return true
}

// elseless: if c { ...; return } else { rest } -> if c { ...; return }; rest
func elseless(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.IfStmt)
	if !ok || x.Else == nil || !terminates(x.Body) || x.Init != nil || i != len(l)-1 {
		return nil
	}
	rest := asBlock(x.Else).List
	x.Else = nil
	return splice(l, i+1, 0, rest...)
}

// early: if c { ...; return }; rest -> if c { ...; return } else { rest }
func early(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.IfStmt)
	if !ok || x.Else != nil || !terminates(x.Body) || i == len(l)-1 {
		return nil
	}
	for _, s := range l[i+1:] {
		if _, lab := s.(*ast.LabeledStmt); lab {
			return nil
		}
	}
	// must the end of the list end the function?
	if top && !terminates(l[len(l)-1]) {
		if _, isRet := l[len(l)-1].(*ast.ForStmt); isRet {
			return nil
		}
		if _, isSw := l[len(l)-1].(*ast.SwitchStmt); isSw {
			return nil
		}
	}
	x.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[i+1:]...)}
	return append([]ast.Stmt{}, l[:i+1]...)
}

var flip = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}

func cmpflip(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.BinaryExpr)
	if !ok {
		return false
	}
	op, ok := flip[x.Op]
	if !ok || !pure(x.X) && !pure(x.Y) {
		return false
	}
	x.X, x.Op, x.Y = x.Y, op, x.X
	return true
}

func notnot(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.BinaryExpr)
	if !ok {
		return false
	}
	switch x.Op {
	case token.LAND:
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: neg(x.X), Op: token.LOR, Y: neg(x.Y)}}})
		return true
	case token.LOR:
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: neg(x.X), Op: token.LAND, Y: neg(x.Y)}}})
		return true
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		t := typeOf(x.X)
		if t == nil {
			return false
		}
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
			return false
		}
		op := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}[x.Op]
		c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: x.X, Op: op, Y: x.Y}}})
		return true
	}
	return false
}

func rename(fd *ast.FuncDecl) {
	// implicit variables of type switches keep their names
	ast.Inspect(fd, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		if !ok || i.Name == "_" || i.Name == "" {
			return true
		}
		o := info.Defs[i]
		if o == nil {
			o = info.Uses[i]
		}
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Pkg() != pkg || v.Parent() == pkg.Scope() {
			return true
		}
		if v.Pos() < fd.Pos() || v.Pos() > fd.End() || v.Name() != i.Name {
			return true
		}
		for _, im := range info.Implicits {
			if im == o {
				return true
			}
		}
		i.Name = "own" + strings.ToUpper(i.Name[:1]) + i.Name[1:]
		count++
		return true
	})
}

func forcond(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.ForStmt)
	if !ok || x.Cond == nil {
		return false
	}
	x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: neg(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
	x.Cond = nil
	return true
}

func idents(n ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			m[i.Name] = true
		}
		return true
	})
	return m
}

func define(s ast.Stmt) *ast.AssignStmt {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 {
		return nil
	}
	return a
}

func harmless(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			f, is := x.Fun.(*ast.Ident)
			if !is || f.Name != "make" && f.Name != "new" && f.Name != "len" {
				ok = false
			}
		case *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr:
			ok = false
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// swap2: two neighbours that do not depend on each other change places
func swap2(l []ast.Stmt, i int, top bool) []ast.Stmt {
	if i+1 >= len(l) {
		return nil
	}
	a, b := define(l[i]), define(l[i+1])
	if a == nil || b == nil || !(harmless(a.Rhs[0]) || harmless(b.Rhs[0])) {
		return nil
	}
	if !harmless(a.Rhs[0]) && strings.Contains(fmt.Sprint(idents(b.Rhs[0])), "o") && !onlyLit(b.Rhs[0]) || !harmless(b.Rhs[0]) && !onlyLit(a.Rhs[0]) {
		return nil
	}
	la, lb := a.Lhs[0].(*ast.Ident).Name, b.Lhs[0].(*ast.Ident).Name
	if la == lb || idents(b.Rhs[0])[la] || idents(a.Rhs[0])[lb] {
		return nil
	}
	out := append([]ast.Stmt{}, l...)
	out[i], out[i+1] = out[i+1], out[i]
	return out
}

func onlyLit(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.CallExpr:
		f, is := x.Fun.(*ast.Ident)
		return is && (f.Name == "make" || f.Name == "new")
	case *ast.Ident:
		return x.Name == "true" || x.Name == "false" || x.Name == "nil"
	}
	return false
}

// copyparam: parameters are copied first
func copyparam(fd *ast.FuncDecl) {
	var pre []ast.Stmt
	m := map[types.Object]string{}
	do := func(fl *ast.FieldList) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			for _, n := range f.Names {
				o := info.Defs[n]
				if n.Name == "_" || o == nil {
					continue
				}
				if _, st := o.Type().Underlying().(*types.Struct); st {
					continue
				}
				used := false
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					if i, ok := x.(*ast.Ident); ok && info.Uses[i] == o {
						used = true
					}
					return true
				})
				if !used {
					continue
				}
				c := fresh("my")
				m[o] = c
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(n.Name)}})
			}
		}
	}
	do(fd.Recv)
	do(fd.Type.Params)
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok {
			if c, is := m[info.Uses[i]]; is && info.Uses[i] != nil {
				i.Name = c
				count++
			}
		}
		return true
	})
	fd.Body.List = append(pre, fd.Body.List...)
}

// condtemp: if c -> t := c; if t
func condtemp(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.IfStmt)
	if !ok || x.Init != nil {
		return nil
	}
	if _, is := x.Cond.(*ast.Ident); is {
		return nil
	}
	t := fresh("cond")
	s := &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Cond}}
	x.Cond = id(t)
	return splice(l, i, 0, s)
}

// rangecopy: what is ranged over is named first
func rangecopy(l []ast.Stmt, i int, top bool) []ast.Stmt {
	x, ok := l[i].(*ast.RangeStmt)
	if !ok {
		return nil
	}
	if _, is := x.X.(*ast.Ident); is {
		return nil
	}
	t := fresh("over")
	s := &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}}
	x.X = id(t)
	return splice(l, i, 0, s)
}

// litfields: &T{A: x, B: y} keeps its fields in another order
func litfields(c *astutil.Cursor) bool {
	x, ok := c.Node().(*ast.CompositeLit)
	if !ok || len(x.Elts) < 2 {
		return false
	}
	t := typeOf(x)
	if t == nil {
		return false
	}
	if _, st := t.Underlying().(*types.Struct); !st {
		return false
	}
	calls := 0
	for _, e := range x.Elts {
		kv, is := e.(*ast.KeyValueExpr)
		if !is {
			return false
		}
		if !pure(kv.Value) {
			calls++
		}
	}
	if calls > 1 {
		return false
	}
	for i, j := 0, len(x.Elts)-1; i < j; i, j = i+1, j-1 {
		x.Elts[i], x.Elts[j] = x.Elts[j], x.Elts[i]
	}
	return true
}

func nop(fd *ast.FuncDecl) {
	s, _ := parser.ParseExpr("func(){ _ = 0 }")
	fd.Body.List = append(s.(*ast.FuncLit).Body.List, fd.Body.List...)
	count++
}

var _ = constant.MakeBool
