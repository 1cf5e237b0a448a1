// mutate lists small changes of the functions of a Go file: file, function, start, end, replacement, kind. Development aid.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Fn, Kind, New string
	From, To, Line      int
}

var swap = map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.LAND: "||", token.LOR: "&&", token.MUL: "+", token.QUO: "*", token.REM: "/"}

func main() {
	var out []mut
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			add := func(kind string, from, to token.Pos, s string) {
				out = append(out, mut{path, fd.Name.Name, kind, s, off(from), off(to), fs.Position(from).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					if s, ok := swap[n.Op]; ok {
						add("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						add("left", n.Pos(), n.End(), text(n.X))
						add("right", n.Pos(), n.End(), text(n.Y))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if k, err := strconv.Atoi(n.Value); err == nil {
							add("int", n.Pos(), n.End(), strconv.Itoa(k+1))
						}
					}
					if n.Kind == token.STRING && len(n.Value) > 2 && !strings.Contains(n.Value, "`") {
						add("str", n.Pos(), n.End(), n.Value[:1]+"Q"+n.Value[1:])
					}
				case *ast.IfStmt:
					add("not", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
					add("never", n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && len(\"\") > 0")
				case *ast.ExprStmt:
					add("drop", n.Pos(), n.End(), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						add("drop", n.Pos(), n.End(), "")
					}
				case *ast.IncDecStmt:
					add("drop", n.Pos(), n.End(), "")
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.CONTINUE {
						add("branch", n.Pos(), n.End(), "break")
					} else if n.Label == nil && n.Tok == token.BREAK {
						add("branch", n.Pos(), n.End(), "continue")
					}
				case *ast.DeferStmt:
					add("drop", n.Pos(), n.End(), "")
				case *ast.CallExpr:
					for i := 0; i+1 < len(n.Args); i++ {
						a, b := n.Args[i], n.Args[i+1]
						if text(a) != text(b) {
							add("args", a.Pos(), b.End(), text(b)+string(src[off(a.End()):off(b.Pos())])+text(a))
						}
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						add("slice", n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						switch t := text(r); t {
						case "true":
							add("ret", r.Pos(), r.End(), "false")
						case "false":
							add("ret", r.Pos(), r.End(), "true")
						case "err":
							add("ret", r.Pos(), r.End(), "nil")
						}
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
