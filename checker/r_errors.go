package main

// C21: what says it succeeded had no failure, and output that could not be written is noticed.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lastErr: the function's last result is an error
func lastErr(f *ssa.Function) bool {
	n := f.Signature.Results().Len()
	return n > 0 && isErrT(f.Signature.Results().At(n-1).Type())
}

// givesErr: the call gives an error
func givesErr(c *ssa.CallCommon) bool {
	rs := c.Signature().Results()
	return rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type())
}

// quiet functions are helpers that fail, if they do, for their callers: they have no error to
// give, are called by name only, and are analysed as part of their callers
func quiet(f *ssa.Function) bool {
	if q, ok := isQuietFn[f]; ok {
		return q
	}
	isQuietFn[f] = false
	q := isQuiet(f)
	isQuietFn[f] = q
	return q
}

var isQuietFn = map[*ssa.Function]bool{}

func isQuiet(f *ssa.Function) bool {
	if f != nil && inRepo(f) && len(f.Blocks) > 0 && onlyCalled(f) {
		return true
	}
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 || lastErr(f) || f.Signature.Recv() != nil && isType(f.Signature.Recv().Type(), "loader.basicReader") || f.Parent() != nil || token.IsExported(f.Name()) || f.Name() == "main" || strings.HasPrefix(f.Name(), "init") {
		return false
	}
	if refs := f.Referrers(); refs != nil && len(*refs) > 0 {
		return false
	}
	if !calledFns()[f] {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && (givesErr(c.Common()) || quiet(c.Common().StaticCallee())) {
				return true
			}
		}
	}
	return false
}

// onlyCalled: a function literal that is used for nothing but being called where it is made
func onlyCalled(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	calls := 0
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, i := range *refs {
			switch x := i.(type) {
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if a == v {
						return false
					}
				}
				calls++
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, b := range f.Parent().Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
				if !only(mc) {
					return false
				}
				continue
			}
			if c, ok := i.(*ssa.Call); ok && c.Call.Value == f {
				calls++
			}
			for _, op := range i.Operands(nil) {
				if op != nil && *op == f {
					if c, ok := i.(*ssa.Call); !ok || c.Call.Value != f {
						return false
					}
				}
			}
		}
	}
	return calls > 0
}

// takesErr: the function is given an error to judge
func takesErr(f *ssa.Function) bool {
	if !inRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if isErrT(ps.At(i).Type()) {
			return true
		}
	}
	return false
}

var calledFn map[*ssa.Function]bool

// calledFns are the functions called by name in the repository
func calledFns() map[*ssa.Function]bool {
	if calledFn != nil {
		return calledFn
	}
	calledFn = map[*ssa.Function]bool{}
	for _, f := range allFuncs {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						calledFn[g] = true
					}
				}
			}
		}
	}
	return calledFn
}

// noReturn: the function only ever stops
func noReturn(f *ssa.Function) bool {
	if !inRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

func isPrinterT(t types.Type) bool { return isType(t, "cmd/app.BookPrinter") }

// printsTo: the event writes to a printer whose failures the printer keeps
func printsTo(ev *Event) bool {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return false
	}
	if ev.Name == "print" {
		return isPrinterT(unIface(ev.Args[0]).Typ)
	}
	return ev.Fn != nil && isPrinterMethod(ev.Fn, "Printf", "Write", "PrintColumns")
}

func isPrinterMethod(f *ssa.Function, names ...string) bool {
	if f.Signature.Recv() == nil || !isPrinterT(f.Signature.Recv().Type()) {
		return false
	}
	for _, n := range names {
		if f.Name() == n {
			return true
		}
	}
	return len(names) == 0
}

// standardStream: os.Stdout or os.Stderr
func standardStream(t *Term) bool {
	t = unIface(t)
	return t.any(func(x *Term) bool {
		return strings.HasSuffix(x.Aux, "os.Stdout") || strings.HasSuffix(x.Aux, "os.Stderr")
	})
}

// known failures: what a call may give that is no failure of what it is for
var knownKinds = map[string]string{
	"ioutil.ReadFile":             "IsNotExist",
	"os.ReadFile":                 "IsNotExist",
	"os.Open":                     "IsNotExist",
	"bufio.Reader).ReadRune":      "io.EOF",
	"json.Decoder).Token":         "io.EOF",
	"json.Decoder).Decode":        "io.EOF",
	"csv.Reader).Read":            "io.EOF",
	"http.Server).ListenAndServe": "http.ErrServerClosed",
	").getTransactions":           "download.forbidden",
}

// failedAs: on the path the error is known to be of the kind that its call may give
func failedAs(p *Path, ev *Event, err *Term) bool {
	kind := ""
	for k, v := range knownKinds {
		if strings.HasSuffix(ev.Name, k) || ev.Fn != nil && strings.HasSuffix(shortFn(ev.Fn), k) {
			kind = v
		}
	}
	if kind == "" {
		return false
	}
	var known []*Term // what says of which kind it is
	for _, f := range p.Facts() {
		if f.Val {
			known = append(known, f.Cond)
		}
	}
	for _, o := range p.Events() {
		if o.Kind == "call" && o.Res != nil && isBoolT(o.Res.Typ) && p.Holds(o.Res) && len(o.Args) > 0 {
			known = append(known, T.mk(OCall, o.Name, boolT(), o.Args...))
		}
	}
	for _, c := range known {
		ok := false
		switch c.Op {
		case OCall:
			ok = c.Args[0] == err && (kind == "IsNotExist" && (strings.HasSuffix(c.Aux, "os.IsNotExist") || strings.HasSuffix(c.Aux, "errors.Is") && sentinel(c, "ErrNotExist")) ||
				strings.HasSuffix(c.Aux, "errors.Is") && sentinel(c, kind))
		case OEq:
			ok = isEqOf(c, err) && sentinel(c, kind)
		}
		if !ok {
			continue
		}
		if kind == "download.forbidden" {
			// only once: it is asked for again
			n := 0
			for _, o := range p.Events() {
				if o.Kind == "call" && o.Fn == ev.Fn && o != ev && p.isNil(o.err()) {
					n++
				}
			}
			return n > 0
		}
		return true
	}
	return false
}

func sentinel(c *Term, name string) bool {
	return c.any(func(x *Term) bool { return strings.HasSuffix(x.Aux, name) })
}

func isEqOf(c, err *Term) bool { return c.Op == OEq && (c.Args[0] == err || c.Args[1] == err) }

// setup: what only describes the command line or the language and looks for a place; it changes
// nothing of what a command does
func setup(ev *Event) bool {
	for _, s := range []string{").MarkFlagFilename", "cobra.MarkFlagRequired", "cobra.MarkFlagDirname", "cobra.MarkFlagFilename", "cobra.MarkFlagCustom", "catalog.Builder).SetString", "term.GetSize", "os.UserConfigDir", "os.UserHomeDir"} {
		if strings.HasSuffix(ev.Name, s) {
			return true
		}
	}
	return false
}

func errMode(f *ssa.Function) Mode {
	if quiet(f) || noReturn(f) || takesErr(f) {
		return MInline
	}
	return MEvent
}

func checkErrors(r *Report) {
	all := Config{Mode: errMode}
	pagers := printerFields(r)
	for _, f := range allFuncs {
		if !inRepo(f) || len(f.Blocks) == 0 || f.Synthetic != "" || quiet(f) || noReturn(f) || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" || relPkg(pkgOf(f)) == "cmd/web" || strings.HasSuffix(theProg.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		if pagers[f] {
			pager(r, f)
			continue
		}
		if len(callsOf(f, func(string, *ssa.Function) bool { return true })) == 0 {
			continue
		}
		e := r.runFn(f, nil, all)
		byWriter := isPrinterMethod(f)
		for _, p := range e.Paths {
			p := p
			heed(r, f, p, func(ev *Event, err *Term) bool {
				switch {
				case setup(ev), printsTo(ev) && !(byWriter && lastErr(f)):
					return true
				case ev.Name == "print" && len(ev.Args) > 0 && standardStream(ev.Args[0]):
					return true
				case failedAs(p, ev, err):
					return true
				case strings.HasSuffix(ev.Name, "io.Closer).Close") || strings.HasSuffix(ev.Name, "http.Server).Close") || strings.HasSuffix(ev.Name, "os.File).Close") && onlyRead(p, ev.Args[0]):
					return true
				case ev.Name == "dynamic" && p.notNil(err) && p.Kind == "return":
					// reported to the user, by what has nobody to tell
					return !lastErr(f) && toldOn(p, err)
				case strings.HasSuffix(ev.Name, "os.Remove") && f.Parent() != nil && !lastErr(f):
					return true // what is left of what failed
				case strings.HasSuffix(ev.Name, "json.Marshal") && !lastErr(f):
					return p.isNil(err) || p.notNil(err) // text of a message
				}
				return false
			})
			pureHeed(r, f, p)
			if !byWriter {
				dirty(r, f, p)
			}
		}
	}
	r.atLeast("heed", 600)
	r.atLeast("output", 30)
	printer(r)
	exits(r)
}

// onlyRead: the file was opened for reading
func onlyRead(p *Path, file *Term) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "os.Open") && ev.part(0) == file {
			return true
		}
	}
	return false
}

// toldOn: the error is part of what is printed on the path
func toldOn(p *Path, err *Term) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.Name == "print" && len(ev.Args) > 1 && ev.Args[1].contains(err) {
			return true
		}
	}
	return false
}

// heed: on a path that succeeds, no call failed
func heed(r *Report, f *ssa.Function, p *Path, exempt func(*Event, *Term) bool) {
	if p.Kind == "panic" {
		return
	}
	if p.Kind == "return" && lastErr(f) {
		if _, non := nilErr(p); non {
			return
		}
	}
	for _, ev := range p.Events() {
		if ev.Kind != "call" || ev.Defer {
			continue
		}
		t := ev.err()
		if t == nil {
			continue
		}
		ok := p.isNil(t)
		if !ok && p.Kind == "return" && lastErr(f) {
			ok = p.Results[len(p.Results)-1] == t
		}
		ok = ok || exempt(ev, t)
		r.need(ok, "heed", shortFn(f)+": "+shortName(ev.Name), ev.Pos, "the path goes on to succeed although this call may have failed")
	}
}

// pureHeed: a path that succeeds, of what can fail, does not know that something else failed. A
// library function without effects is no event; what it gave is known from the facts of the path
func pureHeed(r *Report, f *ssa.Function, p *Path) {
	if p.Kind != "return" || !lastErr(f) {
		return
	}
	if _, non := nilErr(p); non {
		return
	}
	seen := map[*Term]bool{}
	p.anyFact(func(t *Term) bool {
		if t.Op == OCall && t.Typ != nil && isErrT(t.Typ) && !seen[t] {
			seen[t] = true
			r.need(!p.notNil(t) || p.Results[len(p.Results)-1] == t, "heed", shortFn(f)+": "+t.Aux, p.Pos, "the path goes on to succeed although this call failed")
		}
		return false
	})
}

// printsIn: some iteration of the loop prints
func printsIn(l *Loop) bool { return l.hasEvent(printsTo) }

// dirty: a path that succeeds and has printed asked the printer, or what asks it, whether all was written
func dirty(r *Report, f *ssa.Function, p *Path) {
	if p.Kind != "return" {
		return
	}
	if lastErr(f) {
		if _, non := nilErr(p); non {
			return
		}
	}
	prints := false
	var at token.Pos
	for _, ev := range p.Events() {
		switch {
		case printsTo(ev):
			prints, at = true, ev.Pos
		case ev.Kind == "loop" && printsIn(ev.Loop):
			prints, at = true, f.Pos()
		case ev.Kind == "call" && ev.Fn != nil && isPrinterMethod(ev.Fn, "Err"):
			if p.isNil(ev.Res) || lastErr(f) && p.Results[len(p.Results)-1] == ev.Res {
				prints = false
				r.need(true, "output", shortFn(f), ev.Pos, "")
			}
		}
	}
	r.need(!prints, "output", shortFn(f), at, "what is printed here may not have been written, and the path still succeeds")
}

// printerFields looks at every use of the writer and the error of a printer. It gives the functions
// that choose another writer
func printerFields(r *Report) map[*ssa.Function]bool {
	pagers := map[*ssa.Function]bool{}
	write := r.fn("cmd/app.BookPrinter.Write")
	below := map[*ssa.Function]bool{}
	var down func(f *ssa.Function)
	down = func(f *ssa.Function) {
		if f == nil || below[f] || !inRepo(f) {
			return
		}
		below[f] = true
		for _, c := range callsOf(f, func(_ string, g *ssa.Function) bool { return g != nil }) {
			down(c.Common().StaticCallee())
		}
	}
	down(write)
	n := 0
	for _, f := range allFuncs {
		if !inRepo(f) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isPrinterT(fa.X.Type()) {
					continue
				}
				name := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				if name != "w" && name != "err" {
					continue
				}
				for _, ref := range *fa.Referrers() {
					n++
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr != fa {
							r.need(false, "printer", shortFn(f), ref.Pos(), "the address of %s is kept", name)
						} else if name == "err" {
							r.need(below[f] || !token.IsExported(f.Name()) && !calledFns()[f], "printer", shortFn(f), ref.Pos(), "the error of a printer is set where nothing is written")
						} else {
							_, made := fa.X.(*ssa.Alloc)
							c, isCall := x.Val.(*ssa.Call)
							if !made && isCall && c.Call.StaticCallee() != nil && inRepo(c.Call.StaticCallee()) {
								pagers[c.Call.StaticCallee()] = true
								made = true
							}
							r.need(made, "printer", shortFn(f), ref.Pos(), "the writer of a printer is changed")
						}
					case *ssa.UnOp:
						if name == "err" {
							continue
						}
						for _, u := range *x.Referrers() {
							c, isCall := u.(*ssa.Call)
							switch {
							case isCall && c.Call.IsInvoke() && c.Call.Value == x:
								r.need(below[f], "printer", shortFn(f), u.Pos(), "written to the printer's writer without noting the error")
							case isCall && pagers[c.Call.StaticCallee()]:
							case isCall && c.Call.StaticCallee() != nil && feedsWriter(c):
								pagers[c.Call.StaticCallee()] = true
							default:
								if _, dbg := u.(*ssa.DebugRef); !dbg {
									r.need(false, "printer", shortFn(f), u.Pos(), "the printer's writer is used without noting the error")
								}
							}
						}
					case *ssa.DebugRef:
					default:
						r.need(false, "printer", shortFn(f), ref.Pos(), "the address of %s is kept", name)
					}
				}
			}
		}
	}
	r.atLeast("printer", 4)
	return pagers
}

// feedsWriter: what the call gives becomes the writer of a printer
func feedsWriter(c *ssa.Call) bool {
	for _, u := range *c.Referrers() {
		if st, ok := u.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isPrinterT(fa.X.Type()) {
				return true
			}
		}
	}
	return false
}

// pager: where the other writer cannot be had, the one there was is kept
func pager(r *Report, f *ssa.Function) {
	e := r.runFn(f, nil, Config{Mode: errMode})
	var w *Term
	for i := range f.Params {
		if types.IsInterface(f.Params[i].Type()) {
			w = param(f, i)
		}
	}
	for _, p := range e.Paths {
		if p.Kind != "return" {
			continue
		}
		ok := len(p.Results) == 1
		if ok && p.Results[0] != w {
			for _, ev := range p.Events() {
				if t := ev.err(); ev.Kind == "call" && t != nil {
					ok = ok && p.isNil(t)
				}
			}
		}
		r.need(ok, "pager", shortFn(f), p.Pos, "the pager is used although starting it may have failed")
	}
	r.atLeast("pager", 2)
}

// printer: each write is one write, whose error is kept, the first one for good; Err gives it
func printer(r *Report) {
	typ := lookupType("cmd/app.BookPrinter")
	if typ == nil {
		r.need(false, "anchor", "cmd/app.BookPrinter", token.NoPos, "the printer is not there")
		return
	}
	if f := r.fn("cmd/app.BookPrinter.Write"); f != nil {
		e := r.runFn(f, nil, Config{})
		for _, p := range e.Paths {
			if p.Kind != "return" {
				continue
			}
			b := param(f, 0)
			old := getField(p.LoadAt(nil, b, typ), "err")
			w := getField(p.LoadAt(nil, b, typ), "w")
			c := shortFn(f)
			var ws []*Event
			for _, ev := range p.Events() {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Write") {
					ws = append(ws, ev)
				}
			}
			ok := len(ws) == 1 && len(ws[0].Args) == 2 && ws[0].Args[0] == w && ws[0].Args[1] == param(f, 1)
			if !r.need(ok, "write", c, p.Pos, "what is given is not written, once, to the printer's writer") {
				continue
			}
			err := ws[0].err()
			r.need(len(p.Results) == 2 && p.Results[0] == ws[0].part(0) && (p.Results[1] == err || p.isNil(err) && p.isNil(p.Results[1])), "write", c+" result", p.Pos, "the result of the write is not given on")
			now := getField(p.Load(b, typ), "err")
			first := (p.notNil(old) || p.isNil(err)) && now == old || p.isNil(old) && (now == err || p.isNil(now) && p.isNil(err))
			r.need(first, "keep", c, p.Pos, "the first error is not kept (was %v, is %v)", old, now)
		}
		r.atLeast("write", 2)
		r.atLeast("keep", 2)
	}
	if f := r.fn("cmd/app.BookPrinter.Err"); f != nil {
		e := r.runFn(f, nil, Config{})
		for _, p := range e.Paths {
			if p.Kind != "return" {
				continue
			}
			kept := getField(p.LoadAt(nil, param(f, 0), typ), "err")
			ok := len(p.Results) == 1 && (p.Results[0] == kept || p.isNil(p.Results[0]) && (p.isNil(kept) || leftEarly(p, kept)))
			r.need(ok, "err", shortFn(f), p.Pos, "the error of a failed write is not given")
		}
		r.atLeast("err", 2)
	}
	for _, m := range []string{"Printf", "PrintColumns", "PrintJSON", "PrintCSV"} {
		f := r.fn("cmd/app.BookPrinter." + m)
		if f == nil {
			continue
		}
		e := r.runFn(f, nil, asEvents("cmd/app.BookPrinter.Write"))
		for _, p := range e.Paths {
			for _, ev := range p.Events() {
				if ev.Kind != "call" || len(ev.Args) == 0 {
					continue
				}
				switch {
				case ev.Name == "print", strings.HasSuffix(ev.Name, "csv.NewWriter"), strings.HasSuffix(ev.Name, "bufio.NewWriter"), ev.is("cmd/app.BookPrinter.Write"):
					r.need(unIface(ev.Args[0]) == param(f, 0), "through", shortFn(f), ev.Pos, "what is printed doesn't go through the printer")
				}
			}
		}
	}
	r.atLeast("through", 4)
}

// leftEarly: the error is known to be that of a pipe closed at the other end
func leftEarly(p *Path, err *Term) bool {
	for _, f := range p.Facts() {
		if f.Val && f.Cond.Op == OCall && strings.HasSuffix(f.Cond.Aux, "errors.Is") && f.Cond.contains(err) {
			for _, a := range f.Cond.Args {
				if a = unIface(a); a.Op == OConst {
					if a.String() == "32" { // EPIPE
						return true
					}
				}
			}
		}
	}
	return false
}

// exits: main fails when the command does
func exits(r *Report) {
	f := theProg.ImportedPackage(modPath)
	if f == nil || f.Func("main") == nil {
		r.need(false, "anchor", "main", token.NoPos, "main is not there")
		return
	}
	m := f.Func("main")
	run := lookup("cmd.Execute")
	e := r.runFn(m, nil, asEvents("cmd.Execute"))
	for _, p := range e.Paths {
		var err *Term
		code := ""
		told := false
		for _, ev := range p.Events() {
			switch {
			case ev.Kind == "call" && ev.Fn == run && run != nil:
				err = ev.err()
			case ev.Kind == "call" && strings.HasSuffix(ev.Name, "os.Exit") && len(ev.Args) == 1:
				if code == "" {
					code = ev.Args[0].String()
				}
			case ev.Kind == "call" && ev.Name == "print" && err != nil:
				told = told || ev.Args[1].any(func(x *Term) bool { return x == err })
			}
		}
		if !r.need(err != nil, "exit", "main", m.Pos(), "the command is not run") {
			continue
		}
		if p.isNil(err) {
			continue
		}
		r.need(code == "1" || code == "2", "exit", "main", m.Pos(), "the command failed and the program exits with %q", code)
		r.need(told, "exit", "main says why", m.Pos(), "the command failed and why is not printed")
	}
	r.atLeast("exit", 3)
}
