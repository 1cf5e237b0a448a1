package main

// Scripts and style sheets: where their text is from, and what a script may do.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fromField says from which fields (of any object) a value is, and what else it may be
func fromField(v ssa.Value, fields map[string]bool, seen map[ssa.Value]bool) (other ssa.Value) {
	if seen[v] {
		return nil
	}
	seen[v] = true
	all := func(vs ...ssa.Value) ssa.Value {
		for _, x := range vs {
			if o := fromField(x, fields, seen); o != nil {
				return o
			}
		}
		return nil
	}
	stored := func(a ssa.Value) ssa.Value {
		n := 0
		for _, ref := range *a.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
				n++
				if o := all(s.Val); o != nil {
					return o
				}
			}
		}
		if n == 0 {
			return a
		}
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return all(x.Edges...)
	case *ssa.ChangeType:
		return all(x.X)
	case *ssa.Field:
		fields[x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()] = true
		return nil
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			fields[deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name()] = true
			return nil
		case *ssa.Alloc:
			return stored(a)
		case *ssa.FreeVar:
			f := a.Parent()
			n := 0
			for i, fv := range f.FreeVars {
				if fv != a || f.Referrers() == nil {
					continue
				}
				for _, ref := range *f.Referrers() {
					mc, ok := ref.(*ssa.MakeClosure)
					if !ok {
						return v
					}
					n++
					b, ok := mc.Bindings[i].(*ssa.Alloc)
					if !ok {
						return v
					}
					if o := stored(b); o != nil {
						return o
					}
				}
			}
			if n == 0 {
				return v
			}
			return nil
		}
	case *ssa.Parameter:
		f := x.Parent()
		n := 0
		for _, c := range callersOf(f) {
			for _, call := range callsOf(c, func(_ string, g *ssa.Function) bool { return g == f }) {
				for i, p := range f.Params {
					if p == x && i < len(call.Common().Args) {
						n++
						if o := all(call.Common().Args[i]); o != nil {
							return o
						}
					}
				}
			}
		}
		if n > 0 {
			return nil
		}
	}
	return v
}

// givenFrom: every call of f is given, as its i-th argument, what is configured as field
func givenFrom(r *Report, f *ssa.Function, i int, field, what string) {
	n := 0
	for _, c := range callersOf(f) {
		for _, call := range callsOf(c, func(_ string, g *ssa.Function) bool { return g == f }) {
			n++
			fields := map[string]bool{}
			other := fromField(call.Common().Args[i], fields, map[ssa.Value]bool{})
			r.need(other == nil && len(fields) == 1 && fields[field], "code-given", shortFn(c)+": "+f.Name(), call.Pos(), "the %s is not the one configured", what)
		}
	}
	r.need(n > 0, "code-given", f.Name(), f.Pos(), "no %s is used", what)
}

// fileOrText: what GetFileOrStr gives
func fileOrText(r *Report) *ssa.Function {
	f := r.fn("cmd/utils.GetFileOrStr")
	if f == nil {
		return nil
	}
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	text := param(f, 0)
	has := []*Term{mkHasPrefix(text, cStr("file:")), T.mk(OCall, "strings.CutPrefix.1", boolT(), text, cStr("file:"))}
	isFile := func(p *Path) bool { return p.Holds(has[0]) || p.Holds(has[1]) }
	asText, asFile := 0, 0
	for _, p := range e.Paths {
		if p.Kind != "return" || len(p.Results) != 2 {
			r.need(false, "file-or-text", c, p.Pos, "it does not come to an end")
			continue
		}
		reads := p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, ".ReadFile") })
		if retErr(p) == 1 {
			r.need(len(reads) == 1 && p.notNil(reads[0].err()) && isFile(p), "file-or-text", c+": fails", p.Pos, "it fails although there is nothing that failed")
			continue
		}
		if p.Results[0] == text {
			asText++
			r.need((p.Not(has[0]) || p.Not(has[1])), "file-or-text", c+": text", p.Pos, "the name of a file is taken for the text itself")
			continue
		}
		asFile++
		got := p.Results[0]
		for got.Op == OConv && len(got.Args) == 1 {
			got = got.Args[0]
		}
		ok := len(reads) == 1 && p.isNil(reads[0].err()) && got == reads[0].part(0)
		r.need(ok, "file-or-text", c+": content", p.Pos, "it does not give the whole of what is in the file: %v", p.Results[0])
		r.need(isFile(p), "file-or-text", c+": asked", p.Pos, "a file is read although none is named")
		if len(reads) == 1 {
			r.need(afterPrefix(reads[0].Args[0], text, "file:"), "file-or-text", c+": name", p.Pos, "it is not the file named that is read: %v", reads[0].Args[0])
		}
	}
	r.need(asText > 0 && asFile > 0, "file-or-text", c, f.Pos(), "it does not give both texts and files")
	return f
}

// afterPrefix: t is what comes in text after the prefix
func afterPrefix(t, text *Term, prefix string) bool {
	switch {
	case t.Op == OSlice && len(t.Args) == 3:
		return t.Args[0] == text && t.Args[1] == cInt(int64(len(prefix))) && t.Args[2] == mkLen(text)
	case t.Op == OCall && (t.Aux == "strings.TrimPrefix" || t.Aux == "strings.CutPrefix.0"):
		return t.Args[0] == text && t.Args[1].isStrC() && t.Args[1].strVal() == prefix
	}
	return false
}

// commented: the text with every line but the first begun as a comment
func commented(t, msg *Term) bool {
	lit := func(x *Term, s string) bool { return x.isStrC() && x.strVal() == s }
	switch t.Aux {
	case "strings.ReplaceAll":
		return t.Args[0] == msg && lit(t.Args[1], "\n") && lit(t.Args[2], "\n; ")
	case "strings.Replace":
		n, ok := t.Args[3].intVal()
		return t.Args[0] == msg && lit(t.Args[1], "\n") && lit(t.Args[2], "\n; ") && ok && n < 0
	case "strings.Join":
		return isSplit(t.Args[0], msg) && lit(t.Args[1], "\n; ")
	}
	return false
}

func isSplit(t, msg *Term) bool {
	return t.Op == OCall && t.Aux == "strings.Split" && t.Args[0] == msg && t.Args[1].isStrC() && t.Args[1].strVal() == "\n"
}

// printedByScript: what a script prints comes out as comments
func printedByScript(r *Report, f *ssa.Function) {
	c := shortFn(f)
	e := r.runFn(f, nil, Config{})
	msg := param(f, 1)
	stdout := func(ev *Event) bool { return strings.HasSuffix(ev.Args[0].String(), "os.Stdout") }
	for _, p := range e.returns() {
		var prints []*Event
		var loop *Loop
		for _, ev := range p.Events() {
			switch {
			case ev.Kind == "call" && ev.Name == "print":
				prints = append(prints, ev)
			case ev.Kind == "loop":
				loop = ev.Loop
			}
		}
		if loop != nil && len(prints) == 0 {
			// line after line
			var list *Term
			for _, b := range loop.Backs {
				b.anyFact(func(t *Term) bool {
					if isSplit(t, msg) {
						list = t
					}
					return false
				})
			}
			if !r.need(list != nil, "script-print", c, p.Pos, "what is printed is not every line of the message") {
				continue
			}
			eachOf(r, "script-print", c, p, list, func(b *Path, s *scan) bool {
				evs := filterCalls(b.in(s.l), func(ev *Event) bool { return ev.Name == "print" })
				return len(evs) == 1 && stdout(evs[0]) && lineIs(b, evs[0].Args[1], `; `, same(s.elem(b)), `\n`)
			}, "the lines")
			r.need(true, "script-print", c, p.Pos, "")
			continue
		}
		ok := len(prints) == 1 && stdout(prints[0]) && lineIs(p, prints[0].Args[1], `; `, role(func(_ *Path, t *Term) bool { return commented(t, msg) }), `\n`)
		r.need(ok, "script-print", c, p.Pos, "what a script prints is not printed once, with each line a comment")
	}
	r.atLeast("script-print", 1)
}

// builtinOf is the function that a variable of the package makes available to scripts
func builtinOf(name string) *ssa.Function {
	var found *ssa.Function
	for _, f := range allFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || "val:"+g.String() != name && g.String() != name {
					continue
				}
				call, ok := s.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Name() != "NewBuiltin" || found != nil {
					return nil
				}
				a := call.Call.Args[1]
				if ct, ok := a.(*ssa.ChangeType); ok {
					a = ct.X
				}
				fn, ok := a.(*ssa.Function)
				if !ok {
					return nil
				}
				found = fn
			}
		}
	}
	return found
}

// globalName is the name of the variable that the value is of
func globalName(t *Term) string {
	if isLoad(t) && len(t.Args) > 0 && t.Args[0].Op == OGlobal {
		return t.Args[0].Aux
	}
	if t.Op == OGlobal {
		return t.Aux
	}
	return ""
}

// scriptOps: what a script may ask of its book is done on that book as it was asked
func scriptOps(r *Report) {
	attr := r.fn("script.starlarkBook.Attr")
	if attr == nil {
		return
	}
	ops := []struct {
		name, fn string
		args     []string
		date     bool
	}{
		{"map", "book.Book.RegexAccounts", []string{"from", "to", "alt"}, false},
		{"asof", "book.Book.FilterByDateAsof", []string{"date"}, true},
		{"since", "book.Book.FilterByDateSince", []string{"date"}, true},
	}
	e := r.runFn(attr, nil, asEvents("book.Book.Transactions"))
	self, asked := param(attr, 0), param(attr, 1)
	for _, op := range ops {
		var fn *ssa.Function
		for _, p := range e.returns() {
			if !p.Holds(cmpT("==", asked, cStr(op.name), asked.Typ)) || retErr(p) == 1 {
				continue
			}
			for _, ev := range p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, ").BindReceiver") }) {
				if unIface(ev.Args[1]) == self && unIface(p.Results[0]) == ev.Res {
					fn = builtinOf(globalName(ev.Args[0]))
				}
			}
			r.need(fn != nil, "script-op", shortFn(attr)+": "+op.name, p.Pos, "what a script gets as %s of a book is not known", op.name)
		}
		if !r.need(fn != nil, "script-op", shortFn(attr)+": "+op.name, attr.Pos(), "a script cannot use %s", op.name) {
			continue
		}
		c := op.name
		oe := r.runFn(fn, nil, outside("script"))
		n := 0
		for _, p := range oe.Paths {
			if p.Kind == "panic" || p.Kind != "return" {
				r.need(p.Kind == "back", "script-op", c, p.Pos, "the operation can panic")
				continue
			}
			var un *Event
			var done []*Event
			dates := map[*Term]*Term{}
			for _, ev := range p.Events() {
				switch {
				case ev.Kind != "call":
				case strings.HasSuffix(ev.Name, "starlark.UnpackArgs"):
					un = ev
				case ev.is("book.DateFromString"):
					dates[ev.Res] = ev.Args[0]
				case ev.Fn != nil && strings.Contains(fnKey(ev.Fn), "book.Book)"):
					done = append(done, ev)
				}
			}
			if retErr(p) == 1 {
				r.need(len(done) == 0 || len(done) == 1 && p.notNil(done[0].err()), "script-op", c+": fails", p.Pos, "it fails, but only after it was done")
				bad := failedCall(p)
				for d := range dates {
					bad = bad || p.Holds(cmp0("=", d))
				}
				for _, f := range p.Facts() {
					f.Cond.any(func(t *Term) bool {
						switch {
						case t.Op == OTAssertOK:
							bad = bad || p.Not(t)
						case t.Typ != nil && strings.HasSuffix(t.Typ.String(), "starlark.Value"):
							bad = bad || p.isNil(t)
						}
						return false
					})
				}
				r.need(bad, "script-op", c+": refused", p.Pos, "it fails although nothing is known to be wrong with what was asked")
				continue
			}
			if !r.need(un != nil && len(done) == 1 && retErr(p) == -1, "script-op", c+": done", p.Pos, "the operation is not done once") {
				continue
			}
			n++
			x := &record{p: p, ev: un, cells: unpacked(p, un), at: memAfter(p, un)}
			d := done[0]
			on := d.Args[0]
			recv := unIface(p.Results[0])
			if recv.Op == OTAssert {
				recv = recv.Args[0]
			}
			r.need(d.is(op.fn) && p.isNil(un.Res), "script-op", c+": done", d.Pos, "%s does something else: %s", op.name, shortName(d.Name))
			mine := recv.Op == OCall && strings.HasSuffix(recv.name(), ").Receiver")
			r.need(mine && isLoad(on) && fieldOf(on) == "b" && on.contains(recv), "script-op", c+": book", d.Pos, "it is not done on the book it was asked of")
			if !r.need(len(d.Args) == len(op.args)+1, "script-op", c+": arguments", d.Pos, "it is done with something else") {
				continue
			}
			for i, a := range op.args {
				got := d.Args[i+1]
				if op.date {
					from := dates[got]
					r.need(from != nil && from == x.val(a), "script-op", c+": "+a, d.Pos, "the %s is not the one given", a)
					r.need(p.Not(cmp0("=", got)), "script-op", c+": "+a, d.Pos, "a %s that cannot be read is taken", a)
					continue
				}
				r.need(got == x.val(a), "script-op", c+": "+a, d.Pos, "%s is not as it was given", a)
			}
			if op.name == "map" {
				alt := x.dflt("alt")
				r.need(alt.isStrC() && alt.strVal() == "", "script-op", c+": alt", un.Pos, "an account that does not match is replaced although that was not asked")
			}
			if e := d.err(); e != nil {
				r.need(p.isNil(e), "script-op", c+": failed", d.Pos, "it goes on although the operation failed")
			}
		}
		r.need(n > 0, "script-op", c, fn.Pos(), "it is never done")
	}
}

// checkCode: C43
func checkCode(r *Report) {
	get := fileOrText(r)
	run := r.fn("script.RunStarlark")
	if get == nil || run == nil {
		return
	}
	c := shortFn(run)
	cfg := outside("script")
	e := r.runFn(run, nil, cfg)
	if !r.need(len(run.Params) == 3, "anchor", c, run.Pos(), "a script is run with something else than what it prints with, what it is given and its text") {
		return
	}
	ok := 0
	for _, p := range e.returns() {
		var src *Event
		ran := p.calls(named("starlark.ExecFile"))
		for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn == get }) {
			src = ev
		}
		r.need(len(ran) < 2, "script-run", c, p.Pos, "a script is run more than once")
		for _, ev := range ran {
			if !r.need(src != nil && p.isNil(src.err()) && src.Args[0] == param(run, 2), "script-text", c, ev.Pos, "a script is run that could not be read") {
				continue
			}
			r.need(unIface(ev.Args[2]) == src.part(0), "script-text", c, ev.Pos, "what is run is not the script given: %v", ev.Args[2])
			r.need(unIface(ev.Args[3]) == param(run, 1), "script-run", c+": given", ev.Pos, "the script is not given what it may use")
			r.need(loadTM(ev.Mem, p.facts, addrOf(ev.Args[0], "Print"), nil) == param(run, 0), "script-run", c+": print", ev.Pos, "the script prints in another way")
		}
		if retErr(p) == 1 {
			r.need(failedCall(p), "script-run", c+": fails", p.Pos, "it fails although nothing that it did has failed")
		}
		if retErr(p) != 1 {
			ok++
			r.need(len(ran) == 1 && p.isNil(ran[0].err()), "script-run", c, p.Pos, "it succeeds without having run the script")
		}
	}
	r.need(ok > 0, "script-run", c, run.Pos(), "it never succeeds")
	givenFrom(r, run, 2, "Code", "script")

	// what it prints with
	prints := map[*ssa.Function]bool{}
	for _, f := range callersOf(run) {
		for _, call := range callsOf(f, func(_ string, g *ssa.Function) bool { return g == run }) {
			fn, _ := call.Common().Args[0].(*ssa.Function)
			if r.need(fn != nil && len(fn.Params) == 2, "script-print", shortFn(f), call.Pos(), "what the script prints with is not known") && !prints[fn] {
				prints[fn] = true
				printedByScript(r, fn)
			}
		}
	}

	// error
	errs := map[*ssa.Function]bool{}
	for _, f := range callersOf(run) {
		n := 0
		for _, p := range r.runFn(f, nil, asEvents("script.RunStarlark")).returns() {
			for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn == run }) {
				n++
				g := ev.Args[1]
				mt, _ := mapOf(g)
				if !r.need(mt != nil, "script-fails", shortFn(f), ev.Pos, "what the script is given is not known") {
					continue
				}
				x := loadTM(ev.Mem, p.facts, mapEnt(g, cStr("error"), mt), mt.Elem())
				fn := builtinOf(globalName(unIface(x)))
				r.need(fn != nil, "script-fails", shortFn(f), ev.Pos, "the script is not given error: %v", x)
				if fn != nil {
					errs[fn] = true
				}
			}
		}
		r.need(n > 0, "script-fails", shortFn(f), f.Pos(), "no script is run")
	}
	for fn := range errs {
		c := shortFn(fn)
		told := 0
		for _, p := range r.runFn(fn, nil, outside("script")).Paths {
			r.need(p.Kind != "return" || retErr(p) == 1, "script-fails", c, p.Pos, "a script that asks to fail goes on")
			for _, ev := range p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "starlark.UnpackArgs") }) {
				if p.Kind != "return" || !p.isNil(ev.Res) {
					continue
				}
				x := &record{p: p, ev: ev, cells: unpacked(p, ev), at: memAfter(p, ev)}
				told++
				r.need(p.Results[1].contains(x.val("msg")), "script-fails", c+": message", p.Pos, "the message of the script is not part of the error")
			}
		}
		r.need(told > 0, "script-fails", c, fn.Pos(), "no message is read")
	}
	scriptOps(r)

	// style sheets
	html := r.fn("cmd/reports.ShowHTMLTransactions")
	if html == nil {
		return
	}
	pm, _ := printMode()
	mode := pm.Mode
	pm.Mode = func(f *ssa.Function) Mode {
		if f == get {
			return MEvent
		}
		return mode(f)
	}
	hc := shortFn(html)
	style := param(html, 2)
	empty := cmp0("=", mkLen(style))
	given, own := 0, 0
	for _, p := range r.runFn(html, nil, pm).returns() {
		var src *Event
		for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn == get }) {
			src = ev
		}
		texts, loops := outputOf(p, nil)
		shown := len(loops) > 0 || texts[0] != cStr("")
		if src != nil && p.notNil(src.err()) {
			r.need(!shown && retErr(p) == 1, "style", hc+": unread", p.Pos, "something is shown although the style sheet could not be read")
			continue
		}
		if !r.need(shown, "style", hc, p.Pos, "nothing is shown") {
			continue
		}
		if src != nil {
			given++
			r.need(p.Not(empty) && src.Args[0] == style && src.err() != nil && p.isNil(src.err()), "style", hc+": given", src.Pos, "the style sheet shown is not the one given")
			r.need(hasPiece(texts[0], src.part(0)), "style", hc+": shown", src.Pos, "the style sheet given is not part of the page")
			continue
		}
		own++
		r.need(p.Holds(empty), "style", hc+": own", p.Pos, "the style sheet given is not used")
	}
	r.need(given > 0 && own > 0, "style", hc, html.Pos(), "it does not show both a style sheet given and its own")
	givenFrom(r, html, 2, "HTMLCSS", "style sheet")
}

// hasPiece: the text contains t as it is
func hasPiece(text, t *Term) bool {
	_, vals := pieces(text)
	for _, v := range vals {
		if v == t {
			return true
		}
	}
	return false
}
