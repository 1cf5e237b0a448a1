package main

// Operations given by name, and the commands that apply them.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// opText splits what an operation was written as into its name and its text, for the text t
func opText(p *Path, op, t *Term) (string, bool) {
	if t.Op == OSlice && len(t.Args) >= 3 && t.Args[0] == op && t.Args[2] == mkLen(op) {
		from := t.Args[1]
		for _, f := range p.Facts() {
			if !f.Val || f.Cond.Op != OCmp && f.Cond.Op != OEq {
				continue
			}
			var key *Term
			f.Cond.any(func(x *Term) bool {
				if x.Op == OCall && x.Aux == "(*regexp.Regexp).FindString" && x.Args[1] == op && mkLen(x) == from {
					key = x
				}
				return key != nil
			})
			if key == nil {
				continue
			}
			for _, s := range strConsts(f.Cond) {
				k := s.strVal()
				if k == "" || !p.Holds(cmp0("=", nSub(key, s))) {
					continue
				}
				if pat, ok := patOf(key.Args[0]); ok && findsPrefix(pat, k) {
					return k, true
				}
			}
		}
		if n, ok := from.intVal(); ok {
			for _, f := range p.Facts() {
				if s := f.Cond; f.Val && s.Op == OCall && s.Aux == "strings.HasPrefix" && s.Args[0] == op && s.Args[1].isStrC() && int64(len(s.Args[1].strVal())) == n {
					return s.Args[1].strVal(), true
				}
			}
		}
		for _, f := range p.Facts() {
			if s := f.Cond; f.Val && s.Op == OCall && s.Aux == "strings.HasPrefix" && s.Args[0] == op && s.Args[1].isStrC() && from == cInt(int64(len(s.Args[1].strVal()))) {
				return s.Args[1].strVal(), true
			}
		}
	}
	if t.Op == OCall && t.Aux == "strings.TrimPrefix" && t.Args[0] == op {
		// what was found at its start
		if f := t.Args[1]; f.Op == OCall && f.Aux == "(*regexp.Regexp).FindString" && f.Args[1] == op {
			return opText(p, op, T.mk(OSlice, "", t.Typ, op, mkLen(f), mkLen(op)))
		}
	}
	if t.Op == OCall && strings.HasPrefix(t.Aux, "strings.") && len(t.Args) == 2 && t.Args[0] == op && t.Args[1].isStrC() {
		k := t.Args[1].strVal()
		switch t.Aux {
		case "strings.TrimPrefix":
			return k, p.Holds(T.mk(OCall, "strings.HasPrefix", boolT(), op, t.Args[1]))
		case "strings.CutPrefix.0":
			for _, f := range p.Facts() {
				if f.Val && f.Cond.Op == OCall && f.Cond.Aux == "strings.CutPrefix.1" && f.Cond.Args[0] == op && f.Cond.Args[1] == t.Args[1] {
					return k, true
				}
			}
		case "strings.Cut.1":
			name := false
			nm := ""
			for _, f := range p.Facts() {
				if f.Val && f.Cond.Op == OCall && f.Cond.Aux == "strings.Cut.2" && f.Cond.Args[0] == op {
					name = true
				}
				for _, s := range strConsts(f.Cond) {
					if f.Cond.any(func(x *Term) bool {
						return x.Op == OCall && x.Aux == "strings.Cut.0" && x.Args[0] == op && x.Args[1] == t.Args[1] && p.Holds(cmp0("=", nSub(x, s)))
					}) {
						nm = s.strVal()
					}
				}
			}
			return nm + k, name && nm != ""
		}
	}
	return "", false
}

func strConsts(t *Term) (r []*Term) {
	t.any(func(x *Term) bool {
		if x.isStrC() {
			r = append(r, x)
		}
		return false
	})
	return
}

// patOf is the text of a compiled expression
func patOf(re *Term) (string, bool) {
	if re.Op == OCall && strings.HasPrefix(re.Aux, "regexp.") && len(re.Args) == 1 && re.Args[0].isStrC() {
		return re.Args[0].strVal(), true
	}
	return "", false
}

// findsPrefix: the expression finds k at the start of any text that starts with it, up to its end
func findsPrefix(pat, k string) bool {
	re, err := regexp.Compile(pat)
	if err != nil {
		return false
	}
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	x = x.Simplify()
	if x.Op != syntax.OpConcat || x.Sub[0].Op != syntax.OpBeginText {
		return false
	}
	for _, tail := range []string{"", "/a/b/", "=", "a=b", k} {
		if re.FindString(k+tail) != k {
			return false
		}
	}
	return true
}

// slashField says which part, counted from 1, of a text of the form /part/part/.../ group n of the
// expression is, and whether it may be missing
func slashField(pat string, group int) (field int, opt, ok bool) {
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || x.Op != syntax.OpConcat || len(x.Sub) < 3 {
		return
	}
	if x.Sub[0].Op != syntax.OpBeginText || x.Sub[len(x.Sub)-1].Op != syntax.OpEndText {
		return
	}
	slashes := 0
	good := true
	var walk func(x *syntax.Regexp, o bool)
	walk = func(x *syntax.Regexp, o bool) {
		switch x.Op {
		case syntax.OpBeginText, syntax.OpEndText:
		case syntax.OpLiteral:
			if string(x.Rune) != "/" {
				good = false
			}
			slashes++
		case syntax.OpConcat:
			for _, s := range x.Sub {
				walk(s, o)
			}
		case syntax.OpQuest:
			walk(x.Sub[0], true)
		case syntax.OpCapture:
			in := x.Sub[0]
			if in.Op == syntax.OpPlus && in.Sub[0].Op == syntax.OpCharClass {
				if x.Cap == group {
					field, opt, ok = slashes, o, true
				}
				class := in.Sub[0].Rune
				if inClass(class, '/', '/') {
					good = false
				}
				// a text may be any, a number has any digits
				if number := slashes == 3 && !o; number && !inClass(class, '0', '9') || !number && !(inClass(class, 0, '/'-1) && inClass(class, '/'+1, unicode.MaxRune)) {
					good = false
				}
				return
			}
			walk(in, o)
		default:
			good = false
		}
	}
	walk(x, false)
	return field, opt, ok && good
}

// inClass: the class of characters has all from a to b
func inClass(class []rune, a, b rune) bool {
	for i := 0; i+1 < len(class); i += 2 {
		if class[i] <= a && b <= class[i+1] {
			return true
		}
	}
	return false
}

// partMay: the part of the text of an operation may have the character
func partMay(t *Term, c rune) bool {
	m := t.Args[0].Args[0]
	n, _ := t.Args[0].Args[1].intVal()
	pat, _ := patOf(m.Args[0])
	x, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	may := false
	var walk func(x *syntax.Regexp)
	walk = func(x *syntax.Regexp) {
		if x.Op == syntax.OpCapture && x.Cap == int(n) && x.Sub[0].Op == syntax.OpPlus {
			may = inClass(x.Sub[0].Sub[0].Rune, c, c)
		}
		for _, s := range x.Sub {
			walk(s)
		}
	}
	walk(x)
	return may
}

// opPart: t is part n of the text of an operation
func opPart(p *Path, op, t *Term) (key string, field int, opt, ok bool) {
	if (t.Op != OLd && t.Op != OInit) || len(t.Args) == 0 || t.Args[0].Op != OIdx {
		return
	}
	m, i := t.Args[0].Args[0], t.Args[0].Args[1]
	n, isN := i.intVal()
	if !isN || m.Op != OCall || m.Aux != "(*regexp.Regexp).FindStringSubmatch" || !p.notNil(m) && !p.Not(cmp0("=", mkLen(m))) {
		return
	}
	pat, ok1 := patOf(m.Args[0])
	if !ok1 {
		return
	}
	key, ok1 = opText(p, op, m.Args[1])
	if !ok1 {
		return
	}
	field, opt, ok = slashField(pat, int(n))
	return
}

var bookOps = map[string]string{
	"map=": "RegexAccounts", "mapccy=": "RegexCCY", "move=": "AdjustPost", "asof=": "FilterByDateAsof", "since=": "FilterByDateSince",
	"combine=": "SplitBy", "depreciate=": "Depreciate",
}

// checkOps: C24
func checkOps(r *Report) {
	top := r.fn("cmd/app.App.BookOps")
	if top == nil {
		return
	}
	// the function for one operation
	var one *ssa.Function
	acct := lookup("book.Book.RegexAccounts")
	for _, b := range top.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g != top && inRepo(g) && reach(g)[acct] {
					one = g
				}
			}
		}
	}
	if !r.need(one != nil, "anchor", "one operation", top.Pos(), "no function that carries out one operation") {
		return
	}
	callOf := func(ev *Event, b, op *Term) bool {
		return ev.Kind == "call" && ev.Fn == one && argsHave(ev, b) && argsHave(ev, op)
	}
	// all in order
	e := r.runFn(top, nil, Config{Mode: func(f *ssa.Function) Mode {
		if f == one || relPkg(pkgOf(f)) != "cmd/app" {
			return MEvent
		}
		return MInline
	}})
	b, ops := param(top, 1), param(top, 2)
	eachDone := func(p *Path, list, b *Term, c string) {
		s := p.scanOf(list)
		if !r.need(s != nil, "ops-order", c, p.Pos, "not every operation is carried out") {
			return
		}
		r.need(s.forward(), "ops-order", c, p.Pos, "the operations are not carried out in their order")
		for _, bk := range s.l.Backs {
			evs := bk.in(s.l)
			n := 0
			for _, ev := range evs {
				if ev.Kind != "call" || ev.Fn == nil || !inRepo(ev.Fn) {
					continue
				}
				if r.need(callOf(ev, b, s.elem(bk)) && bk.isNil(ev.err()), "ops-order", c, ev.Pos, "something else is done than the operation, or its error is not heeded") {
					n++
				}
			}
			r.need(n == 1, "ops-order", c, bk.Pos, "an operation is carried out %d times", n)
		}
		for _, l := range p.loopsOn() {
			if l != s.l {
				for _, bk := range l.Backs {
					for _, ev := range bk.in(l) {
						r.need(ev.Fn == nil || !inRepo(ev.Fn), "ops-order", c, ev.Pos, "something more is done")
					}
				}
			}
		}
	}
	done := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		done++
		eachDone(p, ops, b, shortFn(top))
		for _, ev := range p.Events() {
			r.need(ev.Kind != "call" || ev.Loop != nil || ev.Fn == nil || !inRepo(ev.Fn), "ops-order", shortFn(top), ev.Pos, "something is done besides the operations")
		}
	}
	r.need(done > 0, "ops-order", shortFn(top), top.Pos(), "never completes")
	errorsHeeded(r, "ops-error", top, e, nil)

	// one operation
	e = r.runFn(one, nil, outside("cmd/app"))
	c := shortFn(one)
	var op *Term
	for i, prm := range one.Params {
		if types.Identical(prm.Type(), types.Typ[types.String]) {
			op = param(one, i)
		}
		if isType(deref(prm.Type()), "book.Book") {
			b = param(one, i)
		}
	}
	if !r.need(op != nil, "anchor", c, one.Pos(), "no operation is given") {
		return
	}
	got := map[string]int{}
	for _, p := range e.Paths {
		if p.Kind != "return" {
			continue
		}
		var bookEv []*Event
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.Fn != nil && relPkg(pkgOf(ev.Fn)) == "book" && argsHave(ev, b) {
				bookEv = append(bookEv, ev)
			}
		}
		isMacro := 0
		var list *Term
		for _, f := range p.Facts() {
			f.Cond.any(func(x *Term) bool {
				if (x.Op == OMapHas || x.Op == OMapEnt) && len(x.Args) == 2 && x.Args[1] == op && strings.Contains(rootPath(x.Args[0]), "Macros") {
					mt, lt := mapOf(x.Args[0])
					list = p.LoadAt(nil, mapEnt(x.Args[0], op, mt), lt)
					has := p.LoadAt(nil, T.mk(OMapHas, "", nil, x.Args[0], op), boolT())
					switch {
					case p.Holds(has), p.notNil(list), p.Holds(cmp0(">", mkLen(list))):
						isMacro = 1
					case p.Not(has), p.isNil(list), p.Holds(cmp0("=", mkLen(list))):
						isMacro = -1
					}
				}
				return false
			})
		}
		if isMacro == 1 {
			r.need(len(bookEv) == 0, "ops-macro", c, p.Pos, "a macro does something besides its operations")
			if retErr(p) == 1 {
				r.need(failedCall(p) || inItself(p, op), "ops-refused", c+" macro", p.Pos, "a macro is refused although nothing failed and it is not being carried out already")
				continue
			}
			got["macro"]++
			eachDone(p, list, b, c+" macro")
			continue
		}
		if retErr(p) == 1 {
			// nothing is done and no error hidden
			for _, ev := range bookEv {
				r.need(ev.err() != nil && p.notNil(ev.err()), "ops-error", c, ev.Pos, "an error is given although the operation was carried out")
			}
			r.need(failedCall(p) || badOp(p, op), "ops-refused", c, p.Pos, "an operation is refused although nothing failed and nothing is known to be wrong with it")
			continue
		}
		if !r.need(isMacro == -1, "ops-macro", c, p.Pos, "an operation is carried out without asking whether it is a macro") {
			continue
		}
		if !r.need(len(bookEv) == 1, "ops-one", c, p.Pos, "%d operations are carried out for one", len(bookEv)) {
			continue
		}
		ev := bookEv[0]
		if t := ev.err(); t != nil {
			r.need(p.isNil(t) || p.Results[len(p.Results)-1] == t, "ops-error", c+" "+shortName(ev.Name), ev.Pos, "the error of the operation is not given")
		}
		name := ev.Fn.Name()
		key, bad := "", ""
		part := func(i, want int, opt bool) {
			k, n, o, ok := opPart(p, op, ev.Args[i])
			if !ok || n != want || o != opt {
				bad = "argument " + strconv.Itoa(i) + " is not part " + strconv.Itoa(want) + " of what is given: " + ev.Args[i].String()
				return
			}
			key = k
		}
		switch name {
		case "RegexAccounts":
			part(1, 1, false)
			part(2, 2, false)
			part(3, 3, true)
		case "RegexCCY":
			part(1, 1, false)
			part(2, 2, false)
		case "AdjustPost":
			part(1, 1, false)
			part(2, 2, false)
			v := p.LoadAt(ev.Mem, numLoc(ev.Args[3]), nil)
			if v.Op != OCall || v.Aux != "parsenum" || !p.Holds(T.mk(OCall, "parsenum.ok", boolT(), v.Args...)) {
				bad = "the factor is not the number given"
			} else if k, n, o, ok := opPart(p, op, v.Args[0]); !ok || n != 3 || o || k != key {
				bad = "the factor is not the number given"
			} else if !partMay(v.Args[0], '.') {
				bad = "the factor may not be a decimal number"
			}
		case "FilterByDateAsof", "FilterByDateSince":
			d := ev.Args[1]
			var from *Event
			for _, x := range p.Events() {
				if x.Kind == "call" && x.is("book.DateFromString") && x.Res == d {
					from = x
				}
			}
			if from == nil || !p.Not(cmp0("=", d)) {
				bad = "the date is not the one given, or not known to be one"
			} else if k, ok := opText(p, op, from.Args[0]); ok {
				key = k
			}
		case "SplitBy":
			t := ev.Args[1]
			okT := false
			for _, f := range p.Facts() {
				if x := f.Cond; f.Val && x.Op == OCall && x.Aux == "strings.EqualFold" {
					for i := 0; i < 2; i++ {
						if x.Args[i] == t {
							if k, ok := opText(p, op, x.Args[1-i]); ok {
								key = k
								okT = elementOfGlobal(t, "FloorTypes")
							}
						}
					}
				}
			}
			if !okT {
				bad = "the period is not the one given"
			}
		case "Depreciate":
			part(1, 1, false)
			part(2, 2, false)
			if ev.Args[3] != cStr("monthly") {
				bad = "depreciation is not by months"
			}
			n := ev.Args[4]
			if n.Op != OCall || n.Aux != "strconv.ParseInt.0" || n.Args[1] != cInt(10) {
				bad = "the number of months is not the number given"
			} else {
				if k, f, o, ok := opPart(p, op, n.Args[0]); !ok || f != 3 || o || k != key {
					bad = "the number of months is not the number given"
				}
				if !p.isNil(T.mk(OCall, "strconv.ParseInt.1", nil, n.Args...)) && !parsedOK(p, n) {
					bad = "the number of months may not be one"
				}
			}
		default:
			bad = "an operation no name stands for"
		}
		if r.need(bad == "", "ops-what", c+" "+name, ev.Pos, "%s", bad) {
			r.need(bookOps[key] == name, "ops-what", c+" "+name, ev.Pos, "carried out for the name '%s'", key)
			got[key]++
		}
	}
	for k, n := range bookOps {
		r.need(got[k] > 0, "ops-what", c+" "+n, one.Pos(), "the operation %s is never carried out", k)
	}
	r.need(got["macro"] > 0, "ops-macro", c, one.Pos(), "macros are never carried out")
	checkReportOrder(r)
	checkRegisterOrder(r)
}

// failedCall: something that was called has failed
func failedCall(p *Path) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && !ev.Defer && ev.err() != nil && p.notNil(ev.err()) {
			return true
		}
	}
	return failedPure(p, nil)
}

// failedPure: a call without an effect has failed, of those asked for
func failedPure(p *Path, of func(*Term) bool) bool {
	for _, f := range p.Facts() {
		if f.Cond.any(func(t *Term) bool {
			return t.Op == OCall && t.Typ != nil && isErrT(t.Typ) && p.notNil(t) && (of == nil || of(t))
		}) {
			return true
		}
	}
	return false
}

// inItself: the name is one of those given as being carried out
func inItself(p *Path, op *Term) bool {
	for _, f := range p.Facts() {
		if f.Val && isEqFact(f.Cond) && f.Cond.contains(op) && f.Cond.any(func(t *Term) bool {
			return isLoad(t) && len(t.Args) > 0 && t.Args[0].Op == OIdx && t != op && t.Args[0].any(func(x *Term) bool { return x.Op == OParam && x != op })
		}) {
			return true
		}
	}
	return false
}

// badOp: something is known to be wrong with the text of the operation
func badOp(p *Path, op *Term) bool {
	bad := false
	denied := map[string]bool{}
	for _, f := range p.Facts() {
		f.Cond.any(func(t *Term) bool {
			switch {
			case t.Op == OCall && strings.Contains(t.Aux, "FindStringSubmatch") && !strings.Contains(t.Aux, "Index"):
				bad = bad || p.isNil(t) || p.Holds(cmp0("=", mkLen(t)))
			case t.Op == OCall && strings.HasSuffix(t.Aux, ".FindString"):
				bad = bad || isEmpty(p, t)
			case t.Op == OCall && t.Aux == "parsenum.ok":
				bad = bad || p.Not(t)
			}
			return false
		})
		if !f.Val {
			for _, k := range strConsts(f.Cond) {
				denied[k.strVal()] = true
			}
		}
	}
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.is("book.DateFromString") && ev.Res != nil && p.Holds(cmp0("=", ev.Res)) {
			bad = true
		}
	}
	// none of a list of names is what is given
	for _, l := range p.loopsOn() {
		if len(l.Backs) == 0 {
			continue
		}
		none := true
		for _, bk := range l.Backs {
			is := false
			for _, f := range bk.Facts() {
				if !f.Val && f.Cond.Op == OCall && f.Cond.Aux == "strings.EqualFold" {
					for i := 0; i < 2; i++ {
						if t := f.Cond.Args[i]; elementOfGlobal(t, "FloorTypes") && isLoad(t) && t.Args[0].Op == OIdx {
							s := p.scanOf(t.Args[0].Args[0])
							is = is || s != nil && s.l == l && s.elem(bk) == t
						}
					}
				}
			}
			none = none && is
		}
		bad = bad || none
	}
	all := true
	for k := range bookOps {
		all = all && (denied[k] || denied[k+"="])
	}
	return bad || all
}

// parsedOK: the path knows that the text was a number
func parsedOK(p *Path, n *Term) bool {
	for _, f := range p.Facts() {
		if f.Val && f.Cond.Op == OEq && f.Cond.any(func(x *Term) bool {
			if x.Op != OCall || x.Aux != "strconv.ParseInt.1" || len(x.Args) != len(n.Args) {
				return false
			}
			return x.Args[0] == n.Args[0]
		}) {
			return true
		}
	}
	return false
}

// elementOfGlobal: t is an element of a list with that name
func elementOfGlobal(t *Term, name string) bool {
	return t.any(func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.name(), name) })
}
