package main

// Records added by scripts, and the data scripts are given.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const starlarkPkg = "go.starlark.net/starlark"

// isBuiltinFn: func(*Thread, *Builtin, Tuple, []Tuple) (Value, error)
func isBuiltinFn(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 4 && s.Results().Len() == 2 && strings.HasSuffix(s.Params().At(0).Type().String(), "starlark.Thread") &&
		strings.HasSuffix(s.Params().At(1).Type().String(), "starlark.Builtin")
}

// memAfter is the memory of p right after the call ev
func memAfter(p *Path, ev *Event) *Mem {
	var last *Mem
	var in []*Mem
	for m := p.Mem; m != nil && m != ev.Mem; m = m.prev {
		in = append(in, m)
	}
	// what the call itself does comes first
	for i := len(in) - 1; i >= 0 && in[i].kind != mWrite; i-- {
		last = in[i]
	}
	if last == nil {
		return ev.Mem
	}
	return last
}

// unpacked are the cells the arguments of a script's call are put in, by name
func unpacked(p *Path, ev *Event) map[string]*Term {
	r := map[string]*Term{}
	if len(ev.Args) == 0 {
		return nil
	}
	l := ev.Args[len(ev.Args)-1]
	n, ok := mkLen(l).intVal()
	if !ok {
		return nil
	}
	et := elemType(l.Typ)
	if et == nil {
		return nil
	}
	for i := 0; i+1 < int(n); i += 2 {
		name := unIface(loadTM(ev.Mem, p.facts, idxAddr(l, cInt(int64(i)), et), et))
		cell := unIface(loadTM(ev.Mem, p.facts, idxAddr(l, cInt(int64(i+1)), et), et))
		if !name.isStrC() {
			return nil
		}
		r[strings.TrimRight(name.strVal(), "?")] = cell
	}
	return r
}

func unIface(t *Term) *Term {
	for t.Op == OIface && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// setAfter: what is at addr is changed after the call ev
func setAfter(p *Path, ev *Event, addr *Term) bool {
	was := loadTM(ev.Mem, p.facts, addr, nil)
	for m := p.Mem; m != nil && m != ev.Mem; m = m.prev {
		if m.kind == mWrite && m.addr == addr && m.val != was {
			return true
		}
	}
	return false
}

// record is one call of the function that adds a record
type record struct {
	p     *Path
	cells map[string]*Term
	at    *Mem // memory after the arguments were read
	ev    *Event
}

func (x *record) val(name string) *Term {
	c := x.cells[name]
	if c == nil {
		return T.mk(OUndef, name, nil)
	}
	return loadTM(x.at, x.p.facts, c, deref(c.Typ))
}

func (x *record) dflt(name string) *Term {
	c := x.cells[name]
	if c == nil {
		return T.mk(OUndef, name, nil)
	}
	return loadTM(x.ev.Mem, x.p.facts, c, deref(c.Typ))
}

// asserted: the path knows v to be of the named type of the scripting language
func asserted(p *Path, v *Term, name string) *Term {
	var r *Term
	for _, f := range p.Facts() {
		f.Cond.any(func(t *Term) bool {
			if t.Op == OTAssertOK && len(t.Args) == 1 && t.Args[0] == v && t.name() == starlarkPkg+"."+name && p.Holds(t) {
				r = t
			}
			return false
		})
	}
	return r
}

// exactly: num is the amount v stands for over denom
func exactly(p *Path, num, v, denom *Term) (string, bool) {
	var cands []*Term
	seen := map[*Term]bool{}
	isInt := func(x *Term) bool {
		return x.Op == OCall && strings.HasSuffix(x.name(), "starlark.Int).BigInt") && len(x.Args) == 1
	}
	look := func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.Op == OCall && x.name() == "parsenum" || len(x.Args) > 0 && x.Args[0].Op == ONumLoc && isInt(x.Args[0].Args[0]) {
			cands = append(cands, x)
		}
		return false
	}
	num.any(look)
	is := func(x *Term, typ string) bool {
		for x.Op == OConv && len(x.Args) == 1 {
			x = x.Args[0]
		}
		return x.Op == OTAssert && len(x.Args) == 1 && x.Args[0] == v && x.name() == starlarkPkg+"."+typ && asserted(p, v, typ) != nil
	}
	why := "the amount entered is not the one given over the denominator: " + num.String()
	for _, x := range cands {
		if num != nMul(x, nInv(denom)) {
			continue
		}
		if x.name() != "parsenum" {
			if is(x.Args[0].Args[0].Args[0], "Int") {
				return "", true
			}
			continue
		}
		if !p.Holds(T.mk(OCall, "parsenum.ok", boolT(), x.Args...)) {
			return "a text that is no number is taken as one", false
		}
		s := x.Args[0]
		if is(s, "String") {
			return "", true
		}
		if s.Op == OCall && strings.HasSuffix(s.name(), "strconv.FormatFloat") && len(s.Args) == 4 {
			prec, ok1 := s.Args[2].intVal()
			bits, ok2 := s.Args[3].intVal()
			f, ok3 := s.Args[1].intVal()
			if is(s.Args[0], "Float") && ok1 && prec == -1 && ok2 && bits == 64 && ok3 && strings.ContainsRune("eEfgG", rune(f)) {
				return "", true
			}
			why = "the fraction is not turned into its shortest decimal"
		}
	}
	return why, false
}

// recordFns are the functions scripts add records with
func recordFns() (r []*ssa.Function) {
	nt := lookup("book.Builder.NewTransaction")
	for _, f := range allFuncs {
		if nt != nil && f.Synthetic == "" && isBuiltinFn(f) && reach(f)[nt] {
			r = append(r, f)
		}
	}
	return
}

// checkRecords: C11
func checkRecords(r *Report) {
	for _, n := range []string{"book.Builder.NewTransaction", "book.Builder.AddPosting", "book.DateFromString", "book.Builder.BuildBook", "book.NewBookBuilder"} {
		if r.fn(n) == nil {
			return
		}
	}
	todo, adders := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range recordFns() {
		todo[f], adders[f] = true, true
	}
	for _, u := range []struct{ fn, pkg string }{{"cmd/importer.ImportDef.processData", "cmd/importer"}, {"cmd/generate.Generate.generate", "cmd/generate"}} {
		f := r.fn(u.fn)
		if f == nil {
			continue
		}
		c := shortFn(f)
		e := r.runFn(f, nil, outside(u.pkg, "script"))
		errorsHeeded(r, "script-error", f, e, func(ev *Event) bool {
			return ev.Name == "print" || strings.HasPrefix(ev.Name, "fmt.") || strings.HasSuffix(ev.Name, "Backtrace")
		})
		seen := map[*ssa.Function]bool{}
		for _, p := range e.returns() {
			if retErr(p) == 1 {
				continue
			}
			var adder *Event
			var cl *Term
			for _, ev := range p.calls(named("starlark.NewBuiltin")) {
				for _, a := range ev.Args {
					if a.Op == OClosure && a.Fn != nil && adders[a.Fn] {
						adder, cl = ev, a
					}
				}
			}
			if !r.need(adder != nil, "record-made", c, f.Pos(), "a script is run without the function that adds records") {
				continue
			}
			// the book built is the one the records are entered in
			var bld *Term
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.is("book.NewBookBuilder") {
					bld = ev.part(0)
				}
			}
			built := false
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.is("book.Builder.BuildBook") && ev.Args[0] == bld && len(p.Results) > 0 && p.Results[0] == ev.part(0) {
					built = true
				}
			}
			r.need(bld != nil && built, "record-book", c, p.Pos, "the book given is not the one the records are entered in")
			ran := 0
			for _, ev := range p.calls(named("starlark.ExecFile")) {
				ran++
				g := ev.Args[len(ev.Args)-1]
				mt, _ := mapOf(g)
				if !r.need(mt != nil, "record-given", c, ev.Pos, "what the script is given is not known") {
					continue
				}
				m := loadTM(ev.Mem, p.facts, mapEnt(g, cStr("add"), mt), mt.Elem())
				r.need(unIface(m) == adder.part(0), "record-given", c, ev.Pos, "the script is not given the function that adds records as add")
				if u.pkg == "cmd/importer" {
					d := loadTM(ev.Mem, p.facts, mapEnt(g, cStr("data"), mt), mt.Elem())
					ok := false
					for i := range f.Params {
						if types.IsInterface(f.Params[i].Type()) && d == param(f, i) {
							ok = true
						}
					}
					r.need(ok, "record-data", c, ev.Pos, "the script is not given the data as it was read")
				}
			}
			r.need(ran == 1, "script-run", c, p.Pos, "the script is run %d times", ran)
			if seen[cl.Fn] {
				continue
			}
			seen[cl.Fn] = true
			delete(todo, cl.Fn)
			checkRecord(r, cl, adder.Mem, bld, u.pkg == "cmd/importer")
		}
		r.need(len(seen) > 0, "record-made", c, f.Pos(), "no function that adds records found")
	}
	for f := range todo {
		if r.fns[fnKey(f)] {
			continue
		}
		r.need(false, "undecided", shortFn(f), f.Pos(), "it adds records, but is not known to be given to a script")
	}
	r.atLeast("record-posting", 10)
	r.atLeast("record-default", 6)
}

func isLoad(x *Term) bool { return x.Op == OLd || x.Op == OInit }

// amountsKept: entering a posting changes no amount that was given to it, only balances it made
func amountsKept(r *Report) map[*ssa.Function][]int {
	f := r.fn("book.Builder.AddPosting")
	if f == nil || len(f.Params) != 5 {
		return nil
	}
	c := shortFn(f)
	ok := true
	bals := fld(param(f, 0), "book.Builder", "currAmts")
	for _, p := range r.runFn(f, nil, Config{}).Paths {
		for m := p.Mem; m != nil; m = m.prev {
			if m.kind == mHavoc {
				ok = r.need(!m.hv.matches(numLoc(param(f, 3))), "amount-kept", c, p.Pos, "the amount given may be changed") && ok
				continue
			}
			own := func(x *Term) bool {
				if !isLoad(x) || x.Args[0].Op != OMapEnt {
					return isNew(x)
				}
				m := x.Args[0].Args[0]
				return isLoad(m) && m.Args[0] == bals
			}
			switch {
			case m.addr.Op == ONumLoc:
				ok = r.need(own(m.addr.Args[0]), "amount-kept", c, p.Pos, "a number that is not a balance is changed: %v", m.addr) && ok
			case m.addr.Op == OMapEnt && typUnder(m.val) != nil:
				ok = r.need(isNew(m.val), "amount-kept", c, p.Pos, "the amount given becomes the balance itself: %v", m.val) && ok
			}
		}
	}
	for _, g := range allFuncs {
		for _, w := range fieldWrites(g, "book.Builder", "currAmts") {
			ok = r.need(false, "amount-kept", shortFn(g), w, "the balances are replaced outside of the making of a builder") && ok
		}
	}
	if !ok {
		return nil
	}
	return map[*ssa.Function][]int{f: {3}}
}

// badRecord: something is known to be wrong with the record
func badRecord(p *Path, un *Event, dfs *ssa.Function) bool {
	if un == nil {
		return false
	}
	x := &record{p: p, ev: un, cells: unpacked(p, un), at: memAfter(p, un)}
	for _, n := range []string{"date", "amt", "ccy", "denom", "amt2", "ccy2", "denom2", "account2"} {
		if x.cells[n] == nil {
			return false
		}
	}
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.Fn == dfs && ev.Args[0] == x.val("date") && p.Holds(cmp0("=", ev.part(0))) {
			return true
		}
	}
	amt2 := x.val("amt2")
	none, some := p.isNil(amt2), false
	for _, f := range p.Facts() {
		f.Cond.any(func(t *Term) bool {
			if t.Op == OIface && strings.HasSuffix(t.Aux, "starlark.NoneType") {
				none = none || p.Holds(mkEq(amt2, t))
				some = some || p.Not(mkEq(amt2, t))
			}
			return false
		})
	}
	empty := func(n string) bool { return p.Holds(cmp0("=", mkLen(x.val(n)))) }
	acct2 := p.Not(cmp0("=", mkLen(x.val("account2"))))
	// one of the two is missing, the other is not
	// is says whether a condition is that there is none (1) or that there is one (-1)
	strip := func(t *Term, is func(*Term) int) int {
		sign := 1
		for t.Op == ONot && len(t.Args) == 1 {
			t, sign = t.Args[0], -sign
		}
		return sign * is(t)
	}
	noAmt := func(t *Term) int {
		if t.Op == OEq && t.any(func(u *Term) bool { return u.Op == OIface && strings.HasSuffix(u.Aux, "starlark.NoneType") && t == mkEq(amt2, u) }) {
			return 1
		}
		return 0
	}
	noAcct := func(t *Term) int {
		switch n := mkLen(x.val("account2")); t {
		case cmp0("=", n):
			return 1
		case cmp0(">", n), bNot(cmp0("=", n)):
			return -1
		}
		return 0
	}
	for _, f := range p.Facts() {
		t, same := f.Cond, f.Val
		for t.Op == ONot && len(t.Args) == 1 {
			t, same = t.Args[0], !same
		}
		if t.Op != OEq || len(t.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if k := strip(t.Args[i], noAmt) * strip(t.Args[1-i], noAcct); k != 0 && same != (k == 1) {
				return true
			}
		}
	}
	switch {
	case p.Holds(cmp0("=", x.val("denom"))), p.Holds(cmp0("=", x.val("denom2"))):
		return true
	case empty("ccy"), empty("ccy2") && some:
		return true
	case none && acct2, some && empty("account2"):
		return true
	}
	// an amount that is no number, or of no kind that stands for one
	for _, n := range []string{"amt", "amt2"} {
		v := x.val(n)
		not := map[string]bool{}
		bad := false
		for _, f := range p.Facts() {
			f.Cond.any(func(t *Term) bool {
				switch {
				case t.Op == OTAssertOK && len(t.Args) == 1 && t.Args[0] == v && p.Not(t):
					not[strings.TrimPrefix(t.name(), starlarkPkg+".")] = true
				case t.Op == OCall && t.Aux == "parsenum.ok" && t.contains(v) && p.Not(t):
					bad = true
				}
				return false
			})
		}
		if bad || not["Int"] && not["Float"] && not["String"] {
			return true
		}
	}
	return false
}

func checkRecord(r *Report, cl *Term, mem *Mem, bld *Term, dflts bool) {
	f := cl.Fn
	c := shortFn(f)
	cfg := outside(relPkg(pkgOf(f)))
	cfg.Keeps = amountsKept(r)
	dfs := lookup("book.DateFromString")
	e := AnalyseFrom(f, nil, cl.Args, mem, nil, cfg)
	r.took(e, f)
	errorsHeeded(r, "record-error", f, e, nil)
	for _, p := range e.Paths {
		if p.Kind != "return" {
			r.need(p.Kind == "back", "record-error", c, p.Pos, "adding a record can panic")
			continue
		}
		var un, trans *Event
		var posts []*Event
		for _, ev := range p.Events() {
			switch {
			case ev.Kind != "call":
			case strings.HasSuffix(ev.Name, "starlark.UnpackArgs"):
				r.need(un == nil, "record-args", c, ev.Pos, "the arguments are read twice")
				un = ev
			case ev.is("book.Builder.NewTransaction"):
				r.need(trans == nil, "record-once", c, ev.Pos, "more than one transaction is made of a record")
				trans = ev
			case ev.is("book.Builder.AddPosting"):
				r.need(trans != nil, "record-once", c, ev.Pos, "a posting before its transaction")
				posts = append(posts, ev)
			case ev.Fn != nil && inRepo(ev.Fn) && lookup("book.Builder.NewTransaction") != nil && reach(ev.Fn)[lookup("book.Builder.NewTransaction")]:
				r.need(false, "undecided", c, ev.Pos, "%s is not gone into", shortName(ev.Name))
			}
		}
		if retErr(p) != -1 {
			r.need(retErr(p) == 1 && trans == nil && len(posts) == 0, "record-error", c, p.Pos, "something is entered of a record that is an error")
			if retErr(p) == 1 {
				r.need(failedCall(p) || badRecord(p, un, dfs), "record-refused", c, p.Pos, "a record is refused although nothing is known to be wrong with it")
			}
			continue
		}
		if !r.need(un != nil, "record-args", c, p.Pos, "the arguments are not read") {
			continue
		}
		x := &record{p: p, ev: un, cells: unpacked(p, un), at: memAfter(p, un)}
		missing := ""
		for _, n := range []string{"date", "desc", "amt", "ccy", "denom", "account", "amt2", "ccy2", "denom2", "account2", "caccount", "note", "lnote"} {
			if x.cells[n] == nil {
				missing += " " + n
			}
		}
		if !r.need(missing == "", "record-args", c, un.Pos, "arguments are not read:%s", missing) {
			continue
		}
		if !r.need(trans != nil, "record-once", c, p.Pos, "nothing is entered, without an error") {
			continue
		}
		// defaults
		one := func(n string) bool { return x.dflt(n) == cInt(1) }
		r.need(one("denom") && one("denom2"), "record-default", c+" denominators", un.Pos, "a denominator not given is not one")
		for _, n := range []string{"account2", "note", "lnote"} {
			d := x.dflt(n)
			r.need(d.isStrC() && d.strVal() == "", "record-default", c+" "+n, un.Pos, "%s not given is not empty: %v", n, d)
		}
		if dflts {
			for n, fl := range map[string]string{"ccy": "CCY", "account": "Account", "caccount": "CounterAccount"} {
				d := x.dflt(n)
				r.need(fieldOf(d) == fl, "record-default", c+" "+n, un.Pos, "%s not given is not the one asked for: %v", n, d)
			}
		}
		// the transaction
		var date *Term
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.Fn == dfs && ev.Args[0] == x.val("date") {
				date = ev.part(0)
			}
		}
		if a := trans.Args; r.need(len(a) == 4, "anchor", c, trans.Pos, "a transaction is made of something else than date, payee and note") {
			r.need(a[0] == bld || p.Load(a[0], a[0].Typ) == bld, "record-book", c, trans.Pos, "the record is entered somewhere else")
			r.need(date != nil && a[1] == date, "record-date", c, trans.Pos, "the date entered is not the one given: %v", a[1])
			r.need(date == nil || p.Not(cmp0("=", date)), "record-date", c, trans.Pos, "a date that cannot be read is entered")
			r.need(a[2] == x.val("desc"), "record-desc", c, trans.Pos, "the description entered is not the one given: %v", a[2])
			r.need(a[3] == x.val("note"), "record-note", c, trans.Pos, "the note entered is not the one given: %v", a[3])
		}
		for _, n := range []string{"denom", "denom2"} {
			r.need(p.Not(cmp0("=", x.val(n))) || n == "denom2" && len(posts) == 2, "record-denom", c+" "+n, p.Pos, "a denominator of zero is not an error")
		}
		// the postings
		if !r.need(len(posts) == 2 || len(posts) == 4, "record-once", c, p.Pos, "%d postings are made", len(posts)) {
			continue
		}
		empty := func(s *Term) *Term { return cmp0("=", mkLen(s)) }
		none := p.isNil(x.val("amt2"))
		for _, f := range p.Facts() {
			f.Cond.any(func(t *Term) bool {
				if t.Op == OIface && strings.HasSuffix(t.Aux, "starlark.NoneType") && p.Holds(mkEq(x.val("amt2"), t)) {
					none = true
				}
				return false
			})
		}
		if asserted(p, x.val("amt2"), "NoneType") != nil {
			none = true
		}
		if len(posts) == 2 {
			r.need(none, "record-second", c, p.Pos, "a second amount is passed over")
			r.need(p.Holds(empty(x.val("account2"))), "record-second", c, p.Pos, "a second account without an amount is not an error")
		} else {
			r.need(!none, "record-second", c, p.Pos, "a second amount is entered although there is none")
			r.need(p.Not(empty(x.val("account2"))), "record-second", c, p.Pos, "a second amount without an account is not an error")
		}
		want := []struct{ acct, ccy, amt, denom, note, leg string }{
			{"account", "ccy", "amt", "denom", "lnote", "first"}, {"caccount", "ccy", "amt", "denom", "", "first counter"},
			{"account2", "ccy2", "amt2", "denom2", "", "second"}, {"caccount", "ccy2", "amt2", "denom2", "", "second counter"}}
		for i, ev := range posts {
			w := want[i]
			k := c + " " + w.leg
			a := ev.Args
			if !r.need(len(a) == 5, "anchor", c, ev.Pos, "a posting is made of something else than account, currency, amount and note") {
				continue
			}
			r.need(a[0] == trans.Args[0] || p.Load(a[0], a[0].Typ) == bld, "record-book", c, ev.Pos, "the posting is entered somewhere else")
			r.need(a[1] == x.val(w.acct), "record-posting", k+" account", ev.Pos, "the account is not the one given as %s: %v", w.acct, a[1])
			r.need(a[2] == x.val(w.ccy), "record-posting", k+" currency", ev.Pos, "the currency is not the one given as %s: %v", w.ccy, a[2])
			r.need(p.Not(empty(x.val(w.ccy))), "record-ccy", k, ev.Pos, "a posting without a currency is not an error")
			num := loadTM(ev.Mem, p.facts, numLoc(a[3]), nil)
			if i%2 == 1 {
				num = nNeg(num)
			}
			why, ok := exactly(p, num, x.val(w.amt), x.val(w.denom))
			r.need(ok, "record-posting", k+" amount", ev.Pos, "%s", why)
			r.need(!setAfter(p, ev, numLoc(a[3])), "record-posting", k+" amount", ev.Pos, "the amount is changed after it was entered")
			if w.note == "" {
				r.need(a[4].isStrC() && a[4].strVal() == "", "record-posting", k+" note", ev.Pos, "the note is not empty: %v", a[4])
			} else {
				r.need(a[4] == x.val(w.note), "record-posting", k+" note", ev.Pos, "the note is not the one given as %s: %v", w.note, a[4])
			}
		}
	}
}
