package main

// What the report and register commands do with a book: conversion, and the order of steps.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// commandMode: the command's package and what converts is gone into, what shows is not
func commandMode(pkg string) Config {
	mapper, price := lookup("book.Book.MapAmount"), lookup("book.Book.GetPrice")
	ops, load, ccy := lookup("cmd/app.App.BookOps"), lookup("cmd/app.App.LoadBook"), lookup("book.Book.RegexCCY")
	return Config{Mode: func(f *ssa.Function) Mode {
		switch {
		case f == price:
			return MPure
		case f == ops || f == load || f == ccy:
			return MEvent
		case mapper != nil && reach(f)[mapper]:
			return MInline
		case f.Parent() != nil || inRepo(f) && !token.IsExported(f.Name()) && (mapper == nil || pkgOf(f) != pkgOf(mapper) || calledBy(mapper)[f]):
			return MInline
		case relPkg(pkgOf(f)) == pkg && !strings.HasPrefix(f.Name(), "Show"):
			return MInline
		}
		return MEvent
	}}
}

// calledBy: what the function calls by name
func calledBy(f *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, c := range callsOf(f, func(_ string, g *ssa.Function) bool { return g != nil }) {
		m[c.Common().StaticCallee()] = true
	}
	return m
}

// setting: what the path knows of a yes-or-no setting of the command
func setting(p *Path, name string) int {
	for _, f := range p.Facts() {
		if fieldOf(f.Cond) == name {
			if f.Val {
				return 1
			}
			return -1
		}
	}
	return 0
}

// settingIs: what the path knows of a text setting being s
func settingIs(p *Path, name, s string) int {
	c := cStr(s)
	for _, f := range p.Facts() {
		var v *Term
		f.Cond.any(func(x *Term) bool {
			if v == nil && fieldOf(x) == name {
				v = x
			}
			return v != nil
		})
		if v == nil {
			continue
		}
		x := cmp0("=", nSub(v, c))
		if s == "" {
			x = cmp0("=", mkLen(v))
		}
		if p.Holds(x) {
			return 1
		}
		if p.Not(x) {
			return -1
		}
	}
	return 0
}

// converted: every posting of book b is converted by a loop of p to the base currency; the last
// event before it, -1 if there is no such loop
func converted(r *Report, c string, p *Path, b *Term) (int, bool) {
	evs := p.Events()
	at := -1
	for i, ev := range evs {
		if ev.Kind != "loop" || ev.Loop == nil {
			continue
		}
		l := ev.Loop
		touches := false
		for _, bk := range l.Backs {
			for _, w := range bk.writesSince(l.IterMem) {
				if w.addr.Op == OFld && isFieldAddr(w.addr, tPosting) || w.addr.Op == ONumLoc && !isNew(w.addr.Args[0]) {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		if !r.need(at < 0, "convert-once", c, ev.Pos, "the postings are changed twice") {
			return at, false
		}
		at = i
		addr, _ := bookField(b, "post")
		post := loadTM(l.EntryMem, newFacts(), addr, fldT("book.Book", "post"))
		idx, ok := p.idxScan(l, mkLen(post))
		if !r.need(ok, "convert-every", c, ev.Pos, "not every posting of the book is converted") {
			return at, false
		}
		s := &scan{l, post, idx, nil}
		for _, bk := range l.Backs {
			date, ccy := s.field(bk, "date"), s.field(bk, "ccy")
			base := s.after(bk, "ccy")
			r.need(fieldOf(base) == "BaseCCY", "convert-ccy", c, bk.Pos, "the currency is not the base currency: %v", base)
			num := bk.Load(numLoc(s.after(bk, "val")), nil)
			old := bk.LoadAt(l.IterMem, numLoc(s.field(bk, "val")), nil)
			rate := priceOf(bk, b, date, ccy, base)
			if r.need(rate != nil, "convert-rate", c, bk.Pos, "the rate of the posting's own date and currency is not looked up") {
				v := bk.LoadAt(l.IterMem, numLoc(rate), nil)
				r.need(num == nMul(old, v), "convert-rate", c, bk.Pos, "the amount is not the amount times the rate: %v", num)
			}
			w, ok := onlyFields(bk, s, "val", "ccy")
			r.need(ok, "convert-only", c, bk.Pos, "something else changes too: %s", w)
		}
	}
	return at, true
}

// priceOf is the rate looked up for date and currency
func priceOf(b *Path, book, date, ccy, base *Term) *Term {
	f := lookup("book.Book.GetPrice")
	if f == nil {
		return nil
	}
	var t *Term
	b.anyTerm(func(x *Term) {
		if x.Op == OCall && strings.HasPrefix(x.Aux, callName(f)) && len(x.Args) == 4 && x.Args[0] == book && x.Args[1] == date && x.Args[2] == ccy && x.Args[3] == base {
			if x.Typ != nil && types.IsInterface(x.Typ) {
				return
			}
			if p, ok := typUnder(x).(*types.Pointer); ok && isBigNum(p.Elem()) {
				t = x
			}
		}
	})
	return t
}

// checkConvert: C14
func checkConvert(r *Report) {
	for _, cmd := range []struct{ fn, pkg string }{{"cmd/reports.TransactionReport.run", "cmd/reports"}, {"cmd/register.RegisterReport.run", "cmd/register"}} {
		f := r.fn(cmd.fn)
		if f == nil {
			continue
		}
		e := r.runFn(f, nil, commandMode(cmd.pkg))
		c := shortFn(f)
		n := 0
		for _, p := range e.Paths {
			if p.Kind == "back" && p.Loop != nil {
				continue
			}
			b := loadedBook(p)
			if b == nil || retErr(p) == 1 {
				continue
			}
			at, ok := converted(r, c, p, b)
			if !ok {
				continue
			}
			want := setting(p, "Convert")
			raw := settingIs(p, "Type", "Beancount") == 1
			switch {
			case want == 1 && !raw:
				if r.need(at >= 0, "convert-done", c, p.Pos, "asked to convert, but it does not") {
					n++
					r.need(settingIs(p, "BaseCCY", "") == -1, "convert-base", c, p.Pos, "converts although there may be no base currency")
				}
			default:
				r.need(at < 0, "convert-asked", c, p.Pos, "converts without being asked to")
				if want == 0 && !raw {
					r.need(settingIs(p, "Type", "Beancount") == 1, "convert-asked", c, p.Pos, "the request to convert is not looked at")
				}
			}
			if at < 0 {
				continue
			}
			// before anything is taken from the book, after it is grouped
			for i, ev := range p.Events() {
				if ev.Kind != "call" || ev.Fn == nil || !inRepo(ev.Fn) || !argsHave(ev, b) {
					continue
				}
				switch ev.Fn.Name() {
				case "SplitBy":
					r.need(i < at, "convert-order", c, ev.Pos, "grouped after converting")
				case "Transactions", "Accumulate", "ExtractRegister", "Accounts":
					r.need(i > at, "convert-order", c, ev.Pos, "taken from the book before converting")
				}
			}
		}
		r.need(n > 0, "convert-done", c, f.Pos(), "never converts")
	}
	r.atLeast("convert-rate", 4)
	r.atLeast("convert-order", 3)
}

// loadedBook is the book the path loaded, without an error
func loadedBook(p *Path) *Term {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.is("cmd/app.App.LoadBook") && p.isNil(ev.err()) {
			return ev.part(0)
		}
	}
	return nil
}

// bookCalls are the calls on the path that are given the book, in order
func bookCalls(evs []*Event, b *Term) (r []*Event) {
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Fn != nil && inRepo(ev.Fn) && argsHave(ev, b) {
			r = append(r, ev)
		}
	}
	return
}

var shownBy = map[string]string{"Text": "ShowTransactions", "Json": "PrintJSON", "HTML": "ShowHTMLTransactions", "Beancount": "ShowBeancount", "Ledger": "ShowLedger"}

// checkReportOrder: a report loads the ledger, applies the operations, groups, sums and shows
func checkReportOrder(r *Report) {
	f := r.fn("cmd/reports.TransactionReport.run")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, commandMode("cmd/reports"))
	c := shortFn(f)
	args := paramNamed(f, "[]string")
	got := map[string]int{}
	for _, p := range e.returns() {
		b := loadedBook(p)
		if retErr(p) == 1 {
			r.need(failedCall(p) || noCurrency(p), "refused", c, p.Pos, "it is refused although nothing failed and no setting is known to be missing")
			continue
		}
		if !r.need(b != nil, "report-load", c, p.Pos, "succeeds without the ledger being loaded") {
			continue
		}
		raw := settingIs(p, "Type", "Beancount")
		calls := bookCalls(p.Events(), b)
		var list *Event
		split, nops := 0, 0
		for i, ev := range calls {
			switch ev.Fn.Name() {
			case "BookOps":
				nops++
				r.need(i == 0 && argsHave(ev, args) && p.isNil(ev.err()), "report-ops", c, ev.Pos, "the operations given are not what is applied first, or their error is not heeded")
			case "SplitBy":
				split++
				r.need(list == nil && nops == 1, "report-group", c, ev.Pos, "grouped at the wrong moment")
				r.need(fieldOf(ev.Args[1]) == "Combineby", "report-group", c, ev.Pos, "grouped by something else")
			case "Transactions", "Accumulate":
				r.need(list == nil && nops == 1, "report-list", c, ev.Pos, "listed twice, or before the operations")
				list = ev
			case "GetCCYDecimals":
			default:
				r.need(!writesBook(ev.Fn), "report-ops", c+" "+ev.Fn.Name(), ev.Pos, "changes the book in a way not asked for")
			}
		}
		r.need(nops == 1, "report-ops", c, p.Pos, "the operations are applied %d times", nops)
		wantSplit := raw == -1 && settingIs(p, "Combineby", "skip") == -1
		noSplit := raw == 1 || settingIs(p, "Combineby", "skip") == 1
		r.need(split == 1 && wantSplit || split == 0 && noSplit, "report-group", c, p.Pos, "not grouped as asked")
		if !r.need(list != nil, "report-list", c, p.Pos, "shows something that is not from the book") {
			continue
		}
		if list.Fn.Name() == "Accumulate" {
			r.need(raw == -1 && setting(p, "Sum") == 1, "report-list", c, list.Pos, "sums without being asked to")
			a := list.Args
			okRe := p.isNil(a[3]) && settingIs(p, "Credit", "") == 1 || a[3].Op == OCall && strings.HasPrefix(a[3].Aux, "regexp.") && fieldOf(a[3].Args[0]) == "Credit"
			r.need(fieldOf(a[1]) == "BaseCCY" && fieldOf(a[2]) == "Divider" && okRe && fieldOf(a[4]) == "Hidden", "report-list", c, list.Pos, "sums with other settings than those given")
		} else {
			r.need(raw == 1 || setting(p, "Sum") == -1, "report-list", c, list.Pos, "does not sum although asked to")
		}
		n := 0
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Fn == nil || !inRepo(ev.Fn) || !argsUse(ev, list.Res) {
				continue
			}
			n++
			name := ev.Fn.Name()
			for typ, fn := range shownBy {
				if settingIs(p, "Type", typ) == 1 {
					r.need(fn == name, "report-show", c+" "+typ, ev.Pos, "shown by %s", name)
				}
				if fn == name {
					got[typ]++
					k := settingIs(p, "Type", typ)
					if typ == "Ledger" {
						r.need(k == 1 || settingIs(p, "Type", "Text") == -1 && settingIs(p, "Type", "Json") == -1 && settingIs(p, "Type", "HTML") == -1 && settingIs(p, "Type", "Beancount") == -1, "report-show", c+" "+typ, ev.Pos, "shown as a ledger although another form is asked for")
					} else {
						r.need(k == 1, "report-show", c+" "+typ, ev.Pos, "shown in a form not asked for")
					}
				}
			}
			if t := ev.err(); t != nil {
				r.need(p.isNil(t) || p.Results[len(p.Results)-1] == t, "report-show", c, ev.Pos, "an error while it is shown is not given")
			}
		}
		r.need(n == 1, "report-show", c, p.Pos, "shown %d times", n)
	}
	for typ := range shownBy {
		r.need(got[typ] > 0, "report-show", c+" "+typ, f.Pos(), "never shown in this form")
	}
}

// noCurrency: something is to be converted, or summed up, and no currency is given for it
func noCurrency(p *Path) bool {
	return settingIs(p, "BaseCCY", "") == 1 && (setting(p, "Convert") == 1 || setting(p, "Sum") == 1)
}

// argsUse: an argument is t, or t put in an interface
func argsUse(ev *Event, t *Term) bool {
	for _, a := range ev.Args {
		if a == t || a.Op == OIface && a.Args[0] == t {
			return true
		}
	}
	return false
}

func paramNamed(f *ssa.Function, typ string) *Term {
	for i, p := range f.Params {
		if p.Type().String() == typ {
			return param(f, i)
		}
	}
	return T.mk(OUndef, typ, nil)
}

// checkRegisterOrder: a register loads the ledger, applies the operations and shows each account
func checkRegisterOrder(r *Report) {
	f := r.fn("cmd/register.RegisterReport.run")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, commandMode("cmd/register"))
	c := shortFn(f)
	args := paramNamed(f, "[]string")
	last := nSub(mkLen(args), cInt(1))
	lastArg := func(p *Path, t *Term) bool {
		return (t.Op == OLd || t.Op == OInit) && t.Args[0] == idxAddr(args, last, elemType(args.Typ))
	}
	shown := func(p *Path, evs []*Event, b *Term, acct func(re *Term) bool) {
		n := 0
		for i, ev := range evs {
			if ev.Kind != "call" || ev.Fn == nil || ev.Fn.Name() != "ShowReport" {
				continue
			}
			n++
			var reg, flt *Event
			for j := 0; j < i; j++ {
				switch {
				case evs[j].Kind != "call" || evs[j].Fn == nil:
				case evs[j].is("book.Book.ExtractRegister"):
					reg = evs[j]
				case evs[j].is("book.RegistryReport.FilterByDate"):
					flt = evs[j]
				}
			}
			if !r.need(reg != nil && reg.Args[0] == b, "register-show", c, ev.Pos, "what is shown is not from the book") {
				continue
			}
			r.need(fieldOf(reg.Args[1]) == "BaseCCY" && fieldOf(reg.Args[3]) == "Split", "register-show", c, reg.Pos, "not extracted with the settings given")
			r.need(acct(reg.Args[2]), "register-show", c, reg.Pos, "not of the accounts asked for: %v", reg.Args[2])
			if r.need(flt != nil, "register-show", c, ev.Pos, "not restricted to the dates given") {
				r.need(fieldOf(flt.Args[1]) == "BeginDate" && fieldOf(flt.Args[2]) == "EndDate", "register-show", c, flt.Pos, "not restricted to the dates given")
			}
			set := map[string]bool{}
			for _, a := range ev.Args {
				set[fieldOf(a)] = true
			}
			r.need(set["Type"] && set["Count"] && set["Asc"], "register-show", c, ev.Pos, "not shown with the settings given")
			if t := ev.err(); t != nil {
				r.need(p.isNil(t) || p.Kind == "return" && p.Results[len(p.Results)-1] == t, "register-show", c, ev.Pos, "an error while it is shown is not given")
			}
		}
		r.need(n == 1, "register-show", c, p.Pos, "shown %d times", n)
	}
	nc, na, no := 0, 0, 0
	for _, p := range e.returns() {
		b := loadedBook(p)
		if retErr(p) == 1 {
			r.need(failedCall(p) || noCurrency(p), "refused", c, p.Pos, "it is refused although nothing failed and no setting is known to be missing")
			continue
		}
		if !r.need(b != nil, "report-load", c, p.Pos, "succeeds without the ledger being loaded") {
			continue
		}
		nops := 0
		for _, ev := range bookCalls(p.Events(), b) {
			switch ev.Fn.Name() {
			case "BookOps":
				nops++
				a := ev.Args[2]
				r.need(a.Op == OSlice && a.Args[0] == args && a.Args[1] == cInt(0) && a.Args[2] == last, "register-ops", c, ev.Pos, "the operations are not all but the last of what is given: %v", a)
				r.need(p.isNil(ev.err()), "register-ops", c, ev.Pos, "the error of an operation is not heeded")
			case "ExtractRegister", "Accounts", "GetCCYDecimals", "MapAmount":
			default:
				r.need(!writesBook(ev.Fn), "register-ops", c+" "+ev.Fn.Name(), ev.Pos, "changes the book in a way not asked for")
			}
		}
		many := p.Holds(cmp0(">", nSub(mkLen(args), cInt(1))))
		none := p.Not(cmp0(">", nSub(mkLen(args), cInt(1))))
		r.need(nops == 1 && !none || nops == 0 && none && !many, "register-ops", c, p.Pos, "the operations are applied %d times", nops)
		no += nops
		switch setting(p, "Combined") {
		case 1:
			nc++
			shown(p, p.Events(), b, func(re *Term) bool {
				return re.Op == OCall && strings.HasPrefix(re.Aux, "regexp.") && lastArg(p, re.Args[0])
			})
		case -1:
			var accts *Event
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.is("book.Book.Accounts") {
					accts = ev
				}
			}
			if !r.need(accts != nil, "register-accounts", c, p.Pos, "the accounts are not looked for") {
				continue
			}
			r.need(accts.Args[0] == b && lastArg(p, accts.Args[1]) && accts.Args[2].Op == ONot && fieldOf(accts.Args[2].Args[0]) == "All" && p.isNil(accts.err()), "register-accounts", c, accts.Pos, "not the accounts asked for: %v", accts.Args)
			s := p.scanOf(accts.part(0))
			if !r.need(s != nil && s.forward(), "register-accounts", c, p.Pos, "not every account is shown, in their order") {
				continue
			}
			na++
			for _, bk := range s.l.Backs {
				shown(bk, bk.in(s.l), b, func(re *Term) bool {
					if re.Op != OCall || !strings.HasPrefix(re.Aux, "regexp.") {
						return false
					}
					q := T.mk(OCall, "regexp.QuoteMeta", re.Args[0].Typ, s.elem(bk))
					return re.Args[0] == mkConcat(mkConcat(cStr("^"), q), cStr("$"))
				})
			}
		default:
			r.need(false, "register-accounts", c, p.Pos, "whether to combine is not looked at")
		}
	}
	r.need(nc > 0 && na > 0 && no > 0, "register-accounts", c, f.Pos(), "never shows combined, or by account, or with operations")
}
