package main

// What is printed: the text each path and iteration puts out, piece by piece.

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// outItem is a piece of text put out, or a loop that puts out more
type outItem struct {
	text *Term
	loop *Loop
	ev   *Event
}

// printed is the text an event puts out, nil if it puts out none
func printed(ev *Event) *Term {
	if ev.Kind != "call" || len(ev.Args) < 2 {
		return nil
	}
	if ev.Name == "print" {
		return ev.Args[1]
	}
	if ev.Fn != nil && ev.Fn.Name() == "Write" && len(ev.Args) == 2 || ev.Fn == nil && strings.HasSuffix(ev.Name, "Writer).Write") && len(ev.Args) == 2 {
		t := ev.Args[1]
		if t.Op == OConv && len(t.Args) == 1 && isStringT(t.Args[0].Typ) {
			return t.Args[0]
		}
		return T.mk(OCall, "bytes", types.Typ[types.String], t)
	}
	return nil
}

// puts: some iteration of the loop prints
func (l *Loop) puts() bool {
	for _, b := range l.Backs {
		for _, ev := range b.in(l) {
			if printed(ev) != nil || ev.Kind == "loop" && ev.Loop != l && ev.Loop.puts() {
				return true
			}
		}
	}
	return false
}

// output lists what events print; text that follows text is put together
func output(evs []*Event) (r []outItem) {
	for _, ev := range evs {
		if ev.Kind == "loop" {
			if ev.Loop.puts() {
				r = append(r, outItem{loop: ev.Loop, ev: ev})
			}
			continue
		}
		t := printed(ev)
		if t == nil {
			continue
		}
		if n := len(r); n > 0 && r[n-1].text != nil {
			r[n-1].text = mkConcat(r[n-1].text, t)
			continue
		}
		r = append(r, outItem{text: t, ev: ev})
	}
	return
}

// outputOf is what the path prints (in the iteration of l it is in, if there is one), made to
// alternate: text, loop, text, ..., text
func outputOf(p *Path, l *Loop) (texts []*Term, loops []*Loop) {
	evs := p.Events()
	if l != nil {
		evs = p.in(l)
	}
	texts = []*Term{cStr("")}
	for _, o := range output(evs) {
		if o.loop != nil {
			loops = append(loops, o.loop)
			texts = append(texts, cStr(""))
			continue
		}
		n := len(texts) - 1
		texts[n] = mkConcat(texts[n], o.text)
	}
	return
}

type role func(p *Path, t *Term) bool

// pieces of a text: constants and what is between them, alternating and starting and ending with a
// constant
func pieces(t *Term) (consts []string, vals []*Term) {
	parts := []*Term{t}
	if t.Op == OConcat {
		parts = t.Args
	}
	consts = []string{""}
	for _, x := range parts {
		if x.isStrC() {
			consts[len(consts)-1] += x.strVal()
			continue
		}
		vals = append(vals, x)
		consts = append(consts, "")
	}
	return
}

var reCache = map[string]*regexp.Regexp{}

func reOf(s string) *regexp.Regexp {
	if reCache[s] == nil {
		reCache[s] = regexp.MustCompile("(?s)^(?:" + s + ")$")
	}
	return reCache[s]
}

// lineIs: text is made of constants that match and values that have the roles; pat alternates
// expressions (string) and roles, starting and ending with an expression
func lineIs(p *Path, text *Term, pat ...interface{}) bool {
	consts, vals := pieces(text)
	if len(vals) != len(pat)/2 {
		return false
	}
	for i, c := range consts {
		if !reOf(pat[2*i].(string)).MatchString(c) {
			return false
		}
	}
	for i, v := range vals {
		if !pat[2*i+1].(role)(p, v) {
			return false
		}
	}
	return true
}

func is(x *Term) role {
	return func(p *Path, t *Term) bool {
		return t == x || x != nil && x.Typ != nil && isStringT(x.Typ) && p.Holds(cmpT("==", x, t, x.Typ))
	}
}

// amount: the number, or its value
func amount(val *Term) role {
	return func(p *Path, t *Term) bool {
		return t == val || t.Op == OCall && t.Aux == "num" && len(t.Args) == 1 && t.Args[0] == p.Load(numLoc(val), nil) || t == p.Load(numLoc(val), nil)
	}
}

// callOf: t is a call of the function with the arguments
func callOf(f *ssa.Function, args ...role) role {
	return func(p *Path, t *Term) bool {
		if f == nil || t.Op != OCall || t.Aux != callName(f) || len(t.Args) != len(args) {
			return false
		}
		for i, a := range args {
			if a != nil && !a(p, t.Args[i]) {
				return false
			}
		}
		return true
	}
}

// dateText: the date d, as dates are written
func dateText(d *Term) role {
	str := lookup("book.Date.String")
	return func(p *Path, t *Term) bool {
		if callOf(str, is(d))(p, t) {
			return true
		}
		return t.Op == OCall && (strings.HasPrefix(t.Aux, "fmt:%s:") || strings.HasPrefix(t.Aux, "fmt:%v:")) && len(t.Args) == 1 && t.Args[0] == d && d.Typ != nil
	}
}

// strScan: the loops on p that have gone over every character of s, and the character
func (p *Path) strScan(l *Loop, s *Term) (c *Term, ok bool) {
	for _, b := range l.Backs {
		for _, f := range b.Facts() {
			if !f.Val || f.Cond.Op != OFresh || f.Cond.name() != "rangeok" || len(f.Cond.Args) != 1 || f.Cond.Seq <= l.Start || !p.Not(f.Cond) {
				continue
			}
			x := f.Cond.Args[0]
			for x.Op == OConv && len(x.Args) == 1 {
				x = x.Args[0]
			}
			if x == s {
				return rangeRunes[f.Cond], true
			}
		}
	}
	for _, sc := range p.scans(l) {
		if x := sc.over; x.Op == OConv && len(x.Args) == 1 && x.Args[0] == s && sc.idx != nil && len(l.Backs) > 0 {
			return sc.elem(l.Backs[0]), true
		}
	}
	return nil, false
}

// allChars: every character of s is one ok says yes to
func allChars(p *Path, s *Term, ok func(b *Path, c *Term) bool) bool {
	if p.Holds(cmp0("=", mkLen(s))) {
		return true
	}
	for _, l := range p.loopsOn() {
		c, done := p.strScan(l, s)
		if !done || c == nil {
			continue
		}
		if everyIter(p, l, func(b *Path) bool { return ok(b, c) }) {
			return true
		}
	}
	return false
}

// with is the path with more known about it, nil if that cannot be
func (p *Path) with(c *Term, val bool) *Path {
	f := p.facts.clone()
	if !f.assume(c, val) || f.decide(c) == -1 && val || f.decide(c) == 1 && !val {
		return nil
	}
	q := *p
	q.facts = f
	return &q
}

// bools are the yes-or-no variables of a loop that p knows the value of after it
func (p *Path) bools(l *Loop) (r []*Term) {
	for _, v := range l.Vars {
		if v.Typ != nil && types.Identical(v.Typ.Underlying(), boolT()) && (p.Holds(v) || p.Not(v)) {
			r = append(r, v)
		}
	}
	return
}

// everyIter: on p, ok holds for every iteration of l: it does for each path, or those for which it
// may not give a variable the value it does not have on p, and no iteration takes that back
func everyIter(p *Path, l *Loop, ok func(b *Path) bool) bool {
	if len(l.Backs) == 0 {
		return false
	}
	all := true
	for _, b := range l.Backs {
		all = all && ok(b)
	}
	if all {
		return true
	}
	for _, v := range p.bools(l) {
		end := p.Holds(v)
		good := true
		for _, b := range l.Backs {
			q := b
			if nx := b.Next[v]; nx != v {
				q = b.with(nx, end)
			} else {
				q = b.with(v, end)
			}
			if q == nil {
				continue
			}
			if q = q.with(v, !end); q != nil {
				good = false // taken back
				break
			}
			q = b
			if b.Next[v] != v {
				q = b.with(b.Next[v], end)
			}
			if q = q.with(v, end); q != nil && !ok(q) {
				good = false
				break
			}
		}
		if good {
			return true
		}
	}
	return false
}

// someIter: on p, ok holds for an iteration of l, told by a variable that has changed
func someIter(p *Path, l *Loop, ok func(b *Path) bool) bool {
	for _, v := range p.bools(l) {
		end := p.Holds(v)
		if e := l.Entry[v]; !(end && e.isFalse() || !end && e.isTrue()) {
			continue
		}
		good := true
		for _, b := range l.Backs {
			q := b.with(v, !end)
			if q == nil || b.Next[v] == v {
				continue
			}
			if q = q.with(b.Next[v], end); q != nil && !ok(q) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

type outFns struct {
	note, payee, exact, ccyRune *ssa.Function
	ccyFmt                      *ssa.Function
}

// printMode: formatting that has rules of its own is not gone into, nor is what gives the book's content
func printMode() (Config, outFns) {
	o := outFns{lookup("cmd/app.LedgerNote"), lookup("cmd/app.LedgerPayee"), lookup("cmd/app.BookPrinter.FormatExact"), lookup("loader.IsCCYRune"), nil}
	str := lookup("book.Date.String")
	number := lookup("cmd/app.BookPrinter.FormatNumber")
	return Config{Mode: func(f *ssa.Function) Mode {
		switch {
		case f == o.note || f == o.payee || f == o.exact || f == o.ccyRune || f == str || f == number:
			return MPure
		case strings.HasPrefix(shortFn(f), "(*book.Book)."):
			return MEvent
		case relPkg(pkgOf(f)) == "cmd/app" && (f.Name() == "Write" || f.Name() == "Err"):
			return MEvent
		}
		return MInline
	}}, o
}

// transLoop: on p, the loop that goes over the transactions one after the other
func transLoop(p *Path, loops []*Loop, trans *Term) *scan {
	for _, l := range loops {
		if i, ok := p.idxScan(l, mkLen(trans)); ok {
			if s := (&scan{l, trans, i, nil}); s.forward() {
				return s
			}
		}
	}
	return nil
}

// plainCCY: the currency as it is in a ledger file: quoted, or made of characters of a currency only;
// the text is put between the constants before and after
func plainCCY(o outFns, ccy *Term) role {
	return func(p *Path, t *Term) bool {
		return t == ccy && allChars(p, ccy, func(b *Path, c *Term) bool {
			return b.Holds(T.mk(OCall, callName(o.ccyRune), boolT(), c))
		})
	}
}

// ccyLine: lineIs with the currency quoted or not
func ccyLine(p *Path, text *Term, before []interface{}, pre string, o outFns, ccy *Term, post string, after []interface{}) bool {
	cat := func(a, b string, x role) []interface{} {
		var r []interface{}
		r = append(r, before...)
		r = append(r, a, x, b)
		return append(r, after...)
	}
	return lineIs(p, text, cat(pre+`"`, `"`+post, is(ccy))...) || lineIs(p, text, cat(pre, post, plainCCY(o, ccy))...)
}

// checkOutput: C17
func checkOutput(r *Report) {
	for _, n := range []string{"cmd/reports.ShowLedger", "cmd/export.ShowLedger", "cmd/reports.ShowBeancount", "cmd/export.ShowBeancount"} {
		if f := r.fn(n); f != nil {
			checkLedgerText(r, f, strings.HasSuffix(n, "Beancount"), strings.Contains(n, "export"))
		}
	}
	checkTextRules(r)
	r.atLeast("output-posting", 8)
	r.atLeast("output-price", 2)
	r.atLeast("output-transaction", 4)
}

func checkLedgerText(r *Report, f *ssa.Function, bean, prices bool) {
	cfg, o := printMode()
	e := r.runFn(f, nil, cfg)
	c := shortFn(f)
	n := 0
	for _, p := range e.returns() {
		r.need(retErr(p) != 1 || failedCall(p), "refused", c, p.Pos, "it fails although nothing that it did has failed")
		if retErr(p) == 1 {
			continue
		}
		n++
		trans := param(f, 1)
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.Fn != nil && shortFn(ev.Fn) == "(*book.Book).Transactions" {
				trans = ev.part(0)
			}
		}
		texts, loops := outputOf(p, nil)
		st := transLoop(p, loops, trans)
		if !r.need(st != nil, "output-all", c, p.Pos, "not every transaction is printed, in order") {
			continue
		}
		for i, t := range texts {
			// the last text before a loop, and so on
			rx := `\s*(;[^\n]*\n\s*)*`
			ok := lineIs(p, t, rx)
			if !ok && bean && i == 0 {
				ok = lineIs(p, t, `\s*(;[^\n]*\n\s*)*option "operating_currency" "`, is(param(f, 2)), `"\n\s*(;[^\n]*\n\s*)*`)
			}
			r.need(ok, "output-else", c, p.Pos, "something else than comments is printed between the parts: %v", t)
		}
		k := 0
		for _, l := range loops {
			switch {
			case l == st.l:
				k++
				for _, b := range l.Backs {
					checkTransText(r, c, b, st, o, bean)
				}
			case prices && loopPrices(r, c, p, l, o, bean):
			case bean && k == 0: // C37
			default:
				r.need(false, "output-else", c, p.Pos, "something else is printed after the transactions")
			}
		}
		r.need(k == 1, "output-all", c, p.Pos, "the transactions are printed %d times", k)
		if prices {
			r.need(pricesPrinted(p, loops), "output-price-all", c, p.Pos, "not every price is printed")
		}
	}
	r.need(n > 0, "output-all", c, f.Pos(), "no path prints")
}

// firstField: the field of the transaction (that of any of its postings)
func firstField(b *Path, elem *Term, name string) role {
	return func(p *Path, t *Term) bool {
		if fieldOf(t) != name || !t.contains(elem) {
			return false
		}
		a := t.Args[0].Args[0] // of the posting
		return a.Op == OIdx && a.Args[0] == elem
	}
}

func checkTransText(r *Report, c string, b *Path, st *scan, o outFns, bean bool) {
	elem := st.elem(b)
	texts, loops := outputOf(b, st.l)
	if !r.need(len(loops) == 1, "output-postings", c, b.Pos, "the postings of a transaction are not printed once (%d times)", len(loops)) {
		return
	}
	var date *Term
	texts[0].any(func(x *Term) bool {
		if date == nil && fieldOf(x) == "date" && firstField(b, elem, "date")(b, x) {
			date = x
		}
		return false
	})
	if r.need(date != nil, "output-transaction", c, b.Pos, "the date of the transaction is not printed first: %v", texts[0]) {
		note := callOf(o.note, firstField(b, elem, "tnote"))
		var ok bool
		if bean {
			ok = lineIs(b, texts[0], ``, dateText(date), ` +[*!] +"`, quotedText(firstField(b, elem, "payee")), `"`, note, `\n`)
		} else {
			ok = lineIs(b, texts[0], ``, dateText(date), `[ \t]+`, callOf(o.payee, firstField(b, elem, "payee")), ``, note, `\n`)
		}
		r.need(ok, "output-transaction", c, b.Pos, "the first line of a transaction is not its date, payee and note: %v", texts[0])
	}
	r.need(lineIs(b, texts[1], `\n*`), "output-transaction", c, b.Pos, "the transaction does not end with the last posting: %v", texts[1])
	idx, ok := b.idxScan(loops[0], mkLen(elem))
	ps := &scan{loops[0], elem, idx, nil}
	if !r.need(ok && ps.forward(), "output-postings", c, b.Pos, "not every posting of the transaction is printed, in order") {
		return
	}
	for _, q := range loops[0].Backs {
		texts, loops := outputOf(q, ps.l)
		if !r.need(len(loops) == 0, "output-posting", c, q.Pos, "more than a line is printed for a posting") {
			continue
		}
		acct, ccy, val := ps.field(q, "acct"), ps.field(q, "ccy"), ps.field(q, "val")
		note := callOf(o.note, is(ps.field(q, "note")))
		amt := callOf(o.exact, nil, is(ccy), amount(val))
		var good bool
		if bean {
			good = lineIs(q, texts[0], `[ \t]+`, beanAcct(acct), `[ \t]+`, amt, `[ \t]+`, beanCCY(ccy), ``, note, `\n`)
		} else {
			good = ccyLine(q, texts[0], []interface{}{`[ \t]+`, is(acct)}, `(?:  +|\t+)`, o, ccy, `[ \t]*`, []interface{}{amt, ``, note, `\n`})
		}
		r.need(good, "output-posting", c, q.Pos, "the line of a posting is not its account, currency, amount and note: %v", texts[0])
	}
}

// beanAcct: the account, capitalised
func beanAcct(x *Term) role {
	return func(p *Path, t *Term) bool {
		return t.Op == OCall && t.Aux == "strings.Title" && len(t.Args) == 1 && is(x)(p, t.Args[0])
	}
}

// beanCCY: the currency in capitals, without its spaces
func beanCCY(x *Term) role {
	return func(p *Path, t *Term) bool {
		upper, bare := false, false
		for !is(x)(p, t) {
			switch {
			case t.Op == OCall && t.Aux == "strings.ToUpper" && len(t.Args) == 1:
				upper = true
				t = t.Args[0]
			case t.Op == OCall && t.Aux == "strings.Join" && len(t.Args) == 2 && t.Args[1].isStrC() && t.Args[1].strVal() == "" &&
				t.Args[0].Op == OCall && t.Args[0].Aux == "strings.Fields" && len(t.Args[0].Args) == 1:
				bare = true
				t = t.Args[0].Args[0]
			default:
				pairs, of := replaced1(t)
				if of == nil || len(pairs) == 0 {
					return false
				}
				for _, q := range pairs {
					if q[1] != "" || strings.TrimSpace(q[0]) != "" || q[0] == "" {
						return false
					}
					bare = bare || q[0] == " "
				}
				t = of
			}
		}
		return upper && bare
	}
}

// replaced lists the replacements made in a text, outermost first, and what they are made in
func replaced(t *Term) (pairs [][2]string, of *Term) {
	for {
		ps, x := replaced1(t)
		pairs = append(pairs, ps...)
		if x == nil || x == t {
			return pairs, x
		}
		t = x
	}
}

// replaced1: the replacements of the outermost call only
func replaced1(t *Term) (pairs [][2]string, of *Term) {
	switch {
	case t.Op == OCall && (t.Aux == "strings.ReplaceAll" && len(t.Args) == 3 || t.Aux == "strings.Replace" && len(t.Args) == 4 && t.Args[3] == cInt(-1)) && t.Args[1].isStrC() && t.Args[2].isStrC():
		return [][2]string{{t.Args[1].strVal(), t.Args[2].strVal()}}, t.Args[0]
	case t.Op == OCall && t.Aux == "(*strings.Replacer).Replace" && len(t.Args) == 2 && t.Args[0].Op == OCall && t.Args[0].Aux == "strings.NewReplacer":
		as := t.Args[0].Args
		for i := 0; i+1 < len(as); i += 2 {
			if !as[i].isStrC() || !as[i+1].isStrC() {
				return pairs, nil
			}
			pairs = append(pairs, [2]string{as[i].strVal(), as[i+1].strVal()})
		}
		return pairs, t.Args[1]
	}
	return nil, t
}

// gone: after the replacements, s is nowhere in the text, and none brings any of bad in
func gone(pairs [][2]string, s string, bad string) bool {
	ok := false
	for _, p := range pairs {
		if p[0] == s && !strings.Contains(p[1], s) {
			ok = true
		}
		if strings.ContainsAny(p[1], bad) {
			return false
		}
	}
	return ok
}

// quotedText: x on one line, with quotes and backslashes escaped
func quotedText(x role) role {
	return func(p *Path, t *Term) bool {
		pairs, of := replaced(t)
		if of == nil || !x(p, of) {
			return false
		}
		has := func(a string, b ...string) bool {
			for _, q := range pairs {
				if q[0] == a {
					for _, w := range b {
						if q[1] == w {
							return true
						}
					}
				}
			}
			return false
		}
		// escaping one after the other would escape the escapes
		if _, one := replaced(of); one != of {
			return false
		}
		single := t.Op == OCall && t.Aux == "(*strings.Replacer).Replace" && t.Args[1] == of
		order := single
		if !single {
			bs, q := -1, -1
			for i, x := range pairs {
				if x[0] == `\` {
					bs = i
				}
				if x[0] == `"` {
					q = i
				}
			}
			order = bs > q // innermost last
		}
		return order && has(`\`, `\\`) && has(`"`, `\"`) && gone(pairs, "\n", "\n\r") && gone(pairs, "\r", "\n\r")
	}
}

// loopPrices: l goes over the pairs there are prices for and prints each price
func loopPrices(r *Report, c string, p *Path, l *Loop, o outFns, bean bool) bool {
	pairs := pairsOf(p)
	if pairs == nil {
		return false
	}
	idx, ok := p.idxScan(l, mkLen(pairs))
	if !ok {
		return false
	}
	s := &scan{l, pairs, idx, nil}
	for _, b := range l.Backs {
		unit, ccy := s.field(b, "Unit"), s.field(b, "CCY")
		texts, loops := outputOf(b, l)
		for _, t := range texts {
			r.need(lineIs(b, t, `\s*`), "output-else", c, b.Pos, "something else is printed with the prices: %v", t)
		}
		var list *Term
		for _, ev := range b.in(l) {
			if ev.Kind == "call" && ev.Fn != nil && shortFn(ev.Fn) == "(*book.Book).GetPriceList" && len(ev.Args) == 3 && ev.Args[1] == unit && ev.Args[2] == ccy {
				list = ev.part(0)
			}
		}
		if !r.need(list != nil && len(loops) == 1, "output-price-all", c, b.Pos, "the prices of a pair are not gone over") {
			continue
		}
		i, ok := b.idxScan(loops[0], mkLen(list))
		if !r.need(ok, "output-price-all", c, b.Pos, "not every price of a pair is printed") {
			continue
		}
		ps := &scan{loops[0], list, i, nil}
		for _, q := range loops[0].Backs {
			texts, inner := outputOf(q, ps.l)
			amt := callOf(o.exact, nil, is(ccy), amount(ps.field(q, "val")))
			date := dateText(ps.field(q, "date"))
			var good bool
			if bean {
				good = lineIs(q, texts[0], `P `, date, ` +00:00:00 +`, beanCCY(unit), ` +`, amt, ` +`, beanCCY(ccy), ` *\n`) ||
					lineIs(q, texts[0], ``, date, ` +price +`, beanCCY(unit), ` +`, amt, ` +`, beanCCY(ccy), ` *\n`)
			} else {
				for _, u := range []struct {
					q string
					r role
				}{{`"`, is(unit)}, {``, plainCCY(o, unit)}} {
					if ccyLine(q, texts[0], []interface{}{`P `, date, `[ \t]+00:00:00[ \t]+` + u.q, u.r}, u.q+`[ \t]+`, o, ccy, `[ \t]*`, []interface{}{amt, `[ \t]*\n`}) {
						good = true
					}
				}
			}
			r.need(good && len(inner) == 0, "output-price", c, q.Pos, "the line of a price is not its date, unit, rate and currency: %v", texts[0])
		}
	}
	return true
}

func pairsOf(p *Path) *Term {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.Fn != nil && shortFn(ev.Fn) == "(*book.Book).GetPricePairs" {
			return ev.part(0)
		}
	}
	return nil
}

func pricesPrinted(p *Path, loops []*Loop) bool {
	pairs := pairsOf(p)
	if pairs == nil {
		return false
	}
	for _, l := range loops {
		if _, ok := p.idxScan(l, mkLen(pairs)); ok {
			return true
		}
	}
	return false
}

// hasNot: on p, the text does not contain s
func hasNot(p *Path, t *Term, s string) bool {
	for _, f := range p.Facts() {
		c := f.Cond
		if !f.Val && c.Op == OCall && len(c.Args) == 2 && c.Args[0] == t {
			switch {
			case c.Aux == "strings.Contains" && c.Args[1].isStrC() && c.Args[1].strVal() == s:
				return true
			case c.Aux == "strings.ContainsAny" && c.Args[1].isStrC() && strings.Contains(c.Args[1].strVal(), s):
				return true
			case c.Aux == "strings.ContainsRune" && len(s) == 1:
				if n, ok := c.Args[1].intVal(); ok && n == int64(s[0]) {
					return true
				}
			}
		}
	}
	for _, n := range []string{"strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.Count"} {
		a := cStr(s)
		if n == "strings.IndexByte" || n == "strings.IndexRune" {
			a = cInt(int64(s[0]))
		}
		x := T.mk(OCall, n, types.Typ[types.Int], t, a)
		if n == "strings.Count" && p.Holds(cmp0("=", x)) || n != "strings.Count" && p.Holds(cmp0("<", x)) {
			return true
		}
	}
	return false
}

// startsNot: on p, the text does not start with s
func startsNot(p *Path, t *Term, s string) bool {
	if hasNot(p, t, s) || p.Holds(cmp0("=", mkLen(t))) {
		return true
	}
	if p.Not(T.mk(OCall, "strings.HasPrefix", boolT(), t, cStr(s))) {
		return true
	}
	for _, f := range p.Facts() {
		c := f.Cond
		if !f.Val && c.Op == OCall && c.Aux == "strings.HasPrefix" && c.Args[0] == t && c.Args[1].isStrC() && c.Args[1].strVal() == s {
			return true
		}
		// the first character compared
		if len(s) == 1 {
			var at *Term
			c.any(func(x *Term) bool {
				if (x.Op == OIdx || x.Op == OLd || x.Op == OInit || x.Op == OCall) && x.contains(t) && x.Typ != nil && isIntT(x.Typ) {
					at = x
				}
				return at != nil
			})
			if at != nil && p.Not(cmp0("=", nSub(at, cInt(int64(s[0]))))) {
				return true
			}
		}
	}
	return false
}

// oneLine: t is x with the ends of lines replaced
func oneLine(p *Path, t *Term, x *Term) ([][2]string, bool) {
	pairs, of := replaced(t)
	return pairs, of == x && gone(pairs, "\n", "\n\r") && gone(pairs, "\r", "\n\r")
}

// checkTextRules: how payees, notes and amounts are written
func checkTextRules(r *Report) {
	if f := r.fn("cmd/app.LedgerPayee"); f != nil {
		c := shortFn(f)
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			consts, vals := pieces(p.Results[0])
			if !r.need(len(vals) == 1, "output-payee", c, p.Pos, "the payee is not the one text of the result: %v", p.Results[0]) {
				continue
			}
			pairs, ok := oneLine(p, vals[0], param(f, 0))
			r.need(ok, "output-payee", c, p.Pos, "the payee may be more than one line: %v", vals[0])
			switch {
			case consts[0] == `"` && consts[1] == `"`:
				r.need(gone(pairs, `"`, `"`), "output-payee", c, p.Pos, "the payee is quoted with quotes in it: %v", vals[0])
			case consts[0] == "" && consts[1] == "":
				x := vals[0]
				own := func(t string, not func(p *Path, x *Term, s string) bool) bool {
					return not(p, x, t) || not(p, param(f, 0), t) && !brings(pairs, t)
				}
				r.need(own(";", hasNot), "output-payee", c, p.Pos, "a payee with a semicolon is not quoted")
				r.need(own("*", startsNot), "output-payee", c, p.Pos, "a payee that starts with an asterisk is not quoted")
				r.need(own(`"`, startsNot), "output-payee", c, p.Pos, "a payee that starts with a quote is not quoted")
			default:
				r.need(false, "output-payee", c, p.Pos, "something is added to the payee: %q %q", consts[0], consts[1])
			}
		}
		r.atLeast("output-payee", 4)
	}
	if f := r.fn("cmd/app.LedgerNote"); f != nil {
		c := shortFn(f)
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			t := p.Results[0]
			if t.isStrC() && t.strVal() == "" || t == param(f, 0) && p.Holds(cmp0("=", mkLen(t))) {
				r.need(p.Holds(cmp0("=", mkLen(param(f, 0)))), "output-note", c, p.Pos, "a note is left out")
				continue
			}
			consts, vals := pieces(t)
			ok := len(vals) == 1 && reOf(`[ \t]+;[ \t]*`).MatchString(consts[0]) && consts[1] == ""
			if ok {
				_, ok = oneLine(p, vals[0], param(f, 0))
			}
			r.need(ok, "output-note", c, p.Pos, "the note is not a comment on one line: %v", t)
		}
		r.atLeast("output-note", 2)
	}
	if f := r.fn("cmd/app.BookPrinter.FormatExact"); f != nil {
		c := shortFn(f)
		e := r.runFn(f, nil, asEvents("book.GetDecimals"))
		amt := param(f, 2)
		for _, p := range e.returns() {
			t := p.Results[0]
			if !r.need(t.Op == OCall && t.Aux == "(*big.Rat).FloatString" && len(t.Args) == 2, "output-exact", c, p.Pos, "the amount is not written in decimals, in no locale: %v", t) {
				continue
			}
			num := p.LoadAt(nil, numLoc(amt), nil)
			r.need(t.Args[0].contains(num) || t.Args[0] == amt || t.Args[0].contains(amt), "output-exact", c, p.Pos, "not the amount is written: %v", t.Args[0])
			d := t.Args[1]
			found := false
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.is("book.GetDecimals") && len(ev.Args) == 1 && ev.Args[0] == amt {
					n, exact := ev.part(0), ev.part(1)
					found = p.Not(exact) || p.Holds(bNot(cmp0("<", nSub(d, n))))
				}
			}
			r.need(found, "output-exact", c, p.Pos, "fewer decimals may be written than the amount has: %v", d)
		}
		r.atLeast("output-exact", 4)
	}
	if f := r.fn("loader.IsCCYRune"); f != nil {
		c := shortFn(f)
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			x := p.Results[0]
			if x.isFalse() {
				continue
			}
			ch := param(f, 0)
			for _, bad := range []int64{';', '"' + 0, '\n', '-', '.', '@'} {
				if bad == '"' {
					continue
				}
				r.need(p.Not(cmp0("=", nSub(ch, cInt(bad)))) || impliesNot(p, x, ch, bad), "output-ccy", c, p.Pos, "the character %q may be in a currency that isn't quoted", rune(bad))
			}
		}
		r.atLeast("output-ccy", 5)
	}
}

func brings(pairs [][2]string, s string) bool {
	for _, p := range pairs {
		if strings.Contains(p[1], s) {
			return true
		}
	}
	return false
}

func impliesNot(p *Path, x, ch *Term, bad int64) bool {
	f := p.facts.clone()
	if !f.assume(x, true) {
		return true
	}
	return f.decide(cmp0("=", nSub(ch, cInt(bad)))) == -1
}
