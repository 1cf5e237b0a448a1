package main

// Reading of ledger files: lines, their parts, amounts, includes and aliases.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tReader = "loader.basicReader"

// the routines that read one part of a line each; what they do is checked on its own
var partReaders = []string{"next", "consumeWS", "parseAccount", "parseToEOL", "skipLine", "parseIdentifier",
	"parseDate", "parseTime", "parsePayee", "parseNote", "parseAmt", "parseCCY"}

// lexing keeps the named routines of the reader as events that may panic
func lexing(names ...string) Config {
	ev := map[*ssa.Function]bool{}
	for _, n := range names {
		if f := lookup(tReader + "." + n); f != nil {
			ev[f] = true
		}
	}
	pure := lookup("loader.IsCCYRune")
	return Config{
		Mode: func(f *ssa.Function) Mode {
			if ev[f] {
				return MEvent
			}
			if f == pure {
				return MPure
			}
			return MInline
		},
	}
}

// chAt is the rune under the reader when the event happens
func chAt(ev *Event) *Term {
	return loadTM(ev.Mem, nil, fld(ev.Args[0], tReader, "ch"), fldT(tReader, "ch"))
}

// reads says which routine of the reader the event is a call of
func reads(ev *Event) string {
	if ev.Kind != "call" || ev.Fn == nil || ev.Defer {
		return ""
	}
	k := fnKey(ev.Fn)
	if strings.Contains(k, tReader) {
		return k[strings.LastIndexByte(k, '.')+1:]
	}
	return ""
}

func isRune(p *Path, ch *Term, r rune) bool { return p.Holds(cmp0("=", nSub(ch, cInt(int64(r))))) }
func notRune(p *Path, ch *Term, r rune) bool {
	return p.Not(cmp0("=", nSub(ch, cInt(int64(r)))))
}

func oneOf(p *Path, ch *Term, rs ...rune) bool {
	for _, r := range rs {
		if isRune(p, ch, r) {
			return true
		}
	}
	return false
}

// fileReading analyses the reading of a ledger file
type fileReading struct {
	r       *Report
	f       *ssa.Function
	e       *Engine
	ls      []*Loop // over the lines of the file, one for each way to get there
	loader  *Term
	name    *Term
	alias   *Term
	parents *Term
	rr      map[*Loop]*Term // the reader
}

func readFile(r *Report) *fileReading {
	f := r.fn("loader.parseFileLocal")
	ok := f != nil
	for _, n := range partReaders {
		ok = r.fn(tReader+"."+n) != nil && ok
	}
	r.fn("loader.IsCCYRune")
	if !ok {
		return nil
	}
	c := lexing(partReaders...)
	c.Panics = func(*ssa.Function) bool { return true }
	c.MaxPaths = 200000
	x := &fileReading{r: r, f: f}
	x.e = r.runFn(f, nil, c)
	for i, p := range f.Params {
		t := param(f, i)
		switch u := p.Type().Underlying().(type) {
		case *types.Interface:
			x.loader = t
		case *types.Basic:
			x.name = t
		case *types.Map:
			x.alias = t
		case *types.Slice:
			if isStringT(u.Elem()) {
				x.parents = t
			}
		}
	}
	if !r.need(x.loader != nil && x.name != nil && x.alias != nil && x.parents != nil, "anchor", shortFn(f), f.Pos(), "what a file is read with is not as expected: the loader, the name, the aliases and the files being read") {
		return nil
	}
	x.rr = map[*Loop]*Term{}
	var first *Loop
	for _, l := range x.e.Loops {
		for _, b := range l.Backs {
			for _, ev := range b.in(l) {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".NewTransaction") && (first == nil || l.Start < first.Start) {
					first = l
				}
			}
		}
	}
	if !r.need(first != nil, "anchor", shortFn(f), f.Pos(), "no loop over the lines of the file") {
		return nil
	}
	for _, l := range x.e.Loops {
		if l.Fn == first.Fn && l.Header == first.Header {
			x.ls = append(x.ls, l)
		}
	}
	for _, l := range x.ls {
		for _, b := range l.Backs {
			for _, ev := range b.in(l) {
				if reads(ev) != "" {
					r.need(x.rr[l] == nil || x.rr[l] == ev.Args[0], "anchor", shortFn(f), ev.Pos, "more than one reader is used")
					x.rr[l] = ev.Args[0]
				}
			}
		}
		if !r.need(x.rr[l] != nil, "anchor", shortFn(f), f.Pos(), "no reader") {
			return nil
		}
	}
	return x
}

// line is what the iteration over one line of the file does
type line struct {
	l     *Loop
	b     *Path
	ws    *Term    // whitespace at its start
	reads []*Event // but for whitespace and single runes
	runes []*Event
	enter []*Event // what is entered, by calls of the loader
	elide *Loop    // the loop that makes the postings that are not written
	bals  *Term
	incl  *Event
	alias []*Mem
}

func (x *fileReading) lines() (r []*line) {
	var bs []*Path
	for _, l := range x.ls {
		bs = append(bs, l.Backs...)
	}
	for _, b := range bs {
		n := &line{b: b, l: b.Loop}
		for _, ev := range b.in(b.Loop) {
			switch k := reads(ev); {
			case k == "consumeWS":
				if n.ws == nil && len(n.reads)+len(n.runes) == 0 {
					n.ws = ev.Res
				}
			case k == "next":
				n.runes = append(n.runes, ev)
			case k != "":
				n.reads = append(n.reads, ev)
			case ev.Kind == "call" && ev.Fn == x.f:
				n.incl = ev
			case ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == x.loader && strings.Contains(ev.Name, ").") && ev.Fn == nil:
				if strings.HasSuffix(ev.Name, ".GetLastCCYBals") {
					n.bals = ev.Res
				} else {
					n.enter = append(n.enter, ev)
				}
			}
		}
		for _, l := range b.innerLoops(b.Loop) {
			if n.bals != nil {
				if _, ok := b.mapScan(l, n.bals); ok {
					n.elide = l
				}
			}
		}
		for _, w := range b.writesSince(b.Loop.IterMem) {
			if w.addr.Op == OMapEnt {
				n.alias = append(n.alias, w)
			}
		}
		r = append(r, n)
	}
	return
}

func (n *line) kind() string {
	k := ""
	add := func(ok bool, s string) {
		if ok {
			if k != "" {
				k += "+"
			}
			k += s
		}
	}
	for _, ev := range n.enter {
		add(true, ev.Name[strings.LastIndexByte(ev.Name, '.')+1:])
	}
	add(n.elide != nil, "elided")
	add(n.incl != nil, "include")
	add(len(n.alias) > 0, "alias")
	return k
}

func (n *line) readNames() string {
	var s []string
	for _, ev := range n.reads {
		s = append(s, reads(ev))
	}
	return strings.Join(s, " ")
}

// checkLines: C03, no line is passed over and no failure to read is taken for the end
func checkLines(r *Report) {
	x := readFile(r)
	if x == nil {
		return
	}
	f, c := x.f, shortFn(x.f)
	// every line is entered, skipped for what it starts with, or stops the reading
	kinds := map[string]int{}
	for _, n := range x.lines() {
		k := n.kind()
		kinds[k]++
		b := n.b
		ws0 := n.ws != nil && b.Holds(cmp0("=", n.ws))
		if k == "" {
			ok := len(n.reads) == 1 && len(n.runes) == 0 && (reads(n.reads[0]) == "skipLine" || reads(n.reads[0]) == "parseToEOL")
			if r.need(ok, "line-skipped", c, b.Pos, "a line is passed over in parts: %s", n.readNames()) {
				ch := chAt(n.reads[0])
				r.need(oneOf(b, ch, ';', '\n', -1) || ws0 && oneOf(b, ch, '=', 'D'), "line-skipped", c, n.reads[0].Pos, "a line is passed over although it may be neither empty nor a comment")
			}
			continue
		}
		r.need(!strings.Contains(k, "+"), "line-once", c, b.Pos, "a line is entered more than once: %s", k)
		// to the end of the line and no further
		var last *Event
		for _, ev := range b.in(n.l) {
			if reads(ev) != "" && reads(ev) != "consumeWS" {
				last = ev
			}
		}
		if !r.need(last != nil, "line-end", c+" "+k, b.Pos, "nothing is read") {
			continue
		}
		ok := reads(last) == "parseToEOL" || reads(last) == "skipLine" || reads(last) == "next" && isRune(b, chAt(last), '\n')
		if !ok && reads(last) != "next" {
			ok = isRune(b, b.Load(fld(x.rr[n.l], tReader, "ch"), fldT(tReader, "ch")), -1)
		}
		r.need(ok, "line-end", c+" "+k, last.Pos, "what is left on a line after it was read is not an error")
		for i, ev := range b.in(n.l) {
			if reads(ev) == "next" && ev != last {
				r.need(oneOf(b, chAt(ev), '*', '-', '@', '=', 'P'), "line-rune", c+" "+k, ev.Pos, "a character is passed over (%d)", i)
			}
			if reads(ev) == "parseToEOL" && k != "include" && k != "alias" {
				r.need(isRune(b, chAt(ev), '='), "line-rune", c+" "+k, ev.Pos, "the rest of a line is passed over")
			}
			if reads(ev) == "skipLine" {
				r.need(false, "line-rune", c+" "+k, ev.Pos, "the rest of a line is passed over")
			}
		}
		for _, l := range b.innerLoops(n.l) {
			for _, bk := range l.Backs {
				for _, ev := range bk.in(l) {
					r.need(reads(ev) == "", "line-rune", c+" "+k, ev.Pos, "characters are passed over")
				}
			}
		}
		if k == "AddPosting" || k == "elided" {
			r.need(n.ws != nil && b.Not(cmp0("=", n.ws)), "line-kind", c+" "+k, b.Pos, "a line that is not indented is taken for a posting")
		} else {
			r.need(ws0, "line-kind", c+" "+k, b.Pos, "an indented line is not taken for a posting")
		}
	}
	for _, k := range []string{"NewTransaction", "AddPosting", "AddPrice", "include", "alias", "elided"} {
		r.need(kinds[k] > 0, "line-kinds", c+" "+k, f.Pos(), "no line is read as %s", k)
	}
	// success only at the end of the file
	for _, p := range x.e.Paths {
		switch p.Kind {
		case "panic":
			r.need(false, "load-error", c, p.Pos, "a failure to read ends the program")
		case "return":
			if retErr(p) == 1 {
				continue
			}
			left := false
			var ch *Term
			for _, ev := range p.Events() {
				if ev.Kind == "endloop" && x.rr[ev.Loop] != nil {
					left = true
					ch = loadTM(ev.Mem, nil, fld(x.rr[ev.Loop], tReader, "ch"), fldT(tReader, "ch"))
				}
			}
			r.need(retErr(p) == -1 && left && isRune(p, ch, -1), "load-error", c, p.Pos, "the reading may succeed before the end of the file")
		}
	}
	errorsHeeded(r, "load-error", f, x.e, func(ev *Event) bool { return strings.HasSuffix(ev.Name, ".Close") })
	// what is read is the file asked for
	for _, l := range x.ls {
		b := l.Backs[0]
		src := loadTM(l.IterMem, nil, fld(x.rr[l], tReader, "reader"), fldT(tReader, "reader"))
		ok := false
		for _, ev := range b.calls(named("bufio.NewReader")) {
			for _, o := range b.calls(named("os.Open")) {
				ok = ok || src == ev.Res && ev.Args[0].contains(o.part(0)) && o.Args[0] == x.name
			}
		}
		r.need(ok, "load-file", c, f.Pos(), "the lines are not read from the file asked for: %v", src)
	}
	checkNext(r)
	checkLoaders(r)
}

// checkNext: the next rune is the one read, and the end only at the end
func checkNext(r *Report) {
	f := r.fn(tReader + ".next")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	c := shortFn(f)
	rr := param(f, 0)
	for _, p := range e.returns() {
		evs := p.calls(named("(*bufio.Reader).ReadRune"))
		if !r.need(len(evs) == 1, "rune", c, p.Pos, "not one character is read at a time") {
			continue
		}
		ev := evs[0]
		src := loadTM(nil, nil, fld(rr, tReader, "reader"), fldT(tReader, "reader"))
		r.need(ev.Args[0] == src, "rune", c, ev.Pos, "it is not read from the file")
		ch := p.Load(fld(rr, tReader, "ch"), fldT(tReader, "ch"))
		err := ev.part(2)
		switch {
		case p.isNil(err):
			r.need(ch == ev.part(0), "rune", c, p.Pos, "the character noted is not the one read")
		default:
			r.need(ch == cInt(-1), "rune", c, p.Pos, "the end of the file is not noted")
			eof := false
			for _, fc := range p.Facts() {
				if fc.Val && fc.Cond.Op == OEq && fc.Cond.contains(err) && strings.Contains(fc.Cond.String(), "io.EOF") {
					eof = true
				}
				if fc.Val && fc.Cond.Op == OCall && fc.Cond.Aux == "errors.Is" && fc.Cond.Args[0] == err && strings.Contains(fc.Cond.Args[1].String(), "io.EOF") {
					eof = true
				}
			}
			r.need(eof, "rune-error", c, p.Pos, "a failure to read may be taken for the end of the file")
		}
	}
	r.need(len(e.panics()) > 0, "rune-error", c, f.Pos(), "a failure to read is not reported")
}

// checkLoaders: everything that reads a ledger heeds the error
func checkLoaders(r *Report) {
	pf := r.fn("loader.ParseFile")
	if pf == nil {
		return
	}
	e := r.runFn(pf, nil, asEvents("loader.parseFileLocal"))
	for _, p := range e.returns() {
		evs := p.calls(func(ev *Event) bool { return ev.is("loader.parseFileLocal") })
		ok := len(evs) == 1 && len(p.Results) == 1 && (p.Results[0] == evs[0].Res || p.isNil(evs[0].Res) == p.isNil(p.Results[0]) && p.notNil(evs[0].Res) == p.notNil(p.Results[0]))
		r.need(ok, "load-error", shortFn(pf), p.Pos, "the error of reading the file is not the one returned")
		if len(evs) == 1 {
			for i, a := range evs[0].Args {
				if i < 2 {
					r.need(a == param(pf, i), "load-file", shortFn(pf), evs[0].Pos, "it is not the file asked for that is read")
				} else {
					r.need(a.isNil(), "load-file", shortFn(pf), evs[0].Pos, "the file does not start without aliases")
				}
			}
		}
	}
	n := 0
	for _, g := range callersOf(pf) {
		if topFn(g) != g || !inRepo(g) {
			continue
		}
		n++
		e := r.runFn(g, nil, asEvents("loader.ParseFile"))
		errorsHeeded(r, "load-error", g, e, func(ev *Event) bool { return !ev.is("loader.ParseFile") })
	}
	r.need(n > 0, "load-error", "callers", pf.Pos(), "nothing reads a ledger")
}

func init() {
	extraCfg["lexing"] = func() Config {
		c := lexing(partReaders...)
		c.Panics = func(*ssa.Function) bool { return true }
		return c
	}
}

func (n *line) read(name string, i int) *Event {
	for _, ev := range n.reads {
		if reads(ev) == name {
			if i == 0 {
				return ev
			}
			i--
		}
	}
	return nil
}

// res is what the i-th reading of that part gave
func (n *line) res(name string, i int) *Term {
	if ev := n.read(name, i); ev != nil {
		return ev.Res
	}
	return nil
}

// order: the parts were read in this order; "a|b" is a and b in either
func (n *line) order(parts ...string) bool {
	var got []string
	for _, ev := range n.reads {
		got = append(got, reads(ev))
	}
	i := 0
	for _, p := range parts {
		opt := strings.HasPrefix(p, "?")
		p = strings.TrimPrefix(p, "?")
		alt := strings.Split(p, "|")
		if len(alt) == 1 {
			if i < len(got) && got[i] == p {
				i++
				continue
			}
		} else if i+1 < len(got) && (got[i] == alt[0] && got[i+1] == alt[1] || got[i] == alt[1] && got[i+1] == alt[0]) {
			i += 2
			continue
		}
		if !opt {
			return false
		}
	}
	return i == len(got)
}

// minus: was a minus sign read before the first amount or currency of the posting?
func (n *line) minus() (neg bool, odd bool) {
	a := n.read("parseAccount", 0)
	seen := false
	for _, ev := range n.b.in(n.l) {
		if ev == a {
			seen = true
		}
		if reads(ev) == "next" && isRune(n.b, chAt(ev), '-') {
			if !seen || neg {
				odd = true
			}
			neg = true
		}
		if k := reads(ev); k == "parseAmt" || k == "parseCCY" {
			break
		}
	}
	return
}

// valOf is the value of a number, as it is when the event happens
func valOf(m *Mem, ptr *Term) *Term { return loadMem(m, nil, numLoc(ptr), nil) }

// account: the account a posting is entered to is the one read, or what it stands for
func (x *fileReading) account(n *line, a *Term) (bool, string) {
	read := n.res("parseAccount", 0)
	am := x.aliases(n.l)
	mt, et := mapOf(am)
	if mt == nil {
		return false, "the aliases are not known"
	}
	has := loadTM(n.l.IterMem, nil, T.mk(OMapHas, "", nil, am, read), boolT())
	to := loadTM(n.l.IterMem, nil, mapEnt(am, read, mt), et)
	switch {
	case n.b.Not(has):
		return a == read, "the account is not the one read"
	case a == to && (n.b.Holds(has) || n.b.Not(cmpT("==", to, cStr(""), et))):
		return true, ""
	case a == read && n.b.Holds(cmpT("==", to, cStr(""), et)):
		return true, ""
	}
	return false, "the account is not what the one read stands for"
}

// aliases is the map of aliases in force: the one the alias lines write
func (x *fileReading) aliases(l *Loop) *Term {
	for _, b := range l.Backs {
		for _, w := range b.writesSince(l.IterMem) {
			if w.addr.Op == OMapEnt && b.Loop == l {
				return w.addr.Args[0]
			}
		}
	}
	return nil
}

// checkParts: C05, each part of a line is entered as what it is
func checkParts(r *Report) {
	x := readFile(r)
	if x == nil {
		return
	}
	c := shortFn(x.f)
	count := map[string]int{}
	for _, n := range x.lines() {
		b, k := n.b, n.kind()
		count[k]++
		what := c + " " + k
		is := func(got, want *Term, part string) {
			r.need(got != nil && got == want, "part", what+" "+part, b.Pos, "the %s entered is not the one read: %v", part, got)
		}
		switch k {
		case "NewTransaction":
			ev := n.enter[0]
			r.need(n.order("parseDate", "parsePayee", "parseNote"), "parts", what, ev.Pos, "a transaction is not read as date, payee and note: %s", n.readNames())
			is(ev.Args[1], n.res("parseDate", 0), "date")
			is(ev.Args[2], n.res("parsePayee", 0), "payee")
			is(ev.Args[3], n.res("parseNote", 0), "note")
			star := false
			for _, nx := range n.runes {
				star = star || isRune(b, chAt(nx), '*')
				r.need(oneOf(b, chAt(nx), '*', '\n'), "parts", what, nx.Pos, "a character of a transaction is passed over")
			}
			if payee := n.read("parsePayee", 0); payee != nil && !star {
				r.need(notRune(b, chAt(payee), '*'), "parts", what+" mark", payee.Pos, "the mark before the payee is taken for a part of it")
			}
		case "AddPrice":
			ev := n.enter[0]
			r.need(n.order("parseDate", "?parseTime", "parseCCY", "parseCCY|parseAmt", "?parseNote"), "parts", what, ev.Pos, "a price is not read as date, time, unit, price and currency: %s", n.readNames())
			is(ev.Args[1], n.res("parseDate", 0), "date")
			is(ev.Args[2], n.res("parseCCY", 0), "unit")
			is(ev.Args[3], n.res("parseCCY", 1), "currency")
			is(ev.Args[4], n.res("parseAmt", 0), "price")
			r.need(plain(n, ev, ev.Args[4]), "part", what+" price", ev.Pos, "the price entered is not the one read")
			for _, nx := range n.runes {
				r.need(oneOf(b, chAt(nx), 'P', '\n'), "parts", what, nx.Pos, "a character of a price is passed over")
			}
		case "AddPosting", "elided":
			ok := n.order("parseAccount", "parseCCY|parseAmt", "?parseCCY|parseAmt", "?parseToEOL", "parseNote")
			r.need(ok, "parts", what, b.Pos, "a posting is not read as account, amount, price and note: %s", n.readNames())
			neg, odd := n.minus()
			r.need(!odd, "parts", what, b.Pos, "a minus sign is passed over")
			if n.read("parseAmt", 1) != nil {
				at := false
				for _, nx := range n.runes {
					at = at || isRune(b, chAt(nx), '@')
				}
				r.need(at, "parts", what, b.Pos, "a second amount is read that is not a price")
			}
			if k == "AddPosting" {
				ev := n.enter[0]
				ok, why := x.account(n, ev.Args[1])
				r.need(ok, "part", what+" account", ev.Pos, "%s", why)
				is(ev.Args[2], n.res("parseCCY", 0), "currency")
				is(ev.Args[4], n.res("parseNote", 0), "note")
				n.posted(r, what, ev, neg)
				continue
			}
			x.elided(r, n, what)
		}
	}
	for _, k := range []string{"NewTransaction", "AddPosting", "AddPrice", "elided"} {
		r.need(count[k] > 0, "parts", c+" "+k, x.f.Pos(), "no line is read as %s", k)
	}
	checkTexts(r)
	checkDateRead(r)
}

// posted: the amount of a posting is the one read, with the sign before it
func (n *line) posted(r *Report, what string, ev *Event, neg bool) {
	amt := n.read("parseAmt", 0)
	if r.need(amt != nil, "part", what+" amount", ev.Pos, "no amount is read") {
		v, want := valOf(ev.Mem, ev.Args[3]), n.was(amt)
		if neg {
			want = nSub(cInt(0), want)
		}
		r.need(v == want, "part", what+" amount", ev.Pos, "the amount entered is not the one read: %v", v)
	}
}

// was is the value of an amount when it was read
func (n *line) was(amt *Event) *Term {
	evs := n.b.in(n.l)
	for i, ev := range evs {
		if ev == amt {
			// the memory when the next thing happens is the one it left, but for a sign
			for _, nx := range evs[i+1:] {
				if nx.Mem != nil {
					for m := nx.Mem; m != nil && m.id > amt.Res.Seq; m = m.prev {
						if m.kind == mWrite && m.addr == numLoc(amt.Res) {
							return valOf(m.prev, amt.Res)
						}
					}
					return valOf(nx.Mem, amt.Res)
				}
			}
		}
	}
	return nil
}

// plain: the number is entered as it was read
func plain(n *line, ev *Event, ptr *Term) bool {
	a := n.read("parseAmt", 0)
	return a != nil && ptr == a.Res && valOf(ev.Mem, ptr) == n.was(a)
}

// elided: a posting without an amount gets what is missing in each currency
func (x *fileReading) elided(r *Report, n *line, what string) {
	b := n.b
	ccy, amt := n.res("parseCCY", 0), n.read("parseAmt", 0)
	if !r.need(ccy != nil && amt != nil, "elided", what, b.Pos, "it is not known that there is no amount") {
		return
	}
	r.need(b.Holds(cmpT("==", ccy, cStr(""), ccy.Typ)), "elided", what, b.Pos, "an amount is made up although a currency is given")
	r.need(b.Holds(cmp0("=", n.was(amt))), "elided", what, b.Pos, "an amount without a currency is not heeded")
	key, ok := b.mapScan(n.elide, n.bals)
	mt, et := mapOf(n.bals)
	if !r.need(ok && mt != nil, "elided", what, b.Pos, "not every currency is gone through") {
		return
	}
	posts := 0
	for _, bk := range n.elide.Backs {
		var evs []*Event
		for _, ev := range bk.in(n.elide) {
			if ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == x.loader {
				evs = append(evs, ev)
			}
		}
		bal := loadMem(n.elide.IterMem, bk.facts, numLoc(loadMem(n.elide.IterMem, bk.facts, mapEnt(n.bals, key, mt), et)), nil)
		if len(evs) == 0 {
			r.need(bk.Holds(cmp0("=", bal)), "elided", what, bk.Pos, "a currency is left out although something may be missing in it")
			continue
		}
		ev := evs[0]
		if !r.need(len(evs) == 1 && strings.HasSuffix(ev.Name, ".AddPosting"), "elided", what, ev.Pos, "more than one posting is made for a currency") {
			continue
		}
		posts++
		ok, why := x.account(n, ev.Args[1])
		r.need(ok, "elided", what+" account", ev.Pos, "%s", why)
		r.need(ev.Args[2] == key, "elided", what+" currency", ev.Pos, "the currency is not the one in which something is missing")
		r.need(valOf(ev.Mem, ev.Args[3]) == nSub(cInt(0), bal), "elided", what+" amount", ev.Pos, "the amount is not what is missing")
		r.need(ev.Args[4] == n.res("parseNote", 0), "elided", what+" note", ev.Pos, "the note is not the one read")
	}
	r.need(posts > 0, "elided", what, b.Pos, "no posting is made")
}

// texts: what ends each kind of text
var texts = map[string][]rune{
	"parsePayee":        {-1, '\n', ';'},
	"parseNote":         {-1, '\n'},
	"parseToEOL":        {-1, '\n'},
	"parseQuotedString": {-1, '\n', '"'},
	"parseCCY":          nil,
	"parseAccount":      nil,
}

// checkTexts: a text is every character up to what ends it
func checkTexts(r *Report) {
	for _, name := range []string{"parsePayee", "parseNote", "parseToEOL", "parseQuotedString", "parseCCY", "parseAccount"} {
		f := r.fn(tReader + "." + name)
		if f == nil {
			continue
		}
		ends := texts[name]
		e := r.runFn(f, nil, lexing("next", "consumeWS", "parseQuotedString"))
		c := shortFn(f)
		rr := param(f, 0)
		loops := 0
		ch := func(m *Mem) *Term { return loadTM(m, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch")) }
		for _, l := range e.Loops {
			cur := ch(l.IterMem)
			loops++
			for _, b := range l.Backs {
				evs := filterCalls(b.in(l), func(ev *Event) bool { return reads(ev) != "" })
				r.need(len(evs) == 1 && reads(evs[0]) == "next" && chAt(evs[0]) == cur, "text-each", c, b.Pos, "not one character is taken at a time")
				// it is added at the end of the text
				added := 0
				for _, w := range b.writesSince(l.IterMem) {
					if w.addr.Op == OBufLoc {
						old := loadMem(l.IterMem, nil, w.addr, strT())
						added++
						r.need(w.val == mkConcat(old, T.mk(OConv, "string", strT(), cur)), "text-each", c, b.Pos, "the character taken is not added to the text")
					}
				}
				r.need(added == 1, "text-each", c, b.Pos, "the character taken is not added to the text")
				for _, s := range ends {
					r.need(notRune(b, cur, s), "text-end", c, b.Pos, "the text may go on beyond its end (%q)", s)
				}
				if ends == nil {
					for _, s := range []rune{-1, '\n', ';', ' ', '@'} {
						out := notRune(b, cur, s) || b.Holds(T.mk(OCall, "loader.IsCCYRune", boolT(), cur))
						r.need(out, "text-end", c, b.Pos, "the text may go on beyond its end (%q)", s)
					}
				}
			}
		}
		r.need(loops > 0, "text-each", c, f.Pos(), "no text is read")
		for _, p := range e.returns() {
			var quoted *Event
			var ls []*Loop
			for _, ev := range p.Events() {
				switch {
				case reads(ev) == "parseQuotedString":
					quoted = ev
				case ev.Kind == "endloop":
					ls = append(ls, ev.Loop)
					cur := ch(ev.Mem)
					r.need(len(ends) == 0 || oneOf(p, cur, ends...), "text-end", c, ev.Pos, "the text may stop before its end")
					if name == "parseCCY" {
						r.need(p.Not(T.mk(OCall, "loader.IsCCYRune", boolT(), cur)), "text-end", c, ev.Pos, "the text may stop before its end")
					}
				case reads(ev) == "next":
					r.need(oneOf(p, chAt(ev), ';', '"', '!', '[', ']'), "text-each", c, ev.Pos, "a character is passed over")
				}
			}
			res := p.Results[0]
			for res.Op == OCall && res.Aux == "strings.TrimSpace" {
				res = res.Args[0]
			}
			switch {
			case quoted != nil:
				r.need(res == quoted.Res && len(ls) == 0, "text-whole", c, p.Pos, "what is given is not the text in quotes")
			case len(ls) == 0:
				r.need(name == "parseNote" && res == cStr("") && notRune(p, ch(p.Mem), ';'), "text-whole", c, p.Pos, "no text is read")
			default:
				ok := false
				l := ls[0]
				for _, b := range l.Backs {
					for _, w := range b.writesSince(l.IterMem) {
						if w.addr.Op == OBufLoc {
							ok = ok || res == p.Load(w.addr, strT()) && loadMem(l.EntryMem, nil, w.addr, strT()) == cStr("")
						}
					}
				}
				r.need(ok, "text-whole", c, p.Pos, "what is given is not the text read: %v", res)
			}
		}
	}
	// the runes of a currency
	if f := r.fn("loader.IsCCYRune"); f != nil {
		e := r.runFn(f, nil, Config{})
		ch := param(f, 0)
		for _, p := range e.returns() {
			if p.Not(p.Results[0]) || p.Results[0].isFalse() {
				continue
			}
			fs := p.facts.clone()
			if !fs.assume(p.Results[0], true) {
				continue
			}
			for _, s := range []rune{-1, '\n', ';', '@', '-', '.', '5'} {
				out := fs.decide(cmp0("=", nSub(ch, cInt(int64(s))))) == -1
				if s == '5' {
					out = fs.decide(cmp0("<", nSub(ch, cInt('0')))) == 1 || fs.decide(cmp0("<", nSub(cInt('9'), ch))) == 1
				}
				r.need(out, "text-end", shortFn(f), p.Pos, "%q may be taken for a part of a currency", s)
			}
		}
	}
}

func strT() types.Type { return types.Typ[types.String] }

// checkDateRead: dates in the file are year, month and day, and exist
func checkDateRead(r *Report) {
	f := r.fn(tReader + ".parseDate")
	if f == nil {
		return
	}
	valid := r.fn("book.Date.IsValid")
	cfg := lexing("next", "consumeWS", "parseNumber")
	mode := cfg.Mode
	cfg.Mode = func(g *ssa.Function) Mode {
		if g == valid {
			return MPure
		}
		return mode(g)
	}
	e := r.runFn(f, nil, cfg)
	c := shortFn(f)
	for _, p := range e.returns() {
		evs := p.calls(func(ev *Event) bool { return reads(ev) == "parseNumber" })
		if !r.need(len(evs) == 3, "date", c, p.Pos, "a date is not read as three numbers") {
			continue
		}
		want := nAdd(nAdd(nMul(cInt(10000), evs[0].Res), nMul(cInt(100), evs[1].Res)), evs[2].Res)
		r.need(p.Results[0] == want, "date", c, p.Pos, "the date is not made of the year, the month and the day read: %v", p.Results[0])
		r.need(p.Holds(T.mk(OCall, callName(valid), boolT(), want)), "date", c, p.Pos, "a date that does not exist is not an error")
		for _, ev := range evs {
			r.need(len(ev.Args) == 4 && ev.Args[2] == cInt(1), "date", c, ev.Pos, "a number of a date may be missing")
		}
		r.need(evs[1].Args[3] == cInt(2) && evs[2].Args[3] == cInt(2) && evs[0].Args[3] == cInt(4), "date", c, p.Pos, "the numbers of a date may be longer than they can be")
	}
	if f = r.fn(tReader + ".parseNumber"); f != nil {
		e := r.runFn(f, nil, lexing("next", "consumeWS"))
		c := shortFn(f)
		rr := param(f, 0)
		for _, p := range e.returns() {
			res := p.Results[0]
			if !r.need(res.Op == OLoopVar, "number", c, p.Pos, "the number is not made digit by digit: %v", res) {
				continue
			}
			l := res.Loop
			cur := loadTM(l.IterMem, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch"))
			r.need(l.Entry[res] == cInt(0), "number", c, p.Pos, "the number does not start at 0")
			var cnt *Term
			for _, v := range l.Vars {
				if v != res && l.Entry[v] == cInt(0) && p.Holds(bNot(cmp0("<", nSub(v, param(f, 2))))) && p.Holds(bNot(cmp0("<", nSub(param(f, 3), v)))) {
					cnt = v
				}
			}
			r.need(cnt != nil, "number", c, p.Pos, "the number of digits is not limited")
			for _, b := range l.Backs {
				d := nSub(cur, cInt('0'))
				ok := b.Next[res] == nAdd(nMul(cInt(10), res), d) && b.Holds(bNot(cmp0("<", d))) && b.Holds(bNot(cmp0("<", nSub(cInt(9), d))))
				r.need(ok, "number", c, b.Pos, "a digit does not count as one")
				r.need(cnt == nil || b.Next[cnt] == nAdd(cnt, cInt(1)), "number", c, b.Pos, "the digits are not counted")
				evs := filterCalls(b.in(l), func(ev *Event) bool { return reads(ev) != "" })
				r.need(len(evs) == 1 && reads(evs[0]) == "next", "number", c, b.Pos, "not one digit is taken at a time")
			}
		}
	}
}

// checkAmounts: C02, an amount is the number written, however long
func checkAmounts(r *Report) {
	f := r.fn(tReader + ".parseAmt")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, lexing("next", "consumeWS"))
	c := shortFn(f)
	rr := param(f, 0)
	ch := func(m *Mem) *Term { return loadTM(m, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch")) }
	digit := func(p *Path, ch *Term) int {
		lo, hi := cmp0("<", nSub(ch, cInt('0'))), cmp0("<", nSub(cInt('9'), ch))
		switch {
		case p.Not(lo) && p.Not(hi):
			return 1
		case p.Holds(lo) || p.Holds(hi):
			return -1
		}
		return 0
	}
	// the loops over the digits, in the order they are gone through, and what they carry
	type digits struct {
		num, mag *Term // locations
		flag     *Term // true once the dot was read, nil if that never changes in the loop
		dotted   bool  // the dot was read before the loop
	}
	ds := map[*Loop]*digits{}
	val := func(p *Path, m *Mem, at *Term) *Term { return loadMem(m, p.facts, at, nil) }
	// what the loops change
	var cs []*Term
	seenLoc := map[*Term]bool{}
	for _, l := range e.Loops {
		if l.Changed != nil {
			for at := range l.Changed.exact {
				if at.Op == ONumLoc && !seenLoc[at] {
					seenLoc[at] = true
					cs = append(cs, at)
				}
			}
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	dots := func(p *Path, l *Loop) bool {
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && ev.Loop == l {
				break
			}
			if reads(ev) == "next" && isRune(p, chAt(ev), '.') {
				return true
			}
		}
		return false
	}
	// dotSeen: was the dot read when the iteration that b follows starts? 1 yes, -1 no, 0 not known
	dotSeen := func(d *digits, b *Path) int {
		switch {
		case d.dotted:
			return 1
		case d.flag == nil || b.Not(d.flag):
			return -1
		case b.Holds(d.flag):
			return 1
		}
		return 0
	}
	nRet := 0
	for _, p := range e.returns() {
		nRet++
		neg := 0
		for _, ev := range p.Events() {
			if reads(ev) == "next" {
				switch {
				case isRune(p, chAt(ev), '-'):
					neg++
				default:
					r.need(isRune(p, chAt(ev), '.'), "amount-rune", c, ev.Pos, "a character is passed over")
				}
			}
		}
		r.need(neg < 2, "amount-sign", c, p.Pos, "more than one sign is read")
		if neg == 0 {
			r.need(len(p.loopsOn()) > 0 && signSeen(p, e, rr), "amount-sign", c, p.Pos, "a minus sign may not be heeded")
		}
		ls := p.loopsOn()
		if !r.need(len(ls) > 0, "amount", c, p.Pos, "no digits are read") {
			continue
		}
		last := ls[len(ls)-1]
		res := p.Load(numLoc(p.Results[0]), nil)
		d := ds[last]
		if d == nil {
			d = &digits{}
			for _, n := range cs {
				for _, m := range cs {
					q := nMul(val(p, last.IterMem, n), nInv(val(p, last.IterMem, m)))
					if n != m && (res == q || res == nSub(cInt(0), q)) {
						d.num, d.mag = n, m
					}
				}
			}
			if d.num == nil {
				r.need(false, "amount", c, p.Pos, "the amount is not the digits over a power of ten: %v", res)
				continue
			}
			ds[last] = d
		}
		q := nMul(val(p, last.IterMem, d.num), nInv(val(p, last.IterMem, d.mag)))
		if neg == 1 {
			q = nSub(cInt(0), q)
		}
		r.need(res == q, "amount", c, p.Pos, "the amount is not the digits read over a power of ten, with the sign read: %v", res)
		// stops only at what is not part of the number
		cur := ch(last.IterMem)
		for _, ev := range p.Events() {
			if ev.Kind == "endloop" && ev.Loop == last {
				cur = ch(ev.Mem)
			}
		}
		r.need(digit(p, cur) == -1 && notRune(p, cur, ','), "amount-end", c, p.Pos, "the reading may stop within the number")
		// each loop passed gets the digits where the one before left them
		for i, l := range ls {
			li := ds[l]
			if li == nil {
				li = &digits{num: d.num, mag: d.mag}
				ds[l] = li
			}
			li.dotted = li.dotted || dots(p, l)
			num0, mag0 := val(p, l.EntryMem, d.num), val(p, l.EntryMem, d.mag)
			if i == 0 {
				r.need(num0 == cInt(0) && mag0 == cInt(1), "amount-start", c, p.Pos, "the amount does not start from 0")
			} else {
				pr := ls[i-1]
				r.need(num0 == val(p, pr.IterMem, d.num) && mag0 == val(p, pr.IterMem, d.mag), "amount-start", c, p.Pos, "the digits after the dot are not added to those before")
			}
		}
	}
	r.need(nRet > 0, "amount", c, f.Pos(), "no amount is read")
	for l, d := range ds {
		// what notes that the dot was read
		for _, v := range l.Vars {
			if v.Typ == nil || v.Typ.Underlying() != types.Typ[types.Bool] || !l.Entry[v].isFalse() {
				continue
			}
			ok := true
			for _, b := range l.Backs {
				dot := false
				for _, ev := range b.in(l) {
					dot = dot || reads(ev) == "next" && isRune(b, chAt(ev), '.')
				}
				nx := b.Next[v]
				ok = ok && (dot && (nx.isTrue() || nx == v && b.Holds(v)) || !dot && (nx == v || nx.isFalse() && b.Not(v) || nx.isTrue() && b.Holds(v)))
			}
			if ok {
				d.flag = v
			}
		}
		cur := ch(l.IterMem)
		for _, b := range l.Backs {
			evs := filterCalls(b.in(l), func(ev *Event) bool { return reads(ev) != "" })
			if !r.need(len(evs) == 1 && reads(evs[0]) == "next" && chAt(evs[0]) == cur, "amount-rune", c, b.Pos, "not one character is taken at a time") {
				continue
			}
			n0, m0 := val(b, l.IterMem, d.num), val(b, l.IterMem, d.mag)
			n1, m1 := val(b, b.Mem, d.num), val(b, b.Mem, d.mag)
			seen := dotSeen(d, b)
			switch {
			case digit(b, cur) == 1:
				r.need(n1 == nAdd(nMul(cInt(10), n0), nSub(cur, cInt('0'))), "amount-digit", c, b.Pos, "a digit does not count as one: %v", n1)
				r.need(seen == 1 && m1 == nMul(cInt(10), m0) || seen == -1 && m1 == m0, "amount-digit", c, b.Pos, "a digit does not count as one before, respectively after, the dot: %v", m1)
			case isRune(b, cur, ','):
				r.need(n1 == n0 && m1 == m0, "amount-rune", c, b.Pos, "a comma changes the amount")
			case isRune(b, cur, '.'):
				r.need(n1 == n0 && m1 == m0, "amount-rune", c, b.Pos, "the dot changes the amount")
				r.need(seen == -1 && d.flag != nil && b.Next[d.flag].isTrue(), "amount-dot", c, b.Pos, "the dot is not noted, or there may be more than one")
			default:
				r.need(false, "amount-rune", c, b.Pos, "a character that is not part of a number is passed over")
			}
		}
	}
	// and it is what is entered
	x := readFile(r)
	if x == nil {
		return
	}
	n := 0
	for _, ln := range x.lines() {
		switch k := ln.kind(); k {
		case "AddPosting":
			n++
			neg, odd := ln.minus()
			r.need(!odd, "amount-sign", c, ln.b.Pos, "a minus sign is passed over")
			ln.posted(r, shortFn(x.f)+" "+k, ln.enter[0], neg)
		case "AddPrice":
			n++
			ev := ln.enter[0]
			r.need(plain(ln, ev, ev.Args[4]), "part", shortFn(x.f)+" "+k+" amount", ev.Pos, "the amount entered is not the one read")
		}
	}
	r.need(n > 1, "part", c, f.Pos(), "no amount is entered")
}

// signSeen: the number starts with what is no minus sign
func signSeen(p *Path, e *Engine, rr *Term) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "loop" {
			return notRune(p, loadTM(ev.Loop.EntryMem, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch")), '-')
		}
	}
	return false
}

// checkIncludes: C06, includes are relative and aliases hold where they should
func checkIncludes(r *Report) {
	x := readFile(r)
	if x == nil {
		return
	}
	c := shortFn(x.f)
	count := map[string]int{}
	for _, n := range x.lines() {
		b := n.b
		id := n.res("parseIdentifier", 0)
		word := func(w string) bool { return id != nil && b.Holds(cmpT("==", id, cStr(w), id.Typ)) }
		switch k := n.kind(); k {
		case "include":
			count[k]++
			r.need(word("INCLUDE"), "directive", c+" "+k, b.Pos, "a file is included that is not asked for")
			ev := n.incl
			var file, al *Term
			for i, a := range ev.Args {
				switch param(x.f, i) {
				case x.loader:
					r.need(a == x.loader, "include-into", c, ev.Pos, "what is included is not entered into the same ledger")
				case x.name:
					file = a
				case x.alias:
					al = a
				}
			}
			text := n.res("parseToEOL", 0)
			if r.need(text != nil, "include-file", c, ev.Pos, "the name of the file is not read") {
				why := x.included(b, file, text)
				r.need(why == "", "include-file", c, ev.Pos, "%s: %v", why, file)
			}
			own := x.aliases(n.l)
			r.need(own != nil && al == own, "include-alias", c, ev.Pos, "the aliases so far are not those of the included file: %v", al)
		case "alias":
			count[k]++
			r.need(word("ALIAS"), "directive", c+" "+k, b.Pos, "an alias is made that is not asked for")
			r.need(n.order("parseIdentifier", "parseAccount", "parseAccount", "parseToEOL"), "alias-parts", c, b.Pos, "an alias is not read as one account and another: %s", n.readNames())
			eq := 0
			for _, ev := range n.runes {
				if isRune(b, chAt(ev), '=') {
					eq++
				}
			}
			r.need(eq == 1, "alias-parts", c, b.Pos, "an alias is not read as one account = another")
			for _, w := range n.alias {
				r.need(w.addr.Args[1] == n.res("parseAccount", 0) && w.val == n.res("parseAccount", 1), "alias-parts", c, b.Pos, "the alias made is not the one read")
			}
		default:
			r.need(!word("INCLUDE") && !word("ALIAS"), "directive", c+" "+k, b.Pos, "a directive is not heeded")
		}
	}
	r.need(count["include"] > 0 && count["alias"] > 0, "directive", c, x.f.Pos(), "no include or alias is read")
	// the aliases of a file start as a copy of those given
	for _, l := range x.ls {
		am := x.aliases(l)
		if !r.need(am != nil && am.Op == OMake, "alias-own", c, x.f.Pos(), "the aliases of a file are not its own: they may be seen by the file that includes it") {
			continue
		}
		mt, et := mapOf(am)
		b := l.Backs[0]
		copied := b.isNil(x.alias)
		for _, in := range b.loopsOn() {
			if key, ok := b.mapScan(in, x.alias); ok && in != l && len(in.Backs) > 0 {
				good := true
				for _, bk := range in.Backs {
					want := bk.LoadAt(in.IterMem, mapEnt(x.alias, key, mt), et)
					has := bk.Load(T.mk(OMapHas, "", nil, am, key), boolT())
					good = good && bk.Load(mapEnt(am, key, mt), et) == want && has.isTrue()
				}
				copied = copied || good
			}
		}
		r.need(copied, "alias-own", c, x.f.Pos(), "the aliases of the including file are not all there in the included one")
		for _, w := range b.writesSince(nil) {
			if w.addr.Op == OMapEnt && w.addr.Args[0] == x.alias {
				r.need(false, "alias-own", c, b.Pos, "the aliases of the including file are changed")
			}
		}
	}
	// and they are heeded in every posting
	for _, n := range x.lines() {
		if n.kind() == "AddPosting" {
			ok, why := x.account(n, n.enter[0].Args[1])
			r.need(ok, "alias-used", c, n.enter[0].Pos, "%s", why)
		}
	}
}

// quoted: is there a quotation mark at that end of the text? 1 yes, -1 no, 0 not known
func quoted(p *Path, text *Term, last bool) int {
	at := cInt(0)
	fn, short := "strings.HasPrefix", mkLen(text)
	if last {
		at = nSub(mkLen(text), cInt(1))
		fn = "strings.HasSuffix"
	}
	for _, f := range p.Facts() {
		is := f.Cond.Op == OCall && f.Cond.Aux == fn && f.Cond.Args[0] == text && f.Cond.Args[1] == cStr(`"`)
		if !is {
			f.Cond.any(func(q *Term) bool {
				if len(q.Args) == 2 && q.Args[0] == text && q.Args[1] == at && q.Op != OSlice {
					is = is || f.Cond == cmp0("=", nSub(q, cInt('"')))
				}
				return false
			})
		}
		if is && f.Val {
			return 1
		}
		if is {
			return -1
		}
	}
	if p.Not(cmp0("<", nSub(cInt(1), short))) {
		return -1
	}
	return 0
}

// included: the file is the one named, next to the one that includes it
func (x *fileReading) included(p *Path, file, text *Term) string {
	if file == nil || file.Op != OCall || !strings.HasSuffix(file.Aux, "filepath.Join") || len(file.Args) != 1 || len(file.Args[0].Args) != 2 {
		return "the file included is not looked for next to the one that includes it"
	}
	dir, rest := file.Args[0].Args[0], file.Args[0].Args[1]
	if dir.Op != OCall || !strings.HasSuffix(dir.Aux, "filepath.Dir") || dir.Args[0] != x.name {
		return "the file included is not looked for next to the one that includes it"
	}
	a, b := quoted(p, text, false), quoted(p, text, true)
	switch {
	case rest == text && (a == -1 || b == -1):
		return ""
	case a == 1 && b == 1 && rest.Op == OSlice && rest.Args[0] == text && rest.Args[1] == cInt(1) && rest.Args[2] == nSub(mkLen(text), cInt(1)):
		return ""
	}
	return "the file included is not the one named"
}

// checkCycles: C23, what includes itself is an error
func checkCycles(r *Report) {
	if x := readFile(r); x != nil {
		guarded(r, x.f, x.e, func(k *Term) bool {
			for k.Op == OCall && len(k.Args) == 1 && strings.Contains(k.Aux, "filepath.") {
				k = k.Args[0]
			}
			return k == x.name
		})
	}
	one := r.fn("cmd/app.App.bookOp")
	if one == nil {
		return
	}
	var op *Term
	for i, prm := range one.Params {
		if types.Identical(prm.Type(), strT()) {
			op = param(one, i)
		}
	}
	cfg := outside("cmd/app")
	mode := cfg.Mode
	cfg.Mode = func(g *ssa.Function) Mode {
		if g == one {
			return MEvent
		}
		return mode(g)
	}
	e := r.runFn(one, nil, cfg)
	guarded(r, one, e, func(k *Term) bool { return k == op })
}

// guarded: f calls itself only after its key was found not to be among those of the calls it
// is made from, and adds its key to them
func guarded(r *Report, f *ssa.Function, e *Engine, key func(*Term) bool) {
	c := shortFn(f)
	n := 0
	for _, p := range e.Paths {
		var evs []*Event
		if p.Kind == "back" {
			evs = p.in(p.Loop)
		} else {
			evs = p.Events()
		}
		for _, ev := range evs {
			if ev.Kind != "call" || ev.Fn != f {
				continue
			}
			n++
			ok, why := false, "the call does not pass on what it is in"
			for i, a := range ev.Args {
				seen := param(f, i)
				if a.Op == OAppend && a.Args[0] == seen {
					for _, k := range a.Args[1:] {
						if key(k) {
							ok = p.searched(seen, k)
							why = "it is not known that it is not in itself already"
						}
					}
				}
			}
			r.need(ok, "cycle", c, ev.Pos, "%s", why)
		}
		// being in itself is an error
		if p.Kind == "return" && retErr(p) != 1 {
			for i := range f.Params {
				seen := param(f, i)
				if sl, isS := seen.Typ.Underlying().(*types.Slice); !isS || !isStringT(sl.Elem()) {
					continue
				}
				for _, fc := range p.Facts() {
					hit := fc.Val && (fc.Cond.Op == OEq || fc.Cond.Op == OCmp) && fc.Cond.any(func(t *Term) bool { return t.Op == OIdx && t.Args[0] == seen }) && fc.Cond.any(key)
					r.need(!hit, "cycle-error", c, p.Pos, "being in itself is no error")
				}
			}
		}
	}
	r.need(n > 0, "cycle", c, f.Pos(), "nothing is included in anything")
	// the others start with nothing
	for _, g := range callersOf(f) {
		if topFn(g) == f || reaches(f, g, nil) || !inRepo(g) || g.Synthetic != "" {
			continue
		}
		e := r.runFn(g, nil, Config{Mode: func(h *ssa.Function) Mode {
			if h == f || !inRepo(h) {
				return MEvent
			}
			return MInline
		}})
		for _, p := range e.Paths {
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.Fn == f {
					for i, prm := range f.Params {
						if sl, isS := prm.Type().Underlying().(*types.Slice); isS && isStringT(sl.Elem()) {
							r.need(ev.Args[i].isNil() || p.Holds(cmp0("=", mkLen(ev.Args[i]))), "cycle-start", shortFn(g), ev.Pos, "it is taken to be in something")
						}
					}
				}
			}
		}
	}
}

// reaches: does f call g, perhaps through others?
func reaches(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && inRepo(h) && (h == g || reaches(h, g, seen)) {
					return true
				}
			}
		}
	}
	return false
}

// searched: k was compared with every element of the list and is none of them
func (p *Path) searched(list, k *Term) bool {
	for _, l := range p.loopsOn() {
		idx, ok := p.idxScan(l, mkLen(list))
		if !ok || len(l.Backs) == 0 {
			continue
		}
		s := scan{l, list, idx, nil}
		good := true
		for _, b := range l.Backs {
			good = good && b.Not(cmpT("==", s.elem(b), k, k.Typ))
		}
		if good {
			return true
		}
	}
	for _, f := range p.Facts() {
		if !f.Val && f.Cond.Op == OCall && strings.HasPrefix(f.Cond.Aux, "slices.Contains") && f.Cond.Args[0] == list && f.Cond.Args[1] == k {
			return true
		}
	}
	return false
}
