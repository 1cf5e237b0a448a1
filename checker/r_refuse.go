package main

// C44: what a ledger file is refused for.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stopsAt is the last thing that stops the path, if it is stopped by the code itself
func stopsAt(p *Path) *Event {
	var at *Event
	for _, ev := range p.Events() {
		if ev.Kind == "panic" {
			at = ev
		}
	}
	if at != nil && len(at.Args) == 1 && at.Args[0].Op == OFresh && strings.HasPrefix(at.Args[0].Aux, "panic#") {
		return nil // where it was read, which is looked at by itself
	}
	return at
}

// reader is what a part of a line reads its runes from
func (n *line) reader() *Term {
	for _, ev := range n.b.in(n.l) {
		if reads(ev) != "" {
			return ev.Args[0]
		}
	}
	return nil
}

func isEmpty(p *Path, t *Term) bool {
	return t != nil && (p.Holds(cmp0("=", mkLen(t))) || p.Holds(cmpT("==", t, cStr(""), t.Typ)))
}

// wrong says what is known to be wrong with a line that reading stops at
func (n *line) wrong(stop *Event) string {
	p := n.b
	rr := n.reader()
	if rr == nil || len(n.reads) == 0 {
		return ""
	}
	ch := loadTM(stop.Mem, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch"))
	last := reads(n.reads[len(n.reads)-1])
	zero := func(amt *Event) *Term { return cmp0("=", n.was(amt)) }
	cmd := n.res("parseIdentifier", 0)
	isCmd := func(s string) *Term { return cmpT("==", cmd, cStr(s), cmd.Typ) }
	switch {
	case cmd != nil:
		switch {
		case p.Not(isCmd("INCLUDE")) && p.Not(isCmd("ALIAS")):
			return "command"
		case p.Holds(isCmd("INCLUDE")) && n.order("parseIdentifier", "parseToEOL") && isEmpty(p, n.res("parseToEOL", 0)):
			return "include"
		case p.Holds(isCmd("ALIAS")) && n.order("parseIdentifier", "parseAccount") && notRune(p, ch, '=') && n.blanks(stop):
			return "alias"
		case p.Holds(isCmd("ALIAS")) && n.order("parseIdentifier", "parseAccount", "parseAccount") && isEmpty(p, n.res("parseAccount", 1)):
			return "alias account"
		}
		return ""
	case last == "parseNote" && notRune(p, ch, '\n') && notRune(p, ch, -1) && !n.past():
		return "left over"
	case n.read("parseDate", 0) != nil:
		amt := n.read("parseAmt", 0)
		ccys := isEmpty(p, n.res("parseCCY", 0)) || isEmpty(p, n.res("parseCCY", 1))
		if amt != nil && n.read("parseCCY", 1) != nil && (ccys || p.Holds(zero(amt))) {
			return "price"
		}
	case n.read("parseAccount", 0) != nil:
		amt := n.read("parseAmt", 0)
		if amt != nil && isEmpty(p, n.res("parseCCY", 0)) && p.Not(zero(amt)) {
			return "no currency"
		}
	}
	return ""
}

// past: runes are taken after the last part is read
func (n *line) past() bool {
	last := n.reads[len(n.reads)-1]
	seen := false
	for _, ev := range n.b.in(n.l) {
		if ev == last {
			seen = true
		} else if seen && reads(ev) == "next" {
			return true
		}
	}
	return false
}

// blanks: just before, all blanks were passed over
func (n *line) blanks(at *Event) bool {
	prev := ""
	for _, ev := range n.b.in(n.l) {
		if ev == at {
			break
		}
		if k := reads(ev); k != "" {
			prev = k
		}
	}
	return prev == "consumeWS"
}

// skips: the reader of a part first passes over blanks
func skips(r *Report, name string) bool {
	f := lookup(tReader + "." + name)
	if f == nil {
		return false
	}
	e := r.runFn(f, nil, lexing(partReaders...))
	for _, p := range e.Paths {
		for _, ev := range p.Events() {
			if k := reads(ev); k != "" {
				if k != "consumeWS" && !(k != name && k != "next" && skips(r, k)) {
					return false
				}
				break
			}
		}
	}
	return true
}

// checkRefusal: C44
func checkRefusal(r *Report) {
	x := readFile(r)
	if x == nil {
		return
	}
	c := shortFn(x.f)
	for _, l := range x.ls {
		for _, b := range l.Backs {
			r.need(stopsAt(b) == nil, "refused", c, b.Pos, "it goes on after it stopped")
		}
	}
	heads := map[*Loop]bool{}
	for _, l := range x.ls {
		heads[l] = true
	}
	count := map[string]int{}
	for _, p := range x.e.Paths {
		if p.Kind == "back" {
			continue
		}
		stop := stopsAt(p)
		if stop == nil {
			continue
		}
		var in *Loop
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && heads[ev.Loop] {
				in = ev.Loop
			}
		}
		if !r.need(in != nil, "refused", c, stop.Pos, "a file is refused before any line of it is read") {
			continue
		}
		n := lineOf(x, p, in)
		why := n.wrong(stop)
		count[why]++
		r.need(why != "", "refused", c+": "+n.readNames(), stop.Pos, "a line is refused although nothing is known to be wrong with it")
	}
	// blanks between the parts
	skip := map[string]bool{}
	for _, k := range partReaders {
		skip[k] = k != "next" && k != "consumeWS" && skips(r, k)
	}
	for _, n := range x.lines() {
		prev := "consumeWS" // at the start of the line
		for _, ev := range n.b.in(n.l) {
			k := reads(ev)
			if k == "" {
				continue
			}
			switch k {
			case "parseAccount", "parseCCY", "parseAmt", "parseDate", "parseTime", "parsePayee":
				r.need(prev == "consumeWS" || skip[k], "blanks", c+": "+k, ev.Pos, "a line with blanks there is refused, or read as something else")
			}
			prev = k
		}
	}
	x.files(r, c)
	readersStop(r)
	r.atLeast("refused", 100)
	r.atLeast("blanks", 100)
}

// lineOf is the last line that is read on a path that does not end with the line
func lineOf(x *fileReading, p *Path, l *Loop) *line {
	n := &line{b: p, l: l}
	for _, ev := range p.in(l) {
		switch k := reads(ev); {
		case k == "next":
			n.runes = append(n.runes, ev)
		case k != "" && k != "consumeWS":
			n.reads = append(n.reads, ev)
		}
	}
	return n
}

// files: a file is refused for what fails, what is wrong in it, or for being read already
func (x *fileReading) files(r *Report, c string) {
	cycle := 0
	for _, p := range x.e.returns() {
		if retErr(p) != 1 {
			continue
		}
		reason := ""
		for _, ev := range p.Events() {
			if ev.Kind == "panic" {
				reason = "line"
			}
			if ev.Kind == "call" && !ev.Defer && ev.err() != nil && p.notNil(ev.err()) {
				reason = "call"
			}
		}
		if reason == "" {
			for _, f := range p.Facts() {
				f.Cond.any(func(t *Term) bool {
					if t.Op == OCall && t.Typ != nil && isErrT(t.Typ) && p.notNil(t) {
						reason = "call"
					}
					return false
				})
				// the name is one of those being read
				if f.Val && f.Cond.any(func(t *Term) bool { return isLoad(t) && len(t.Args) > 0 && t.Args[0].Op == OIdx && t.Args[0].contains(x.parents) }) && isEqFact(f.Cond) {
					reason = "cycle"
					cycle++
				}
			}
		}
		r.need(reason != "", "refused-file", c, p.Pos, "a file is refused although nothing failed and it is not being read")
	}
	r.need(cycle > 0, "refused-file", c+": cycle", x.f.Pos(), "how a file that includes itself is refused is not known")
}

// isEqFact: the condition is that two things are the same
func isEqFact(c *Term) bool {
	return c.Op == OEq || strings.HasSuffix(c.String(), " = 0")
}

// readersStop: each reader of a part stops only for what it cannot read
func readersStop(r *Report) {
	ch := func(m *Mem, rr *Term) *Term { return loadTM(m, nil, fld(rr, tReader, "ch"), fldT(tReader, "ch")) }
	valid := lookup("book.Date.IsValid")
	names := append([]string{"parseNumber", "consume", "next"}, partReaders...)
	seen := map[*ssa.Function]bool{}
	n := 0
	for _, name := range names {
		f := lookup(tReader + "." + name)
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			continue
		}
		seen[f] = true
		rr := param(f, 0)
		var evs []string
		for _, o := range append([]string{"parseNumber"}, partReaders...) {
			if o != name {
				evs = append(evs, o)
			}
		}
		cfg := lexing(evs...)
		mode := cfg.Mode
		cfg.Mode = func(g *ssa.Function) Mode {
			if g == valid {
				return MPure
			}
			return mode(g)
		}
		c := shortFn(f)
		for _, p := range r.runFn(f, nil, cfg).Paths {
			stop := stopsAt(p)
			if stop == nil || p.Kind == "back" {
				continue
			}
			n++
			ok := false
			switch name {
			case "parseNumber":
				if len(f.Params) != 4 {
					break
				}
				for _, ev := range p.Events() {
					if ev.Kind != "loop" {
						continue
					}
					for _, v := range ev.Loop.Vars {
						few, many := cmp0("<", nSub(v, param(f, 2))), cmp0("<", nSub(param(f, 3), v))
						counts := ev.Loop.Entry[v] == cInt(0) && len(ev.Loop.Backs) > 0
						for _, b := range ev.Loop.Backs {
							counts = counts && b.Next[v] == nAdd(v, cInt(1))
						}
						ok = ok || counts && (p.Holds(few) || p.Holds(many))
					}
				}
			case "consume":
				ok = len(f.Params) == 2 && p.Not(cmp0("=", nSub(ch(nil, rr), param(f, 1))))
			case "next":
				for _, ev := range p.Events() {
					if ev.Kind == "call" && ev.err() != nil && p.notNil(ev.err()) {
						ok = true
					}
				}
			default:
				// a rune is wanted that is not there, or the date does not exist
				if valid != nil {
					for _, fc := range p.Facts() {
						ok = ok || !fc.Val && fc.Cond.Op == OCall && fc.Cond.Aux == callName(valid)
					}
				}
				at := ch(stop.Mem, rr)
				if isRune(p, at, '\n') || isRune(p, at, -1) {
					// a text whose quotation marks are not closed
					for _, ev := range p.Events() {
						ok = ok || reads(ev) == "next" && isRune(p, chAt(ev), '"')
					}
				}
				for _, want := range []rune{'/', ':'} {
					ok = ok || (name == "parseDate" && want == '/' || name == "parseTime" && want == ':') && notRune(p, at, want)
				}
			}
			r.need(ok, "refused-part", c, stop.Pos, "it stops although nothing is known to be wrong")
		}
	}
	r.need(n >= 3, "refused-part", "readers", noPos, "what the readers of parts stop for is not known (%d)", n)
}
