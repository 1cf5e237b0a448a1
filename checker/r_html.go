package main

// HTML reports: escaped, complete and well formed.

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const escapeFn = "html.EscapeString"

func isEscape(t *Term) bool {
	return t.Op == OCall && (t.Aux == escapeFn || strings.HasSuffix(t.Aux, "template.HTMLEscapeString")) && len(t.Args) == 1
}

// raw finds text of the book in a value that is not escaped, and that is not of a number or a date
func raw(t *Term, ok func(t *Term) bool) *Term {
	if isEscape(t) || ok(t) {
		return nil
	}
	if (t.Op == OLd || t.Op == OInit) && isStringT(t.Typ) && isFieldAddr(t.Args[0], tPosting) {
		return t
	}
	for _, a := range t.Args {
		if x := raw(a, ok); x != nil {
			return x
		}
	}
	return nil
}

// everyOut calls f for each text printed on p, and in the iterations of its loops
func everyOut(p *Path, l *Loop, f func(b *Path, l *Loop, t *Term)) {
	texts, loops := outputOf(p, l)
	for _, t := range texts {
		f(p, l, t)
	}
	for _, in := range loops {
		for _, b := range in.Backs {
			everyOut(b, in, f)
		}
	}
}

// checkHTML: C16
func checkHTML(r *Report) {
	f := r.fn("cmd/reports.ShowHTMLTransactions")
	if f == nil {
		return
	}
	c := shortFn(f)
	cfg, _ := printMode()
	mode := cfg.Mode
	cfg.Mode = func(g *ssa.Function) Mode {
		if relPkg(pkgOf(g)) == "cmd/utils" {
			return MEvent
		}
		return mode(g)
	}
	number := lookup("cmd/app.BookPrinter.FormatNumber")
	str := lookup("book.Date.String")
	e := r.runFn(f, nil, cfg)
	safe := func(t *Term) bool {
		return t.Op == OCall && (number != nil && t.Aux == callName(number) || str != nil && t.Aux == callName(str) || strings.HasPrefix(t.Aux, "fmt:%d") || strings.HasPrefix(t.Aux, "locale:%d"))
	}
	trans := param(f, 1)
	n := 0
	for _, p := range e.returns() {
		r.need(retErr(p) != 1 || failedCall(p), "refused", c, p.Pos, "it fails although nothing that it did has failed")
		if retErr(p) == 1 {
			continue
		}
		n++
		everyOut(p, nil, func(b *Path, l *Loop, t *Term) {
			_, vals := pieces(t)
			for _, v := range vals {
				x := raw(v, safe)
				r.need(x == nil, "html-escape", c, b.Pos, "text of the book is put into the page as it is: %v", v)
			}
		})
		_, loops := outputOf(p, nil)
		st := transLoop(p, loops, trans)
		if r.need(st != nil, "html-all", c, p.Pos, "not every transaction is shown, in order") {
			for _, b := range st.l.Backs {
				htmlTrans(r, c, b, st, number)
			}
		}
		w := wellFormed{}
		for tag, k := range w.path(p, nil) {
			r.need(p.Holds(cmp0("=", k)), "html-closed", c+" "+tag, p.Pos, "not every <%s> is closed: %v", tag, k)
		}
		for _, m := range w.bad {
			r.need(false, "html-closed", c, p.Pos, "%s", m)
		}
	}
	r.need(n > 0, "html-all", c, f.Pos(), "no path shows the report")
	r.atLeast("html-escape", 8)
	r.atLeast("html-closed", 5)
	r.atLeast("html-posting", 2)
}

// shows: value x (as want says) is one of those printed
func shows(b *Path, texts []*Term, want role) bool {
	for _, t := range texts {
		_, vals := pieces(t)
		for _, v := range vals {
			if want(b, v) {
				return true
			}
		}
	}
	return false
}

func escaped(x role) role {
	return func(p *Path, t *Term) bool {
		if !isEscape(t) {
			return false
		}
		_, vals := pieces(t.Args[0])
		return len(vals) == 1 && x(p, vals[0])
	}
}

func htmlTrans(r *Report, c string, b *Path, st *scan, number *ssa.Function) {
	elem := st.elem(b)
	texts, loops := outputOf(b, st.l)
	date := func(p *Path, t *Term) bool {
		return t.Op == OCall && len(t.Args) == 1 && firstField(b, elem, "date")(p, t.Args[0]) && dateText(t.Args[0])(p, t)
	}
	r.need(shows(b, texts, date), "html-transaction", c, b.Pos, "the date of a transaction is not shown")
	payee := firstField(b, elem, "payee")
	none := false
	for _, f := range b.Facts() {
		f.Cond.any(func(x *Term) bool {
			if (payee(b, x) || isEscape(x) && payee(b, x.Args[0])) && b.Holds(cmp0("=", mkLen(x))) {
				none = true
			}
			return none
		})
	}
	r.need(none || shows(b, texts, escaped(payee)), "html-transaction", c, b.Pos, "the payee of a transaction is not shown")
	var ps *scan
	for _, l := range loops {
		if i, ok := b.idxScan(l, mkLen(elem)); ok {
			if s := (&scan{l, elem, i, nil}); s.forward() {
				ps = s
				break
			}
		}
	}
	if !r.need(ps != nil, "html-posting", c, b.Pos, "not every posting of a transaction is shown, in order") {
		return
	}
	for _, q := range ps.l.Backs {
		texts, _ := outputOf(q, ps.l)
		ccy, val := ps.field(q, "ccy"), ps.field(q, "val")
		ok := shows(q, texts, escaped(is(ps.field(q, "acctterm"))))
		r.need(ok, "html-posting", c, q.Pos, "the account of a posting is not shown")
		r.need(shows(q, texts, escaped(is(ccy))), "html-posting", c, q.Pos, "the currency of a posting is not shown")
		r.need(shows(q, texts, callOf(number, nil, is(ccy), amount(val))), "html-posting", c, q.Pos, "the amount of a posting is not shown")
	}
}

// wellFormed counts the elements opened and not closed
type wellFormed struct{ bad []string }

var tagRe = regexp.MustCompile(`<(/?)([a-zA-Z]+)`)

var voidTags = map[string]bool{"br": true, "hr": true, "meta": true, "link": true, "img": true, "input": true}

func (w *wellFormed) path(p *Path, l *Loop) map[string]*Term {
	net := map[string]*Term{}
	add := func(tag string, t *Term) {
		if net[tag] == nil {
			net[tag] = cInt(0)
		}
		net[tag] = nAdd(net[tag], t)
	}
	texts, loops := outputOf(p, l)
	for i, t := range texts {
		consts, _ := pieces(t)
		for _, s := range consts {
			for _, m := range tagRe.FindAllStringSubmatch(s, -1) {
				switch {
				case voidTags[m[2]]:
				case m[1] == "":
					add(m[2], cInt(1))
				default:
					add(m[2], cInt(-1))
				}
			}
		}
		if i < len(loops) {
			for tag, k := range w.loop(p, loops[i]) {
				add(tag, k)
			}
		}
	}
	return net
}

// loop is how many are left open by all iterations of l, on a path p that has left it
func (w *wellFormed) loop(p *Path, l *Loop) map[string]*Term {
	nets := map[*Path]map[string]*Term{}
	tags := map[string]bool{}
	for _, b := range l.Backs {
		nets[b] = w.path(b, l)
		for t := range nets[b] {
			tags[t] = true
		}
	}
	r := map[string]*Term{}
	for tag := range tags {
		same := true
		var d *Term
		zero := true
		for _, b := range l.Backs {
			k := nets[b][tag]
			if k == nil {
				k = cInt(0)
			}
			if d != nil && d != k {
				same = false
			}
			d = k
			zero = zero && b.Holds(cmp0("=", k))
		}
		if zero {
			continue
		}
		if n, isC := d.intVal(); same && isC {
			if k := iterations(p, l); k != nil {
				r[tag] = nMul(k, cInt(n))
				continue
			}
		}
		// kept in step with a variable
		found := false
		for _, v := range l.Vars {
			if v.Typ == nil || !isIntT(v.Typ) {
				continue
			}
			ok := true
			for _, b := range l.Backs {
				k := nets[b][tag]
				if k == nil {
					k = cInt(0)
				}
				ok = ok && b.Holds(cmp0("=", nSub(k, nSub(b.Next[v], v))))
			}
			if ok {
				r[tag] = nSub(v, l.Entry[v])
				found = true
				break
			}
		}
		if !found {
			w.bad = append(w.bad, "elements <"+tag+"> opened and closed in a loop do not match")
			r[tag] = cInt(0)
		}
	}
	return r
}

// iterations is how often l has gone round, on a path p that has left it: its variable counts to a
// bound
func iterations(p *Path, l *Loop) *Term {
	for _, v := range l.Vars {
		if v.Typ == nil || !isIntT(v.Typ) || len(l.Backs) == 0 {
			continue
		}
		step := int64(0)
		for _, b := range l.Backs {
			k, ok := nSub(b.Next[v], v).intVal()
			if !ok || k != 1 && k != -1 || step != 0 && k != step {
				step = 0
				break
			}
			step = k
		}
		if step == 0 {
			continue
		}
		for _, f := range p.Facts() {
			if f.Cond.Op != OCmp || !f.Cond.contains(v) {
				continue
			}
			for _, poly := range f.Cond.Args {
				for _, sg := range []int64{1, -1} {
					// poly = sg·v + rest, v compared with -sg·rest
					rest := nSub(poly, nMul(cInt(sg), v))
					if rest.contains(v) {
						continue
					}
					at := nMul(cInt(-sg), rest)
					for _, d := range []int64{-1, 0, 1} {
						bound := nAdd(at, cInt(d))
						out := cmp0("<", nSub(v, bound)) // v < bound
						if step > 0 {
							out = bNot(out) // v >= bound
						}
						ok := p.Holds(out)
						for _, b := range l.Backs {
							ok = ok && b.Not(out)
						}
						if ok {
							if step > 0 {
								return nSub(bound, l.Entry[v])
							}
							return nAdd(nSub(l.Entry[v], bound), cInt(1))
						}
					}
				}
			}
		}
	}
	return nil
}
