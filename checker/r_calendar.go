package main

// Dates are those of the Gregorian calendar.

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var calMonths = []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// monthTables are the lists of twelve numbers: whether each has the days of each month of a year without a leap day, and
// nothing changes them
func monthTables() map[*ssa.Global]bool {
	good := map[*ssa.Global]bool{}
	for _, f := range allFuncs {
		if !inRepo(f) || f.Name() != "init" || f.Synthetic == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if n := listedNumbers(st.Val); len(n) == 12 {
					good[g] = fmt.Sprint(n) == fmt.Sprint(calMonths)
				}
			}
		}
	}
	for _, f := range allFuncs {
		if !inRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if _, is := good[g]; !ok || !is || f.Name() == "init" && f.Synthetic != "" {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if _, isSl := in.Type().Underlying().(*types.Slice); isSl && !readOnlyUses(in) {
							good[g] = false
						}
					case *ssa.IndexAddr, *ssa.Slice:
						if !readOnlyUses(in.(ssa.Value)) {
							good[g] = false
						}
					case *ssa.DebugRef:
					default:
						good[g] = false
					}
				}
			}
		}
	}
	return good
}

// listedNumbers: the numbers of an array or slice written out
func listedNumbers(v ssa.Value) (r []int64) {
	switch x := v.(type) {
	case *ssa.UnOp:
		v = x.X
	case *ssa.Slice:
		v = x.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || !isIntT(at.Elem()) || at.Len() > 1000 {
		return nil
	}
	r = make([]int64, at.Len())
	for _, u := range *al.Referrers() {
		ix, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ix.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, w := range *ix.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				c, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil
				}
				r[i.Int64()], _ = constant.Int64Val(c.Value)
			}
		}
	}
	return r
}

func readOnlyUses(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !readOnlyUses(u) {
				return false
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type calendar struct {
	tables map[*ssa.Global]bool
}

// monthOf: the term is the number of days of a month in the table; which one, counted from 0
func (c *calendar) monthOf(t *Term) (*Term, bool) {
	if !isLoad(t) || t.Args[0].Op != OIdx {
		return nil, false
	}
	a := t.Args[0]
	base, i := a.Args[0], a.Args[1]
	if base.Op == OSlice && len(base.Args) > 1 && base.Args[1] == cInt(0) {
		base = base.Args[0]
	}
	if isLoad(base) {
		base = base.Args[0]
	}
	if base.Op != OGlobal {
		return nil, false
	}
	for g, ok := range c.tables {
		if ok && strings.HasSuffix(base.Aux, g.Pkg.Pkg.Path()+"."+g.Name()) {
			return i, true
		}
	}
	return nil, false
}

// daysPart: t is the days of one month and something more; the month and the rest
func (c *calendar) daysPart(t *Term) (month, rest *Term) {
	pl := polyOf(t)
	for _, k := range pl.keys() {
		m := pl.m[k]
		if len(m.f) == 1 && m.f[0].e == 1 && m.c.IsInt() && m.c.Num().Int64() == 1 {
			if i, ok := c.monthOf(m.f[0].t); ok {
				return i, nSub(t, m.f[0].t)
			}
		}
	}
	return nil, nil
}

// leaps: whether the year may be a leap year, and may be another one, as far as the path knows
func leaps(p *Path, year *Term) (leap, plain bool) {
	for _, cl := range []struct {
		by   [3]bool
		leap bool
	}{{[3]bool{false, false, false}, false}, {[3]bool{true, false, false}, true}, {[3]bool{true, true, false}, false}, {[3]bool{true, true, true}, true}} {
		ok := true
		for i, k := range []int64{4, 100, 400} {
			for _, y := range []*Term{year, normInt(year)} {
				c := cmp0("=", T.mk(OBin, "%", year.Typ, y, cInt(k)))
				if cl.by[i] && p.Not(c) || !cl.by[i] && p.Holds(c) {
					ok = false
				}
			}
			// told by the name of a function kept as a call: not known
		}
		if ok && cl.leap {
			leap = true
		} else if ok {
			plain = true
		}
	}
	return
}

func dateParts(d *Term) (y, m, day *Term) {
	div := func(a *Term, k int64) *Term { return T.mk(OBin, "/", d.Typ, a, cInt(k)) }
	mod := func(a *Term, k int64) *Term { return T.mk(OBin, "%", d.Typ, a, cInt(k)) }
	return div(d, 10000), mod(div(d, 100), 100), mod(d, 100)
}

// monthDays: n is the number of days the month (from 0) has in the year
func (c *calendar) monthDays(p *Path, n, month, year *Term) bool {
	if i, rest := c.daysPart(n); i != nil {
		return sameInt(i, month) && leapDay(p, rest, month, year)
	}
	k, ok := polyOf(n).constant()
	if !ok || !k.IsInt() {
		return false
	}
	may := map[int]bool{}
	for i := range calMonths {
		switch knows(p, cmp0("=", nSub(month, cInt(int64(i))))) {
		case 1:
			may = map[int]bool{i: true}
			goto known
		case 0:
			may[i] = true
		}
	}
known:
	leap, plain := leaps(p, year)
	for i := range may {
		d := calMonths[i]
		if i != 1 && d != k.Num().Int64() || i == 1 && (plain && d != k.Num().Int64() || leap && d+1 != k.Num().Int64()) {
			return false
		}
	}
	return true
}

func sameInt(a, b *Term) bool { return a == b || a != nil && b != nil && normInt(a) == normInt(b) }

// knows: what the path knows of a condition on numbers, in one form or another: 1, -1 or 0
func knows(p *Path, c *Term) int {
	switch {
	case p.Holds(c):
		return 1
	case p.Not(c):
		return -1
	}
	w := normInt(c)
	for _, f := range p.Facts() {
		if normInt(f.Cond) == w {
			if f.Val {
				return 1
			}
			return -1
		}
	}
	return 0
}

// february: what is known of the month, counted from 0
func february(p *Path, i *Term) (is, isNot bool) {
	k := knows(p, cmp0("=", nSub(i, cInt(1))))
	return k >= 0, k <= 0
}

// leapDay: the number is 1 if the month (from 0) is February of a leap year, and else 0
func leapDay(p *Path, n, month, year *Term) bool {
	k, ok := polyOf(n).constant()
	if !ok {
		return false
	}
	feb, other := february(p, month)
	leap, plain := leaps(p, year)
	may1 := feb && leap
	may0 := other || plain
	switch {
	case k.Sign() == 0:
		return !may1
	case k.IsInt() && k.Num().Int64() == 1:
		return !may0
	}
	return false
}

// checkCalendar: C36
func checkCalendar(r *Report) {
	c := &calendar{monthTables()}
	n := 0
	for g, ok := range c.tables {
		n++
		r.need(ok, "months", g.Name(), g.Pos(), "the days of the months are not those of the calendar, or something changes them")
	}
	r.need(n > 0, "months", "table", noPos, "the days of the months are not found")
	c.valid(r)
	c.taken(r)
	c.days(r)
	c.years(r)
	c.fromDays(r)
	c.between(r)
	c.written(r)
	c.shown(r)
}

// valid: a date is one if its year, month and day are there
func (c *calendar) valid(r *Report) {
	f := r.fn("book.Date.IsValid")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	y, m, d := dateParts(param(f, 0))
	n := 0
	for _, p := range e.Paths {
		if !r.need(p.Kind != "panic", "valid", shortFn(f), p.Pos, "breaks off on some date") || p.Kind != "return" {
			continue
		}
		n++
		res := p.Results[0]
		y1, m1, m12, d1 := knows(p, cmp0("<", nSub(y, cInt(1)))), knows(p, cmp0("<", nSub(m, cInt(1)))), knows(p, cmp0(">", nSub(m, cInt(12)))), knows(p, cmp0("<", nSub(d, cInt(1))))
		out := y1 > 0 || m1 > 0 || m12 > 0 || d1 > 0
		in := y1 < 0 && m1 < 0 && m12 < 0 && d1 < 0
		// the comparison of the day with the days of the month
		long := func(cond *Term) bool {
			if cond.Op != OCmp {
				return false
			}
			return c.tooLong(p, cond, m, d, y)
		}
		over := 0
		for _, x := range p.Facts() {
			if long(x.Cond) {
				over = -1
				if x.Val {
					over = 1
				}
			}
		}
		switch {
		case res == cBool(false):
			r.need(out || over > 0, "valid", shortFn(f), p.Pos, "a date of the calendar is refused")
		case res == cBool(true):
			r.need(in && over < 0, "valid", shortFn(f), p.Pos, "a date that is not in the calendar is taken")
		default:
			ok := in && res.Op == ONot && long(res.Args[0])
			r.need(ok, "valid", shortFn(f), p.Pos, "the day is not compared with the days its month has that year: %v", res)
		}
	}
	r.need(n >= 3, "valid", shortFn(f)+" paths", f.Pos(), "only %d ways through it", n)
}

// tooLong: the condition says that the day is after the last of its month
func (c *calendar) tooLong(p *Path, cond, m, d, y *Term) bool {
	a := cond.Args[0]
	for _, x := range []struct {
		op  string
		sum *Term
	}{{"<", a}, {">", nNeg(a)}} {
		if cond != cmp0(x.op, a) {
			continue
		}
		// days - day < 0
		days := nAdd(x.sum, d)
		if c.monthDays(p, days, nSub(m, cInt(1)), y) {
			return true
		}
	}
	return false
}

// taken: text is a date only if there is such a date, and the numbers are taken for what they are
func (c *calendar) taken(r *Report) {
	f, v := r.fn("book.DateFromString"), r.fn("book.Date.IsValid")
	if f == nil || v == nil {
		return
	}
	e := r.runFn(f, nil, asPure("book.Date.FloorYear", "book.Date.FloorQuarter", "book.Date.FloorMonth", "book.Date.FloorDiff", "book.Date.Floor", "book.GetToday", "book.Date.IsValid"))
	n := 0
	forms, rel := map[string]bool{}, map[string]bool{}
	for _, p := range e.Paths {
		if !r.need(p.Kind != "panic", "taken", shortFn(f), p.Pos, "breaks off on some text") || p.Kind != "return" {
			continue
		}
		n++
		res := p.Results[0]
		k, isC := polyOf(res).constant()
		if isC && k.Sign() == 0 {
			continue
		}
		r.need(p.Holds(T.mk(OCall, callName(v), boolT(), res)), "taken", shortFn(f), p.Pos, "a date that is not in the calendar is taken: %v", res)
		if strings.Contains(fmt.Sprint(res), "FindStringSubmatch") && !strings.Contains(fmt.Sprint(res), "Floor") {
			c.numbers(r, f, p, res, forms)
		}
		if p.anyFact(func(x *Term) bool { return x.isStrC() && in(x.strVal(), []string{"last", "this", "next", "year", "quarter", "month"}) }) {
			c.relative(r, f, p, res, rel)
		}
	}
	r.need(n >= 4, "taken", shortFn(f)+" paths", f.Pos(), "only %d ways through it", n)
	r.need(len(rel) == 9, "relative", shortFn(f), f.Pos(), "the last, this and next month, quarter and year are not all told apart")
	r.need(forms["year first"] && forms["year last"], "numbers", shortFn(f), f.Pos(), "a date written as year, month and day, or as day, month and year, is not taken")
}

// numbers: the date is made of the groups of the expression that stand for its year, month and day
func (c *calendar) numbers(r *Report, f *ssa.Function, p *Path, res *Term, forms map[string]bool) {
	con := shortFn(f)
	pl := polyOf(res)
	part := map[int64]int{} // 10000, 100 or 1: the group
	pat := ""
	add := int64(0)
	for _, k := range pl.keys() {
		m := pl.m[k]
		if !m.c.IsInt() {
			r.need(false, "numbers", con, p.Pos, "%v", res)
			return
		}
		co := m.c.Num().Int64()
		if len(m.f) == 0 {
			add = co
			continue
		}
		t := m.f[0].t
		g, ex := numberedGroup(t)
		if !r.need(len(m.f) == 1 && g > 0 && ex != "" && (pat == "" || pat == ex), "numbers", con, p.Pos, "it is not known which part of the text is taken: %v", t) {
			return
		}
		pat = ex
		part[co] = g
	}
	// groups in the order they are written
	widths, ok := groupWidths(pat)
	r.need(wholeText(pat, true), "numbers", con, p.Pos, "text with more in it than the numbers of a date is taken for one: %s", pat)
	if !r.need(ok && len(widths) == 3, "numbers", con, p.Pos, "the form of a date is not three numbers: %s", pat) {
		return
	}
	first := widths[0] == 4
	last := widths[2] == 4
	if !r.need(first != last && widths[1] == 2, "numbers", con, p.Pos, "it cannot be told which number is the year: %s", pat) {
		return
	}
	yg, mg, dg := 1, 2, 3
	form := "year first"
	if last {
		yg, mg, dg = 3, 2, 1
		form = "year last"
	}
	absent := func(g int) bool {
		for _, f := range p.Facts() {
			if !f.Val || f.Cond.Op != OCmp {
				continue
			}
			if x, k := strSides(f.Cond); x != nil && k.strVal() == "" {
				if i, ex := textGroup(x); i == g && ex == pat {
					return true
				}
			}
			if f.Cond.Aux == "=" && len(polyOf(f.Cond.Args[0]).keys()) == 1 {
				for _, m := range polyOf(f.Cond.Args[0]).m {
					if len(m.f) == 1 {
						t := m.f[0].t
						if t.Op == OLen {
							t = T.mk(OCall, "strconv.", t.Typ, t.Args[0])
						}
						if i, ex := numberedGroup(t); i == g && ex == pat {
							return true
						}
						if i, ex := textGroup(t); i == g && ex == pat {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, g := range []int{mg, dg} {
		if part[100] != g && part[1] != g {
			r.need(absent(g), "numbers", con, p.Pos, "a number that was written is left out (%s): %v", pat, res)
		}
	}
	ok = part[10000] == yg && (part[100] == mg || part[100] == 0 && add/100 == 1) && (part[1] == dg || part[1] == 0 && add%100 == 1)
	if part[100] != 0 && add/100 != 0 || part[1] != 0 && add%100 != 0 {
		ok = false
	}
	r.need(ok, "numbers", con, p.Pos, "the year, month and day are not those written (%s): %v", pat, res)
	if part[100] == mg && part[1] == dg {
		forms[form] = true
	}
}

// textGroup: the text is what a group of an expression takes; which group, and the expression
func textGroup(a *Term) (g int, ex string) {
	g = -1
	if isLoad(a) && a.Args[0].Op == OIdx {
		if i, ok := a.Args[0].Args[1].intVal(); ok {
			g = int(i)
		}
		a.Args[0].Args[0].any(func(x *Term) bool {
			if x.Op == OCall && strings.HasPrefix(x.Aux, "regexp.") && len(x.Args) == 1 && x.Args[0].isStrC() {
				ex = x.Args[0].strVal()
			}
			return false
		})
	}
	return
}

func numberedGroup(t *Term) (int, string) {
	if t.Op == OCall && strings.HasPrefix(t.Aux, "strconv.") && len(t.Args) > 0 {
		return textGroup(t.Args[0])
	}
	return -1, ""
}

// wholeText: the expression is of the whole text, and has groups of digits with at most a sign or space between
func wholeText(pat string, digits bool) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 3 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return false
	}
	var in func(x *syntax.Regexp, group bool) bool
	in = func(x *syntax.Regexp, group bool) bool {
		switch x.Op {
		case syntax.OpCharClass, syntax.OpLiteral:
			for i := 0; i < len(x.Rune); i++ {
				lo, hi := x.Rune[i], x.Rune[i]
				if x.Op == syntax.OpCharClass {
					i++
					hi = x.Rune[i]
				}
				if group && (lo < '0' || hi > '9') || !group && (hi > 127 || hi >= '0' && lo <= '9' || hi >= 'A' && lo <= 'Z' || hi >= 'a' && lo <= 'z') {
					return false
				}
			}
			return true
		case syntax.OpCapture:
			return in(x.Sub[0], true)
		case syntax.OpConcat, syntax.OpQuest, syntax.OpRepeat, syntax.OpAlternate, syntax.OpPlus, syntax.OpStar:
			for _, s := range x.Sub {
				if !in(s, group) {
					return false
				}
			}
			return true
		case syntax.OpEmptyMatch:
			return true
		}
		return false
	}
	for _, x := range re.Sub[1 : len(re.Sub)-1] {
		if digits && !in(x, false) {
			return false
		}
	}
	return true
}

// relative: the words say which time is meant, from today on
func (c *calendar) relative(r *Report, f *ssa.Function, p *Path, res *Term, seen map[string]bool) {
	con := shortFn(f)
	is, not := map[int]string{}, map[string]bool{}
	for _, ft := range p.Facts() {
		if ft.Cond.Op != OCmp {
			continue
		}
		x, k := strSides(ft.Cond)
		if x == nil {
			continue
		}
		if i, ex := textGroup(x); i > 0 && strings.Contains(ex, "last") {
			r.need(wholeText(ex, false), "relative", con, p.Pos, "text with more in it is taken for a date: %s", ex)
			if ft.Val {
				is[i] = k.strVal()
			} else {
				not[itoa(i)+k.strVal()] = true
			}
		}
	}
	word := func(i int, w string, all ...string) bool {
		if is[i] != "" {
			return is[i] == w
		}
		for _, o := range all {
			if o != w && !not[itoa(i)+o] {
				return false
			}
		}
		return !not[itoa(i)+w]
	}
	unit, whole := "", true
	for u, fn := range map[string]string{"year": "book.Date.FloorYear", "quarter": "book.Date.FloorQuarter", "month": "book.Date.FloorMonth"} {
		g := lookup(fn)
		whole = whole && not["2"+u]
		if g != nil && res.Op == OCall && res.Aux == callName(g) {
			unit = u
		}
	}
	if unit == "" {
		r.need(whole, "relative", con, p.Pos, "the month, quarter or year is not what is given: %v", res)
		return
	}
	n, ok := res.Args[1].intVal()
	which := map[int64]string{-1: "last", 0: "this", 1: "next"}[n]
	r.need(ok && which != "" && word(1, which, "last", "this", "next") && word(2, unit, "year", "quarter", "month"), "relative", con, p.Pos, "it is not the time the words stand for: %v", res)
	r.need(res.Args[0].Op == OCall && strings.HasSuffix(res.Args[0].Aux, "GetToday"), "relative", con, p.Pos, "it is not counted from today: %v", res)
	seen[which+" "+unit] = true
}

// groupWidths: the most digits each group of an expression takes
func groupWidths(pat string) (w []int, ok bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	var width func(x *syntax.Regexp) int
	width = func(x *syntax.Regexp) int {
		switch x.Op {
		case syntax.OpCharClass:
			return 1
		case syntax.OpRepeat:
			return x.Max * width(x.Sub[0])
		case syntax.OpConcat:
			n := 0
			for _, s := range x.Sub {
				n += width(s)
			}
			return n
		case syntax.OpQuest, syntax.OpCapture:
			return width(x.Sub[0])
		case syntax.OpAlternate:
			n := 0
			for _, s := range x.Sub {
				if k := width(s); k > n {
					n = k
				}
			}
			return n
		}
		return 0
	}
	var walk func(x *syntax.Regexp)
	walk = func(x *syntax.Regexp) {
		if x.Op == syntax.OpCapture {
			w = append(w, width(x))
			return
		}
		for _, s := range x.Sub {
			walk(s)
		}
	}
	walk(re)
	return w, true
}

// monthSum: res is base and the days of the months of the year before month m
func (c *calendar) monthSum(r *Report, rule, con string, p *Path, res, base, m, y *Term) {
	n := nSub(m, cInt(1))
	for _, l := range p.loopsOn() {
		for _, x := range l.carriers() {
			rest := nSub(res, x.v)
			if x.entry == nil || !isNumTerm(x.v) || mentions(rest, []*Term{x.v}) {
				continue
			}
			i, ok := p.idxScan(l, n)
			if !ok {
				continue
			}
			// a leap day may be counted in the loop or after it
			more := nSub(nAdd(rest, x.entry), base)
			inside, after := true, true
			for _, b := range l.Backs {
				if b.Loop != l {
					continue
				}
				step := nSub(x.next(b), x.v)
				in := c.monthDays(b, step, i, y)
				mo, add := c.daysPart(step)
				out := mo != nil && sameInt(mo, i) && add == cInt(0)
				if !r.need((in || out) && knows(b, cmp0("<", nSub(i, n))) > 0, rule, con, b.Pos, "the days of each month before are not counted once: %v", step) {
					return
				}
				inside, after = inside && in, after && out
			}
			k, isC := polyOf(normInt(more)).constant()
			if !r.need(isC && k.IsInt(), rule, con, p.Pos, "what is counted besides the months is not what it should be: off by %v", more) {
				return
			}
			switch {
			case inside && !after:
				r.need(k.Sign() == 0, rule, con, p.Pos, "off by %v days", k)
			case after:
				leap, plain := leaps(p, y)
				past := knows(p, cmp0(">", nSub(m, cInt(2))))
				may1 := leap && past >= 0
				may0 := plain || past <= 0
				r.need(k.Sign() == 0 && !may1 || k.Num().Int64() == 1 && !may0, rule, con, p.Pos, "the leap day is not counted as in the calendar")
			default:
				r.need(false, rule, con, p.Pos, "the leap day is not counted as in the calendar")
			}
			return
		}
	}
	r.need(false, rule, con, p.Pos, "the days of the months before are not added up: %v", res)
}

func yearDays(y *Term) *Term { // days in the years before the one after y years
	div := func(k int64) *Term { return T.mk(OBin, "/", y.Typ, y, cInt(k)) }
	return nAdd(nAdd(nMul(cInt(365), y), div(4)), nSub(div(400), div(100)))
}

// days: the number of a day
func (c *calendar) days(r *Report) {
	f := r.fn("book.Date.AsDays")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	y, m, d := dateParts(param(f, 0))
	n := 0
	for _, p := range e.Paths {
		if p.Kind != "return" {
			continue
		}
		n++
		base := nAdd(yearDays(nSub(y, cInt(1))), nSub(d, cInt(1)))
		c.monthSum(r, "days", shortFn(f), p, p.Results[0], base, m, y)
	}
	r.need(n > 0, "days", shortFn(f), f.Pos(), "never gives a number")
}

// years: the year and the part of it that has gone by
func (c *calendar) years(r *Report) {
	f := r.fn("book.Date.AsYears")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	y, m, d := dateParts(param(f, 0))
	unconv := func(t *Term) *Term {
		for t.Op == OConv && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return t
	}
	for _, p := range e.Paths {
		if p.Kind != "return" {
			continue
		}
		res := p.Results[0]
		ok := false
		if res.Op == OBin && res.Aux == "+" && len(res.Args) == 2 {
			for k := 0; k < 2; k++ {
				a, q := unconv(res.Args[k]), res.Args[1-k]
				if q.Op != OBin || q.Aux != "/" || !(sameInt(a, nSub(y, cInt(1))) || sameInt(a, y)) {
					continue
				}
				ok = true
				c.monthSum(r, "years", shortFn(f), p, unconv(q.Args[0]), nSub(d, cInt(1)), m, y)
				leap, plain := leaps(p, y)
				by, isC := polyOf(unconv(q.Args[1])).constant()
				r.need(isC && by.IsInt() && (by.Num().Int64() == 365 && !leap || by.Num().Int64() == 366 && !plain), "years", shortFn(f), p.Pos, "the year does not have as many days as it is divided by: %v", q.Args[1])
			}
		}
		r.need(ok, "years", shortFn(f), p.Pos, "it is not the year and the part of it gone by: %v", res)
	}
	r.atLeast("years", 4)
}

// fromDays: the day with a number
func (c *calendar) fromDays(r *Report) {
	f := r.fn("book.GetDateFromDays")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	con := shortFn(f)
	rule := "from-days"
	days := param(f, 0)
	n := 0
	for _, p := range e.Paths {
		if p.Kind != "return" {
			continue
		}
		n++
		// the year: the last that begins on the day or before
		var year *Term
		for _, l := range p.loopsOn() {
			for _, x := range l.carriers() {
				if x.entry == nil || !sameInt(x.entry, T.mk(OBin, "/", days.Typ, days, cInt(365))) {
					continue
				}
				ok := true
				for _, b := range l.Backs {
					if b.Loop == l {
						left := nSub(days, yearDays(x.v))
						ok = ok && x.next(b) == nSub(x.v, cInt(1)) && knows(b, cmp0("<", left)) > 0
					}
				}
				if ok && knows(p, cmp0("<", nSub(days, yearDays(x.v)))) < 0 {
					year = x.v
				}
			}
		}
		if !r.need(year != nil, rule, con, p.Pos, "the year is not the last that begins on the day or before") {
			continue
		}
		left := nSub(days, yearDays(year))
		done := false
		for _, l := range p.loopsOn() {
			var dv, mv *carrier
			for _, x := range l.carriers() {
				x := x
				if x.entry == nil {
					continue
				}
				if sameInt(x.entry, left) {
					dv = &x
				} else if k, ok := polyOf(x.entry).constant(); ok && k.IsInt() && isNumTerm(x.v) {
					up := len(l.Backs) > 0
					for _, b := range l.Backs {
						up = up && (b.Loop != l || x.next(b) == nAdd(x.v, cInt(1)))
					}
					if up {
						mv = &x
					}
				}
			}
			if dv == nil || mv == nil {
				continue
			}
			done = true
			k, _ := polyOf(mv.entry).constant()
			month := nSub(mv.v, cNum(k)) // from 0
			y := nAdd(year, cInt(1))
			for _, b := range l.Backs {
				if b.Loop != l {
					continue
				}
				took := nSub(dv.v, dv.next(b))
				r.need(c.monthDays(b, took, month, y), rule, con, b.Pos, "the days of the month gone by are not taken off: %v", took)
				r.need(knows(b, cmp0("<", nSub(dv.v, took))) < 0, rule, con, b.Pos, "a month is gone past that the day is in")
			}
			want := nAdd(nAdd(nMul(cInt(10000), y), nMul(cInt(100), nAdd(month, cInt(1)))), nAdd(dv.v, cInt(1)))
			r.need(p.Results[0] == want, rule, con, p.Pos, "the date is not the year, month and day found: %v", p.Results[0])
			in := false
			for _, x := range p.Facts() {
				if x.Cond.Op == OCmp && c.inMonth(p, *x, dv.v, month, y) {
					in = true
				}
			}
			r.need(in, rule, con, p.Pos, "the day may be after the last of its month")
		}
		r.need(done, rule, con, p.Pos, "the month is not looked for in the days left of the year")
	}
	r.need(n > 0, rule, con, f.Pos(), "never gives a date")
}

// inMonth: the fact says that there are fewer days left than the month has
func (c *calendar) inMonth(p *Path, f Fact, left, month, y *Term) bool {
	a := f.Cond.Args[0]
	for _, x := range []struct {
		c   *Term
		val bool
		sum *Term
	}{{cmp0("<", a), true, a}, {cmp0(">", a), true, nNeg(a)}} {
		if f.Cond != x.c || f.Val != x.val {
			continue
		}
		// left - days < 0
		if c.monthDays(p, nSub(left, x.sum), month, y) {
			return true
		}
	}
	return false
}

// between: days between two dates, and a date some days later
func (c *calendar) between(r *Report) {
	asDays, from := r.fn("book.Date.AsDays"), r.fn("book.GetDateFromDays")
	if asDays == nil || from == nil {
		return
	}
	num := func(t *Term) *Term { return T.mk(OCall, callName(asDays), types.Typ[types.Int], t) }
	if f := r.fn("book.Date.DaysSince"); f != nil {
		e := r.runFn(f, nil, asPure("book.Date.AsDays"))
		for _, p := range e.returns() {
			r.need(p.Results[0] == nSub(num(param(f, 0)), num(param(f, 1))), "between", shortFn(f), p.Pos, "it is not the number of days from the other date: %v", p.Results[0])
		}
	}
	if f := r.fn("book.Date.AddDays"); f != nil {
		e := r.runFn(f, nil, asPure("book.Date.AsDays", "book.GetDateFromDays"))
		for _, p := range e.returns() {
			res := p.Results[0]
			r.need(res.Op == OCall && res.Aux == callName(from) && len(res.Args) == 1 && res.Args[0] == nAdd(num(param(f, 0)), param(f, 1)), "between", shortFn(f), p.Pos, "it is not the day that many days later: %v", res)
		}
	}
	if f := r.fn("book.GetDate"); f != nil {
		e := r.runFn(f, nil, Config{})
		for _, p := range e.returns() {
			want := nAdd(nAdd(nMul(cInt(10000), param(f, 0)), nMul(cInt(100), param(f, 1))), param(f, 2))
			r.need(p.Results[0] == want, "between", shortFn(f), p.Pos, "it is not the year, month and day: %v", p.Results[0])
		}
	}
	if f := r.fn("book.GetToday"); f != nil {
		e := r.runFn(f, nil, outside("book"))
		for _, p := range e.returns() {
			pl := polyOf(p.Results[0])
			got := map[int64]string{}
			for _, k := range pl.keys() {
				m := pl.m[k]
				if len(m.f) == 1 && m.c.IsInt() {
					s := m.f[0].t.str(0)
					for _, w := range []string{"Year", "Month", "Day"} {
						if strings.Contains(s, "time.Time)."+w+"#") || strings.Contains(s, "time.Time)."+w+"(") || strings.Contains(s, "Time."+w) {
							got[m.c.Num().Int64()] = w
						}
					}
				}
			}
			r.need(len(pl.keys()) == 3 && got[10000] == "Year" && got[100] == "Month" && got[1] == "Day", "between", shortFn(f), p.Pos, "it is not the date of today: %v", p.Results[0])
		}
	}
	r.atLeast("between", 4)
}

// written: whoever turns text into a date does not go on with one that is none
func (c *calendar) written(r *Report) {
	dfs := r.fn("book.DateFromString")
	if dfs == nil {
		return
	}
	n := 0
	// a helper that gives the date on leaves it to its callers
	passes := map[*ssa.Function]bool{}
	fs := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var from func(g *ssa.Function)
	from = func(g *ssa.Function) {
		for _, f := range callersOf(g) {
			if seen[f] || !inRepo(f) || f.Synthetic != "" || relPkg(pkgOf(f)) == "cmd/web" || shortFn(f) == "(*book.Date).Set" {
				continue
			}
			seen[f] = true
			rs := f.Signature.Results()
			if f.Object() != nil && !f.Object().Exported() && rs.Len() == 1 && types.Identical(rs.At(0).Type(), dfs.Signature.Results().At(0).Type()) {
				passes[f] = true
				from(f)
				continue
			}
			fs = append(fs, f)
		}
	}
	from(dfs)
	for _, f := range fs {
		cfg := Config{Mode: func(g *ssa.Function) Mode {
			switch {
			case g == dfs:
				return MPure
			case passes[g], inRepo(g) && g.Parent() != nil && topFn(g) == topFn(f), inRepo(g) && sizeOf(g) < 60:
				return MInline
			case inRepo(g) && effectFree(g):
				return MPure
			}
			return MEvent
		}, MaxPaths: 4000}
		e := r.runFn(f, nil, cfg)
		for _, p := range e.Paths {
			if p.Kind != "return" {
				continue
			}
			for _, d := range datesOn(p, callName(dfs)) {
				zero := knows(p, cmp0("=", d))
				if k := knows(p, mkEq(d, cInt(0))); k != 0 {
					zero = k
				}
				n++
				empty := p.eqStr(func(x *Term, s string) bool { return x == d.Args[0] && s == "" })
				blank := len(empty) > 0 || p.Holds(cmp0("=", mkLen(d.Args[0])))
				ok := zero < 0 || retErr(p) == 1 || blank
				r.need(ok, "written", shortFn(f), p.Pos, "text that is not a date is taken for one without an error: %v", d)
			}
		}
	}
	r.need(n >= 4, "written", "uses", dfs.Pos(), "only %d uses found", n)
}

// datesOn: the dates made of text on the path
func datesOn(p *Path, name string) (r []*Term) {
	seen := map[*Term]bool{}
	note := func(x *Term) bool {
		if x.Op == OCall && x.Aux == name && len(x.Args) == 1 && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
		return false
	}
	p.anyFact(note)
	p.anyTerm(func(t *Term) { note(t) })
	for _, ev := range p.Events() {
		for _, a := range ev.Args {
			a.any(note)
		}
	}
	return
}

// shown: a date is shown by its year, month and day
func (c *calendar) shown(r *Report) {
	f := r.fn("book.Date.String")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	y, m, d := dateParts(param(f, 0))
	n := 0
	for _, p := range e.returns() {
		if p.Holds(cmp0("=", param(f, 0))) || p.Holds(mkEq(param(f, 0), cInt(0))) {
			continue
		}
		n++
		res := p.Results[0]
		s := res.str(0)
		iy, im, id := strings.Index(s, y.str(0)), -1, -1
		if iy >= 0 {
			if k := strings.Index(s[iy+1:], m.str(0)); k >= 0 {
				im = iy + 1 + k
			}
		}
		if im >= 0 {
			if k := strings.Index(s[im+len(m.str(0)):], d.str(0)); k >= 0 {
				id = im + len(m.str(0)) + k
			}
		}
		r.need(id > 0, "shown", shortFn(f), p.Pos, "a date is not shown as its year, month and day: %v", res)
	}
	r.need(n > 0, "shown", shortFn(f), f.Pos(), "never shown")
	if f := r.fn("book.Date.GetTime"); f != nil {
		e := r.runFn(f, nil, outside("book"))
		y, m, d := dateParts(param(f, 0))
		for _, p := range e.returns() {
			ok := false
			try := func(args []*Term) {
				if len(args) >= 7 && sameInt(args[0], y) && sameInt(args[1], m) && sameInt(args[2], d) && args[3] == cInt(0) && args[4] == cInt(0) && args[5] == cInt(0) && args[6] == cInt(0) {
					ok = true
				}
			}
			for _, ev := range p.Events() {
				if strings.HasSuffix(ev.Name, "time.Date") {
					try(ev.Args)
				}
			}
			p.Results[0].any(func(x *Term) bool {
				if x.Op == OCall && strings.HasSuffix(x.Aux, "time.Date") {
					try(x.Args)
				}
				return false
			})
			r.need(ok, "shown", shortFn(f), p.Pos, "the time is not the beginning of the day: %v", p.Results[0])
		}
	}
	r.atLeast("shown", 2)
}
