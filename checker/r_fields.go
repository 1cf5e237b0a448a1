package main

// JSON, CSV and scripts: every field under its own name.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bare is t without conversions between kinds of text or number
func bare(t *Term) *Term {
	for t != nil && (t.Op == OConv || t.Op == OIface) && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// float: the nearest number to the amount val
func float(val *Term) role {
	return func(p *Path, t *Term) bool {
		t = bare(t)
		return t.Op == OCall && t.Aux == "(*big.Rat).Float64.0" && len(t.Args) == 1 && amount(val)(p, t.Args[0])
	}
}

func text(x *Term) role {
	return func(p *Path, t *Term) bool { return is(x)(p, bare(t)) }
}

// jsonFields are the keys an object is written with, and the values
func jsonFields(p *Path, ev *Event) (vals map[string]*Term, opts map[string]string, typs map[string]types.Type) {
	if len(ev.Args) == 0 || ev.Args[0].Op != OIface {
		return nil, nil, nil
	}
	x := ev.Args[0].Args[0]
	if x.Typ == nil {
		return nil, nil, nil
	}
	at, ptr := x, true
	pt, ok := x.Typ.Underlying().(*types.Pointer)
	t := x.Typ
	if ok {
		t = pt.Elem()
	} else {
		ptr = false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, nil
	}
	vals, opts, typs = map[string]*Term{}, map[string]string{}, map[string]types.Type{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opt, _ := strings.Cut(tag, ",")
		if name == "" {
			name = f.Name()
		}
		if ptr {
			vals[name] = loadTM(ev.Mem, p.facts, fldAddr(at, t, i), f.Type())
		} else {
			vals[name] = mkField(x, i, f.Type())
		}
		opts[name], typs[name] = opt, f.Type()
	}
	return
}

type fieldSpec struct {
	name string
	want role
}

// checkMarshal: every path gives the encoding of an object with these fields
func checkMarshal(r *Report, name string, spec func(f *ssa.Function) []fieldSpec) {
	f := r.fn(name)
	if f == nil {
		return
	}
	c := shortFn(f)
	str := lookup("book.PriceType.String")
	e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
		if g == str {
			return MPure
		}
		return MInline
	}})
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 && !p.isErrOf("encoding/json.Marshal") {
			r.need(false, "json-field", c, p.Pos, "not written as JSON")
			continue
		}
		evs := p.calls(named("encoding/json.Marshal", "encoding/json.MarshalIndent"))
		if !r.need(len(evs) == 1 && len(p.Results) == 2 && (p.Results[0] == evs[0].part(0) || retErr(p) == 1), "json-field", c, p.Pos, "what is returned is not the encoding of one object") {
			continue
		}
		n++
		vals, opts, typs := jsonFields(p, evs[0])
		for _, s := range spec(f) {
			v := vals[s.name]
			if !r.need(v != nil, "json-field", c+" "+s.name, p.Pos, "there is no field %q", s.name) {
				continue
			}
			r.need(s.want(p, v), "json-field", c+" "+s.name, p.Pos, "the value of %q is not what it says: %v", s.name, v)
			omit := strings.Contains(opts[s.name], "omitempty") && !isStringT(typs[s.name])
			r.need(!omit, "json-field", c+" "+s.name, p.Pos, "%q is left out if it is zero", s.name)
		}
	}
	r.need(n > 0, "json-field", c, f.Pos(), "nothing is written as JSON")
}

// isErrOf: the error returned is that of the call
func (p *Path) isErrOf(names ...string) bool {
	if len(p.Results) == 0 {
		return false
	}
	for _, ev := range p.calls(named(names...)) {
		if p.Results[len(p.Results)-1] == ev.err() {
			return true
		}
	}
	return false
}

// rfcDate: the date d as JSON has it
func rfcDate(d role) role {
	return func(p *Path, t *Term) bool {
		if t.Op != OCall || t.Aux != "(time.Time).Format" || len(t.Args) != 2 || !t.Args[1].isStrC() || !strings.HasPrefix(t.Args[1].strVal(), "2006-01-02") {
			return false
		}
		x := t.Args[0]
		if x.Op != OCall || x.Aux != "time.Date" || len(x.Args) < 3 {
			return false
		}
		var day *Term
		x.any(func(y *Term) bool {
			if day == nil && d(p, y) {
				day = y
			}
			return day != nil
		})
		if day == nil {
			return false
		}
		bin := func(op string, a *Term, n int64) *Term { return T.mk(OBin, op, day.Typ, a, cInt(n)) }
		same := func(a, b *Term) bool { return bareNum(a) == b }
		return same(x.Args[0], bin("/", day, 10000)) && same(x.Args[1], bin("%", bin("/", day, 100), 100)) && same(x.Args[2], bin("%", day, 100))
	}
}

func bareNum(t *Term) *Term {
	for t.Op == OConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// firstPost: field of the first posting of the transaction
func firstPost(t *Term, name string) role {
	return func(p *Path, x *Term) bool {
		x = bare(x)
		if fieldOf(x) != name || len(x.Args) == 0 || len(x.Args[0].Args) == 0 {
			return false
		}
		a := x.Args[0].Args[0]
		return a.Op == OIdx && a.Args[0] == t && len(a.Args) > 1 && a.Args[1] == cInt(0)
	}
}

// structField: field of the struct value x
func structField(x *Term, name string) *Term { return getField(x, name) }

// checkFields: C18
func checkFields(r *Report) {
	checkMarshal(r, "book.Posting.MarshalJSON", func(f *ssa.Function) []fieldSpec {
		x := param(f, 0)
		return []fieldSpec{{"account", text(structField(x, "acct"))}, {"ccy", text(structField(x, "ccy"))}, {"amount", float(structField(x, "val"))}, {"note", text(structField(x, "note"))}}
	})
	checkMarshal(r, "book.Transaction.MarshalJSON", func(f *ssa.Function) []fieldSpec {
		x := param(f, 0)
		return []fieldSpec{{"date", rfcDate(firstPost(x, "date"))}, {"payee", firstPost(x, "payee")}, {"note", firstPost(x, "tnote")},
			{"posts", func(p *Path, t *Term) bool { return bareNum(t) == x }}}
	})
	source := lookup("book.PriceType.String")
	checkMarshal(r, "book.RegistryEntry.MarshalJSON", func(f *ssa.Function) []fieldSpec {
		x := param(f, 0)
		fl := func(n string) role { return float(structField(x, n)) }
		tx := func(n string) role { return text(structField(x, n)) }
		return []fieldSpec{{"date", func(p *Path, t *Term) bool { return bareNum(t) == structField(x, "Date") }},
			{"account", tx("Account")}, {"payee", tx("Payee")}, {"counterAccount", tx("CounterAccount")}, {"amount", fl("Amount")}, {"ccy", tx("CCY")},
			{"balance", fl("Balance")}, {"note", tx("Note")}, {"tnote", tx("TNote")}, {"BaseCCY", tx("BaseCCY")}, {"BaseAmount", fl("BaseAmount")},
			{"BaseSource", callOf(source, is(structField(x, "BaseSource")))}, {"BaseBalance", fl("BaseBalance")}}
	})
	checkSourceNames(r)
	checkPrintJSON(r)
	checkExportCSV(r)
	checkRegisterCSV(r)
	checkPrintCSV(r)
	checkExportType(r)
	checkScriptFields(r)
	r.atLeast("json-field", 20)
	r.atLeast("csv-field", 14)
	r.atLeast("script-field", 11)
}

// checkSourceNames: the names of where a price is from, in their order
func checkSourceNames(r *Report) {
	f := r.fn("book.PriceType.String")
	if f == nil {
		return
	}
	e := r.runFn(f, nil, Config{})
	names := map[int64]string{0: "OutOfRange", 1: "Inferred", 2: "Exact", 3: "Trade", 4: "None"}
	consts := map[string]string{"OutOfRange": "PriceTypeOutOfRange", "Inferred": "PriceTypeInferred", "Exact": "PriceTypeExact", "Trade": "PriceTypeTrade", "None": "PriceTypeNone"}
	for k, n := range names {
		v, ok := constOf("book", consts[n]).intVal()
		r.need(ok && v == k, "json-source", shortFn(f)+" "+n, f.Pos(), "the number of %s is not that of its name", n)
	}
	d := param(f, 0)
	for _, p := range e.returns() {
		if len(p.Results) != 1 {
			continue
		}
		x := p.Results[0]
		if x.isStrC() {
			ok := false
			for k, n := range names {
				ok = ok || n == x.strVal() && p.Holds(cmpT("==", d, cInt(k), d.Typ))
			}
			r.need(ok, "json-source", shortFn(f)+" "+x.strVal(), p.Pos, "the name is not that of the number")
			continue
		}
		// taken from a list
		if x.Op == OCall && x.Aux == "index" && len(x.Args) == 2 && x.Args[0].Op == OStruct && bareNum(x.Args[1]) == d {
			for k, n := range names {
				r.need(int(k) < len(x.Args[0].Args) && x.Args[0].Args[k] == cStr(n), "json-source", shortFn(f)+" "+n, p.Pos, "the name is not that of the number")
			}
			continue
		}
		ok := isLoad(x) && x.Args[0].Op == OIdx && bareNum(x.Args[0].Args[1]) == d
		for k, n := range names {
			ok = ok && p.LoadAt(p.Mem, T.mk(OIdx, x.Args[0].Aux, x.Args[0].Typ, x.Args[0].Args[0], cInt(k)), x.Typ) == cStr(n)
		}
		r.need(ok, "json-source", shortFn(f), p.Pos, "the name is not that of the number: %v", x)
	}
}

func checkPrintJSON(r *Report) {
	f := r.fn("cmd/app.BookPrinter.PrintJSON")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, asEvents("cmd/app.BookPrinter.Write"))
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		n++
		enc := p.calls(named("encoding/json.Marshal", "encoding/json.MarshalIndent"))
		w := p.calls(func(ev *Event) bool { return printedOrWritten(ev) != nil })
		ok := len(enc) == 1 && len(w) == 1 && enc[0].Args[0] == param(f, 1) && bare(printedOrWritten(w[0])) == enc[0].part(0)
		r.need(ok, "json-written", c, p.Pos, "what is written is not the encoding of what was given")
	}
	r.need(n > 0, "json-written", c, f.Pos(), "nothing is written")
	errorsHeeded(r, "json-written", f, e, nil)
}

// printedOrWritten is what an event writes, text or bytes
func printedOrWritten(ev *Event) *Term {
	if ev.Kind == "call" && len(ev.Args) == 2 && (ev.Name == "print" || ev.Fn != nil && ev.Fn.Name() == "Write" || strings.HasSuffix(ev.Name, ".Write") && !strings.Contains(ev.Name, "csv")) {
		return ev.Args[1]
	}
	return nil
}

// rowOf are the values in the row x of text
func rowOf(p *Path, mem *Mem, x *Term) (r []*Term) {
	n, ok := mkLen(x).intVal()
	et := elemType(x.Typ)
	if !ok || et == nil || n > 100 {
		return nil
	}
	for i := int64(0); i < n; i++ {
		r = append(r, loadTM(mem, p.facts, idxAddr(x, cInt(i), et), et))
	}
	return
}

// csvMode: how rows are looked at
func csvMode() Config {
	cfg, o := printMode()
	mode := cfg.Mode
	pr := lookup("cmd/app.BookPrinter.PrintCSV")
	cfg.Mode = func(g *ssa.Function) Mode {
		if g == pr || g == o.exact {
			if g == pr {
				return MEvent
			}
			return MPure
		}
		return mode(g)
	}
	return cfg
}

// csvRow: the values of the row are those the header says
func csvRow(r *Report, c string, p *Path, header, row []*Term, spec map[string]role) {
	if !r.need(len(header) == len(row) && len(row) > 0, "csv-field", c, p.Pos, "a row has %d fields, the header %d", len(row), len(header)) {
		return
	}
	for i, h := range header {
		if !r.need(h.isStrC(), "csv-field", c, p.Pos, "a name of the header is not fixed: %v", h) {
			continue
		}
		want := spec[h.strVal()]
		if want == nil {
			continue
		}
		r.need(want(p, row[i]), "csv-field", c+" "+h.strVal(), p.Pos, "the value under %q is not what it says: %v", h.strVal(), row[i])
	}
	for k := range spec {
		n := 0
		for _, h := range header {
			if h.isStrC() && h.strVal() == k {
				n++
			}
		}
		r.need(n == 1, "csv-field", c+" "+k, p.Pos, "%d columns are named %q", n, k)
	}
}

func isCSVWrite(ev *Event) bool {
	return ev.Kind == "call" && strings.HasSuffix(ev.Name, "csv.Writer).Write") && len(ev.Args) == 2
}

func checkExportCSV(r *Report) {
	f := r.fn("cmd/export.ShowCSV")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, csvMode())
	exact := lookup("cmd/app.BookPrinter.FormatExact")
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 || p.isErrOf("(*encoding/csv.Writer).Write") {
			continue
		}
		n++
		var trans *Term
		for _, ev := range p.calls(func(ev *Event) bool { return ev.is("book.Book.Transactions") }) {
			trans = ev.part(0)
		}
		if !r.need(trans != nil, "csv-all", c, p.Pos, "the transactions of the book are not written") {
			continue
		}
		spec := func(b *Path, elem *Term, ps *scan) map[string]role {
			of := func(name string) role {
				return func(p *Path, t *Term) bool {
					return firstField(b, elem, name)(p, t) || is(ps.field(p, name))(p, t)
				}
			}
			date := func(p *Path, t *Term) bool {
				return t.Op == OCall && len(t.Args) > 0 && (firstField(b, elem, "date")(p, t.Args[0]) || t.Args[0] == ps.field(p, "date")) && dateText(t.Args[0])(p, t)
			}
			q := ps.l.Backs[0]
			return map[string]role{"date": date, "payee": of("payee"), "transaction_note": of("tnote"), "account": is(ps.field(q, "acct")),
				"currency": is(ps.field(q, "ccy")), "amount": callOf(exact, nil, is(ps.field(q, "ccy")), amount(ps.field(q, "val"))), "post_note": is(ps.field(q, "note"))}
		}
		var header []*Term
		var hev *Event
		for _, ev := range p.Events() {
			if ev.Kind == "loop" && header == nil {
				break
			}
			if isCSVWrite(ev) {
				hev = ev
				header = rowOf(p, ev.Mem, ev.Args[1])
				break
			}
		}
		if !r.need(header != nil, "csv-header", c, p.Pos, "there is no header first") {
			continue
		}
		var ts *scan
		for _, l := range p.loopsOn() {
			if i, ok := p.idxScan(l, mkLen(trans)); ok {
				if s := (&scan{l, trans, i, nil}); s.forward() && l.hasEvent(isCSVWrite) {
					ts = s
				}
			}
		}
		if !r.need(ts != nil, "csv-all", c, p.Pos, "not every transaction is written, in order") {
			continue
		}
		for _, b := range ts.l.Backs {
			elem := ts.elem(b)
			var ps *scan
			for _, l := range b.innerLoops(ts.l) {
				if i, ok := b.idxScan(l, mkLen(elem)); ok {
					if s := (&scan{l, elem, i, nil}); s.forward() && l.hasEvent(isCSVWrite) {
						ps = s
					}
				}
			}
			if !r.need(ps != nil, "csv-all", c, b.Pos, "not every posting is written, in order") {
				continue
			}
			for _, q := range ps.l.Backs {
				var ws []*Event
				for _, ev := range q.in(ps.l) {
					if isCSVWrite(ev) {
						ws = append(ws, ev)
					}
				}
				if !r.need(len(ws) == 1 && ws[0].Args[0] == hev.Args[0], "csv-all", c, q.Pos, "a posting has %d rows", len(ws)) {
					continue
				}
				csvRow(r, c, q, header, rowOf(q, ws[0].Mem, ws[0].Args[1]), spec(b, elem, ps))
				r.need(q.isNil(ws[0].err()), "csv-error", c, q.Pos, "a failure to write a row goes unnoticed")
			}
		}
		csvEnd(r, c, f, p, hev.Args[0], 0)
	}
	r.need(n > 0, "csv-all", c, f.Pos(), "nothing is written")
	errorsHeeded(r, "csv-error", f, e, nil)
}

// csvEnd: the writer w gives to where parameter i says, and is flushed and asked for errors at the end
func csvEnd(r *Report, c string, f *ssa.Function, p *Path, w *Term, i int) {
	flushed, asked := false, false
	made := false
	for _, ev := range p.Events() {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Name, "csv.NewWriter"):
			made = made || ev.Res == w && unIface(ev.Args[0]) == param(f, i)
		case ev.Args[0] != w:
		case strings.HasSuffix(ev.Name, "csv.Writer).Flush"):
			flushed, asked = true, false
		case strings.HasSuffix(ev.Name, "csv.Writer).Error"):
			asked = p.isNil(ev.Res) || len(p.Results) > 0 && p.Results[len(p.Results)-1] == ev.Res
		case isCSVWrite(ev):
			flushed = false
		}
	}
	r.need(made, "csv-all", c, p.Pos, "the rows are not written to where they should be")
	r.need(flushed && asked, "csv-error", c, p.Pos, "the rows are not flushed at the end, or a failure of it goes unnoticed")
}

// hasEvent: some iteration of l, or of a loop in it, has such an event
func (l *Loop) hasEvent(f func(ev *Event) bool) bool {
	for _, b := range l.Backs {
		for _, ev := range b.in(l) {
			if f(ev) || ev.Kind == "loop" && ev.Loop != l && ev.Loop.hasEvent(f) {
				return true
			}
		}
	}
	return false
}

func checkRegisterCSV(r *Report) {
	f := r.fn("cmd/register.ShowCSV")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, csvMode())
	exact := lookup("cmd/app.BookPrinter.FormatExact")
	rep := param(f, 1)
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		n++
		evs := p.calls(func(ev *Event) bool { return ev.is("cmd/app.BookPrinter.PrintCSV") })
		if !r.need(len(evs) == 1 && evs[0].Args[0] == param(f, 0) && p.Results[0] == evs[0].part(0), "csv-all", c, p.Pos, "the rows are not printed") {
			continue
		}
		rows := evs[0].Args[1]
		var sc *scan
		for _, l := range p.loopsOn() {
			if i, ok := p.idxScan(l, mkLen(rep)); ok && l.Entry[rows] != nil {
				if s := (&scan{l, rep, i, nil}); s.forward() {
					sc = s
				}
			}
		}
		if !r.need(sc != nil, "csv-all", c, p.Pos, "not every entry is printed, in order") {
			continue
		}
		ent := sc.l.Entry[rows]
		var header []*Term
		if ent.Op == OAppend && len(ent.Args) == 2 {
			if m, ok := mkLen(ent.Args[0]).intVal(); ok && m == 0 {
				header = rowOf(p, sc.l.EntryMem, ent.Args[1])
			}
		}
		if !r.need(header != nil, "csv-header", c, p.Pos, "there is no header first") {
			continue
		}
		for _, q := range sc.l.Backs {
			nx := q.Next[rows]
			if !r.need(nx != nil && nx.Op == OAppend && nx.Args[0] == rows, "csv-all", c, q.Pos, "an entry does not have one row") {
				continue
			}
			el := sc.elem(q)
			at := func(name string) *Term {
				return q.LoadAt(sc.l.IterMem, fld(el, "book.RegistryEntry", name), fldT("book.RegistryEntry", name))
			}
			amt := func(name string) role { return callOf(exact, nil, is(at("CCY")), amount(at(name))) }
			csvRow(r, c, q, header, rowOf(q, q.Mem, nx.Args[1]), map[string]role{
				"date": dateText(at("Date")), "payee": is(at("Payee")), "account": is(at("Account")), "counterAccount": is(at("CounterAccount")),
				"ccy": is(at("CCY")), "amount": amt("Amount"), "balance": amt("Balance")})
		}
	}
	r.need(n > 0, "csv-all", c, f.Pos(), "nothing is printed")
}

func checkPrintCSV(r *Report) {
	f := r.fn("cmd/app.BookPrinter.PrintCSV")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, asEvents("cmd/app.BookPrinter.Write"))
	rows := param(f, 1)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		if all := p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "csv.Writer).WriteAll") }); len(all) == 1 {
			ok := all[0].Args[1] == rows && (p.isNil(all[0].err()) || p.Results[0] == all[0].err())
			for _, ev := range p.calls(func(ev *Event) bool { return strings.HasSuffix(ev.Name, "csv.NewWriter") }) {
				ok = ok && unIface(ev.Args[0]) == param(f, 0)
			}
			r.need(ok, "csv-all", c, p.Pos, "not every row is written, or a failure of it goes unnoticed")
			continue
		}
		var sc *scan
		for _, l := range p.loopsOn() {
			if i, ok := p.idxScan(l, mkLen(rows)); ok {
				if s := (&scan{l, rows, i, nil}); s.forward() {
					sc = s
				}
			}
		}
		if !r.need(sc != nil, "csv-all", c, p.Pos, "not every row is written, in order") {
			continue
		}
		var w *Term
		for _, q := range sc.l.Backs {
			var ws []*Event
			for _, ev := range q.in(sc.l) {
				if isCSVWrite(ev) {
					ws = append(ws, ev)
				}
			}
			if r.need(len(ws) == 1 && ws[0].Args[1] == sc.elem(q) && (w == nil || ws[0].Args[0] == w), "csv-all", c, q.Pos, "a row is not written once, as it is") {
				w = ws[0].Args[0]
			}
		}
		if w != nil {
			csvEnd(r, c, f, p, w, 0)
		}
	}
	errorsHeeded(r, "csv-error", f, e, nil)
}

// checkExportType: what is exported is in the form asked for, and it is the book
func checkExportType(r *Report) {
	f := r.fn("cmd/export.ExportReport.run")
	if f == nil {
		return
	}
	c := shortFn(f)
	e := r.runFn(f, nil, commandMode("cmd/export"))
	by := map[string]string{"Json": "PrintJSON", "Beancount": "ShowBeancount", "CSV": "ShowCSV", "Ledger": "ShowLedger"}
	typ := func(t *Term) bool { return fieldOf(t) == "Type" }
	seen := map[string]bool{}
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			continue
		}
		var shown []*Event
		var load *Event
		for _, ev := range p.calls(func(ev *Event) bool { return ev.Fn != nil }) {
			if ev.is("cmd/app.App.LoadBook") {
				load = ev
			}
			if strings.HasPrefix(ev.Fn.Name(), "Show") || strings.HasPrefix(ev.Fn.Name(), "Print") {
				shown = append(shown, ev)
			}
		}
		if retErr(p) == 0 && len(shown) == 0 {
			continue // the error of something before
		}
		if !r.need(len(shown) == 1 && load != nil, "export-type", c, p.Pos, "the book is not printed once") {
			continue
		}
		got := shown[0].Fn.Name()
		for k, want := range by {
			yes, no := false, false
			var tv *Term
			for _, ft := range p.Facts() {
				ft.Cond.any(func(x *Term) bool {
					if typ(x) {
						tv = x
					}
					return false
				})
			}
			if tv != nil {
				eq := cmpT("==", tv, cStr(k), tv.Typ)
				yes, no = p.Holds(eq), p.Not(eq)
			}
			if yes || got == want {
				seen[k] = seen[k] || got == want
			}
			if yes {
				r.need(got == want, "export-type", c+" "+k, p.Pos, "what is printed for %s is that of %s", k, got)
			} else if got == want && no {
				r.need(false, "export-type", c+" "+k, p.Pos, "%s is printed for another type", k)
			}
		}
		book := load.part(0)
		ok := false
		for _, a := range shown[0].Args {
			a = bare(a)
			if a == book {
				ok = true
			}
			for _, ev := range p.calls(func(ev *Event) bool { return ev.is("book.Book.Transactions") }) {
				ok = ok || a == ev.part(0) && ev.Args[0] == book
			}
		}
		r.need(ok, "export-type", c, p.Pos, "what is printed is not the book loaded")
		ops := p.calls(func(ev *Event) bool { return ev.is("cmd/app.App.BookOps") })
		r.need(len(ops) == 1 && ops[0].Args[1] == book, "export-type", c, p.Pos, "the operations are not carried out on the book once")
	}
	for k := range by {
		r.need(seen[k], "export-type", c+" "+k, f.Pos(), "nothing is printed for %s", k)
	}
}

// checkScriptFields: what a script sees of a book
func checkScriptFields(r *Report) {
	pos := func(f *ssa.Function) map[string]role {
		x := param(f, 0)
		tx := func(n string) role { return text(structField(x, n)) }
		return map[string]role{"date": func(p *Path, t *Term) bool { return dateText(structField(x, "date"))(p, bare(t)) }, "payee": tx("payee"), "account": tx("acct"),
			"transaction_note": tx("tnote"), "amount": float(structField(x, "val")), "ccy": tx("ccy"), "posting_note": tx("note"), "balance": float(structField(x, "bal"))}
	}
	tr := func(f *ssa.Function) map[string]role {
		x := param(f, 0)
		date := func(p *Path, t *Term) bool {
			t = bare(t)
			return t.Op == OCall && len(t.Args) == 1 && firstPost(x, "date")(p, t.Args[0]) && dateText(t.Args[0])(p, t)
		}
		return map[string]role{"date": date, "payee": firstPost(x, "payee"), "transaction_note": firstPost(x, "tnote")}
	}
	for n, spec := range map[string]func(f *ssa.Function) map[string]role{"script.starlarkPosting": pos, "script.starlarkTransaction": tr} {
		f := r.fn(n + ".Attr")
		if f == nil {
			continue
		}
		c := shortFn(f)
		str := lookup("book.Date.String")
		e := r.runFn(f, nil, Config{Mode: func(g *ssa.Function) Mode {
			if g == str {
				return MPure
			}
			return MInline
		}})
		name := param(f, 1)
		want := spec(f)
		got := map[string]bool{}
		for _, p := range e.returns() {
			if len(p.Results) != 2 || p.isNil(p.Results[0]) || retErr(p) == 1 {
				continue
			}
			k := ""
			for w := range want {
				if p.Holds(cmpT("==", name, cStr(w), name.Typ)) {
					k = w
				}
			}
			if k == "" {
				continue // another name
			}
			got[k] = true
			r.need(want[k](p, p.Results[0]), "script-field", c+" "+k, p.Pos, "the value of %q is not what it says: %v", k, p.Results[0])
		}
		for k := range want {
			r.need(got[k], "script-field", c+" "+k, f.Pos(), "%q has no value", k)
		}
		// the names listed have values
		if a := r.fn(n + ".AttrNames"); a != nil {
			for _, p := range r.runFn(a, nil, Config{}).returns() {
				row := rowOf(p, p.Mem, p.Results[0])
				for k := range want {
					in := false
					for _, t := range row {
						in = in || t == cStr(k)
					}
					r.need(in, "script-field", c+" "+k, p.Pos, "%q is not listed", k)
				}
			}
		}
	}
	for _, n := range []string{"script.starlarkTransaction", "script.starlarkTransactions"} {
		if f := r.fn(n + ".Index"); f != nil {
			s, i := param(f, 0), param(f, 1)
			for _, p := range r.runFn(f, nil, Config{}).returns() {
				x := bareNum(unIface(p.Results[0]))
				et := elemType(s.Typ)
				r.need(et != nil && sameValue(x, p.LoadAt(nil, idxAddr(s, i, et), et)), "script-index", shortFn(f), p.Pos, "it is not the element asked for: %v", x)
			}
		}
		if f := r.fn(n + ".Len"); f != nil {
			for _, p := range r.runFn(f, nil, Config{}).returns() {
				r.need(p.Results[0] == mkLen(param(f, 0)), "script-index", shortFn(f), p.Pos, "the length is not that of the list")
			}
		}
		if f := r.fn(n + ".Iterate"); f != nil {
			for _, p := range r.runFn(f, nil, Config{}).returns() {
				it := unIface(p.Results[0])
				ok := bareNum(unIface(p.Load(fld(it, "script.starlarkIterator", "Indexable"), fldT("script.starlarkIterator", "Indexable")))) == param(f, 0) &&
					p.Load(fld(it, "script.starlarkIterator", "i"), fldT("script.starlarkIterator", "i")) == cInt(0)
				r.need(ok, "script-index", shortFn(f), p.Pos, "it does not start with the first of the list")
			}
		}
	}
	if f := r.fn("script.starlarkIterator.Next"); f != nil {
		c := shortFn(f)
		it := param(f, 0)
		at, atT := fld(it, "script.starlarkIterator", "i"), fldT("script.starlarkIterator", "i")
		n := 0
		for _, p := range r.runFn(f, nil, Config{}).returns() {
			i := p.LoadAt(nil, at, atT)
			list := p.LoadAt(nil, fld(it, "script.starlarkIterator", "Indexable"), fldT("script.starlarkIterator", "Indexable"))
			of := func(t *Term, name string) bool {
				return t.Op == OCall && strings.HasSuffix(t.Aux, ")."+name) && len(t.Args) > 0 && t.Args[0] == list
			}
			var size *Term
			for _, ft := range p.Facts() {
				ft.Cond.any(func(x *Term) bool {
					if of(x, "Len") {
						size = x
					}
					return false
				})
			}
			if !r.need(size != nil, "script-next", c, p.Pos, "the end is not looked for") {
				continue
			}
			if p.Results[0].isFalse() {
				r.need((p.Not(cmp0("<", nSub(i, size))) || p.Holds(cmpT("==", i, size, atT))), "script-next", c, p.Pos, "it ends before the end")
				continue
			}
			n++
			before := p.Not(cmpT("==", i, size, atT)) || p.Holds(cmp0("<", nSub(i, size)))
			el := p.Load(param(f, 1), nil)
			ok := before && p.Results[0].isTrue() && of(el, "Index") && el.Args[1] == i && p.Load(at, atT) == nAdd(i, cInt(1))
			r.need(ok, "script-next", c, p.Pos, "it does not give the next element and go on by one")
		}
		r.need(n > 0, "script-next", c, f.Pos(), "it never goes on")
	}
	if f := r.fn("script.starlarkBook.Attr"); f != nil {
		name := param(f, 1)
		n := 0
		for _, p := range r.runFn(f, nil, asEvents("book.Book.Transactions")).returns() {
			if !p.Holds(cmpT("==", name, cStr("transactions"), name.Typ)) {
				continue
			}
			n++
			ok := false
			for _, ev := range p.calls(func(ev *Event) bool { return ev.is("book.Book.Transactions") }) {
				ok = ok || bare(p.Results[0]) == ev.part(0) && fieldOf(ev.Args[0]) == "b"
			}
			r.need(ok, "script-book", shortFn(f), p.Pos, "it does not give the transactions of the book")
		}
		r.need(n > 0, "script-book", shortFn(f), f.Pos(), "it does not give the transactions")
	}
	if f := r.fn("script.ConvertBookToStarlark"); f != nil {
		for _, p := range r.runFn(f, nil, Config{}).returns() {
			r.need(p.Load(fld(unIface(p.Results[0]), "script.starlarkBook", "b"), fldT("script.starlarkBook", "b")) == param(f, 0), "script-book", shortFn(f), p.Pos, "it is not the book given")
		}
	}
}

// sameValue: x is the struct value y, as a whole or put together from its fields
func sameValue(x, y *Term) bool {
	if x == y {
		return true
	}
	if x.Op == OStruct && y.Op == OStruct && len(x.Args) == len(y.Args) {
		for i := range x.Args {
			if x.Args[i] != y.Args[i] {
				return false
			}
		}
		return true
	}
	return false
}
