package main

// Imported data: read whole, as it is, each file given.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ifaceOf: t is a value of the named type of the scripting language made of x
func ifaceOf(t *Term, typ string) (*Term, bool) {
	if t == nil || t.Op != OIface || len(t.Args) != 1 || !strings.HasSuffix(t.Aux, "starlark."+typ) {
		return nil, false
	}
	x := t.Args[0]
	for x.Op == OConv && len(x.Args) == 1 {
		x = x.Args[0]
	}
	return x, true
}

func isNone(p *Path, t *Term) bool {
	if t.Op == OIface && strings.HasSuffix(t.Aux, "starlark.NoneType") || asserted(p, t, "NoneType") != nil {
		return true
	}
	for _, f := range p.Facts() {
		c := f.Cond
		if !f.Val || !c.contains(t) {
			continue
		}
		if c.Op == OEq && (c.Args[0] == t && isNoneIface(c.Args[1]) || c.Args[1] == t && isNoneIface(c.Args[0])) {
			return true
		}
		// the types compared by name
		n, v := false, false
		c.any(func(x *Term) bool {
			if strings.HasSuffix(x.name(), "starlark.NoneType).Type") {
				n = true
			}
			if strings.HasSuffix(x.name(), "starlark.Value).Type") && len(x.Args) == 1 && x.Args[0] == t {
				v = true
			}
			return false
		})
		if c.Op == OCmp && c.Aux == "=" && n && v {
			return true
		}
	}
	return false
}

func isNoneIface(t *Term) bool {
	return t.Op == OIface && strings.HasSuffix(t.Aux, "starlark.NoneType")
}

// checkImport: C22
func checkImport(r *Report) {
	rj := r.fn("script.ReadJSON")
	gc := r.fn("script.GetReadCSV")
	nc := r.fn("cmd/importer.NewCSVBookImporter")
	run := r.fn("cmd/importer.ImportDef.run")
	pd := r.fn("cmd/importer.ImportDef.processData")
	nb := r.fn("cmd/importer.NewBookImporterByConfig")
	if rj == nil || gc == nil || nc == nil || run == nil || pd == nil || nb == nil {
		return
	}
	checkReadJSON(r, rj)
	checkReadCSV(r, gc, nc)
	checkImportRun(r, run, pd, nb)
	// which reader is used
	c := shortFn(nb)
	e := r.runFn(nb, nil, Config{Mode: func(f *ssa.Function) Mode {
		if f == rj || f == nc {
			return MEvent
		}
		return MInline
	}})
	errorsHeeded(r, "import-error", nb, e, nil)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			csv, json := settingIs(p, "ConfigType", "csv"), settingIs(p, "ConfigType", "json")
			r.need(failedCall(p) || csv == -1 && json == -1, "import-refused", c, p.Pos, "an import is refused although it is of a kind there is")
			continue
		}
		x := p.Results[0]
		csv := settingIs(p, "ConfigType", "csv")
		json := settingIs(p, "ConfigType", "json")
		isJ := x.Op == OClosure && x.Fn == rj || strings.Contains(x.Aux, rj.String())
		isC := false
		for _, ev := range p.Events() {
			if ev.Kind == "call" && ev.Fn == nc && ev.part(0) == x {
				isC = true
			}
		}
		r.need(isJ && json == 1 || isC && csv == 1, "import-format", c, p.Pos, "the data is not read in the format asked for: %v", x)
	}
	r.atLeast("import-format", 2)
}

func checkReadJSON(r *Report, rj *ssa.Function) {
	// what turns a value into one of the scripting language calls itself
	var conv *ssa.Function
	for g := range reach(rj) {
		s := g.Signature
		if inRepo(g) && g.Synthetic == "" && s.Params().Len() == 1 && types.IsInterface(s.Params().At(0).Type()) && s.Results().Len() == 2 && strings.HasSuffix(s.Results().At(0).Type().String(), "starlark.Value") && g != rj && !strings.HasSuffix(s.Params().At(0).Type().String(), "io.Reader") {
			conv = g
		}
	}
	if !r.need(conv != nil, "anchor", shortFn(rj), rj.Pos(), "no function found that turns a JSON value into one of the scripting language") {
		return
	}
	ev := func(f *ssa.Function) Mode {
		if f == conv {
			return MEvent
		}
		return MInline
	}
	e := r.runFn(rj, nil, Config{Mode: ev})
	c := shortFn(rj)
	in := param(rj, 0)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			bad := failedPure(p, nil)
			for _, ev := range p.Events() {
				if ev.Kind == "call" && ev.err() != nil {
					bad = bad || p.notNil(ev.err()) && !atEOF(p, ev.err())
					if strings.HasSuffix(ev.Name, "json.Decoder).Token") {
						bad = bad || p.isNil(ev.err())
						for _, f := range p.Facts() {
							if x := f.Cond; !f.Val && x.Op == OEq && x.contains(ev.err()) && (isEOF(x.Args[0]) || isEOF(x.Args[1])) {
								bad = true
							}
						}
					}
					// another one could be read
					if d := filterCalls(p.Events(), func(x *Event) bool { return x.Kind == "call" && strings.HasSuffix(x.Name, "json.Decoder).Decode") }); len(d) > 1 && d[1] == ev {
						bad = bad || p.isNil(ev.err())
					}
				}
			}
			r.need(bad, "json-refused", c, p.Pos, "a file is refused although it is one JSON structure")
			continue
		}
		var cell, val *Term
		whole := false
		var decs []*Event
		for _, ev := range p.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "json.Decoder).Decode"):
				decs = append(decs, ev)
				if len(decs) == 1 {
					cell = unIface(ev.Args[1])
					r.need(p.isNil(ev.err()), "json-error", c, ev.Pos, "what is not JSON is not an error")
					var made *Event
					for _, x := range p.calls(named("encoding/json.NewDecoder")) {
						if x.part(0) == ev.Args[0] {
							made = x
						}
					}
					r.need(made != nil && unIface(made.Args[0]) == unIface(in), "json-source", c, ev.Pos, "it is not the file that is read")
				} else if atEOF(p, ev.err()) {
					whole = true
				}
			case strings.HasSuffix(ev.Name, "json.Decoder).Token") && len(decs) > 0:
				if atEOF(p, ev.err()) {
					whole = true
				}
			case strings.HasSuffix(ev.Name, "encoding/json.Unmarshal"):
				decs = append(decs, ev)
				cell = unIface(ev.Args[1])
				r.need(p.isNil(ev.err()), "json-error", c, ev.Pos, "what is not JSON is not an error")
				all := false
				for _, x := range p.Events() {
					if x.Kind == "call" && (strings.HasSuffix(x.Name, "io.ReadAll") || strings.HasSuffix(x.Name, "ioutil.ReadAll")) && x.part(0) == ev.Args[0] && unIface(x.Args[0]) == unIface(in) && p.isNil(x.err()) {
						all = true
					}
				}
				r.need(all, "json-source", c, ev.Pos, "it is not the whole file that is read")
				whole = all
			case ev.Fn == conv:
				val = ev.part(0)
				r.need(p.isNil(ev.err()), "json-error", c, ev.Pos, "a value that cannot be turned into one of the scripting language is not an error")
				got := cell != nil && ev.Args[0] == loadTM(ev.Mem, p.facts, cell, deref(cell.Typ))
				r.need(got, "json-value", c, ev.Pos, "it is not the value read that is given to the code: %v", ev.Args[0])
			}
		}
		r.need(whole, "json-whole", c, p.Pos, "what follows the structure is passed over")
		r.need(val != nil && p.Results[0] == val, "json-value", c, p.Pos, "it is not the value read that is given to the code")
	}
	r.atLeast("json-whole", 1)

	// one value
	c = shortFn(conv)
	v := param(conv, 0)
	e = r.runFn(conv, nil, Config{Mode: ev})
	errorsHeeded(r, "json-error", conv, e, nil)
	kinds := map[string]bool{}
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			kinds := 0
			for _, f := range p.Facts() {
				if !f.Val && f.Cond.Op == OTAssertOK && f.Cond.Args[0] == v {
					kinds++
				}
			}
			r.need(failedCall(p) || kinds >= 5 && !p.isNil(v), "json-refused", c, p.Pos, "a JSON value is refused although it is of a kind there is")
			continue
		}
		x := p.Results[0]
		if p.isNil(v) {
			r.need(isNoneIface(x), "json-kind", c+" null", p.Pos, "null is not None: %v", x)
			kinds["null"] = true
			continue
		}
		kind := ""
		for _, f := range p.Facts() {
			if f.Val && f.Cond.Op == OTAssertOK && f.Cond.Args[0] == v {
				kind = f.Cond.Aux
			}
		}
		kinds[kind] = true
		switch kind {
		case "bool", "float64", "string":
			n := map[string]string{"bool": "Bool", "float64": "Float", "string": "String"}[kind]
			y, ok := ifaceOf(x, n)
			r.need(ok && y.Op == OTAssert && y.Args[0] == v, "json-kind", c+" "+kind, p.Pos, "a %s does not stay as it is: %v", kind, x)
		case "[]interface{}", "[]any":
			src := T.mk(OTAssert, kind, nil, v)
			l := listMade(p, x)
			if !r.need(l != nil, "json-kind", c+" list", p.Pos, "a list does not become a list: %v", x) {
				continue
			}
			b := p.builtFrom(l, src)
			if !r.need(b != nil && b.sc.forward(), "json-list", c, p.Pos, "not every element of a list is taken, in order") {
				continue
			}
			for bk, el := range b.elems {
				ok := false
				for _, ev := range bk.in(b.sc.l) {
					if ev.Kind == "call" && ev.Fn == conv && ev.Args[0] == b.sc.elem(bk) && el == ev.part(0) {
						ok = true
					}
				}
				r.need(ok, "json-list", c, bk.Pos, "an element of a list is not its own value: %v", el)
			}
		case "map[string]interface{}", "map[string]any":
			src := T.mk(OTAssert, kind, nil, v)
			d, ok := ifaceOf(x, "Dict")
			if !r.need(ok, "json-kind", c+" dict", p.Pos, "a dictionary does not become a dictionary: %v", x) {
				continue
			}
			r.need(madeBy(p, d, "starlark.NewDict"), "json-dict", c, p.Pos, "the dictionary is not a new one")
			var sc *scan
			for _, l := range p.loopsOn() {
				sets := false
				for _, b := range l.Backs {
					sets = sets || len(filterCalls(b.in(l), named("starlark.Dict).SetKey"))) > 0 || hasSuffixCall(b.in(l), "Dict).SetKey")
				}
				if !sets {
					continue
				}
				if k, ok := p.mapScan(l, src); ok {
					sc = &scan{l, src, nil, k}
				}
				for _, s := range p.scans(l) {
					s := s
					if s.idx == nil {
						continue
					}
					if b := p.builtFrom(s.over, src); b != nil && len(b.elems) > 0 {
						all := true
						for _, el := range b.elems {
							all = all && el == b.sc.key
						}
						if all {
							sc = &s
						}
					}
				}
			}
			if !r.need(sc != nil, "json-dict", c, p.Pos, "not every entry of a dictionary is taken") {
				continue
			}
			mt, et := mapOf(src)
			for _, b := range sc.l.Backs {
				key := sc.key
				if key == nil {
					key = sc.elem(b)
				}
				val := b.LoadAt(sc.l.IterMem, mapEnt(src, key, mt), et)
				var got *Term
				var set *Event
				for _, ev := range b.in(sc.l) {
					if ev.Kind != "call" {
						continue
					}
					if ev.Fn == conv && ev.Args[0] == val {
						got = ev.part(0)
					}
					if strings.HasSuffix(ev.Name, "starlark.Dict).SetKey") {
						r.need(set == nil, "json-dict", c, ev.Pos, "an entry is put in twice")
						set = ev
					}
				}
				if !r.need(got != nil, "json-dict", c, b.Pos, "an entry of a dictionary is passed over") {
					continue
				}
				if set == nil {
					r.need(isNone(b, got), "json-dict", c, b.Pos, "an entry of a dictionary is passed over although it is not null")
					continue
				}
				k, ok := ifaceOf(set.Args[1], "String")
				r.need(set.Args[0] == d && ok && k == key && set.Args[2] == got, "json-dict", c, set.Pos, "an entry does not keep its name and value: %v %v", set.Args[1], set.Args[2])
			}
		default:
			r.need(false, "json-kind", c, p.Pos, "a value of some other kind is taken without an error")
		}
	}
	r.need(len(kinds) >= 6, "json-kind", c, conv.Pos(), "some kind of JSON value is not read: %d of 6 are", len(kinds))
	r.atLeast("json-kind", 6)
}

func hasSuffixCall(evs []*Event, s string) bool {
	for _, ev := range evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, s) {
			return true
		}
	}
	return false
}

// atEOF: the error is known to be that of the end of the file
func atEOF(p *Path, err *Term) bool {
	if err == nil {
		return false
	}
	for _, f := range p.Facts() {
		c := f.Cond
		if !f.Val || !c.contains(err) {
			continue
		}
		if c.Op == OEq && (isEOF(c.Args[0]) || isEOF(c.Args[1])) {
			return true
		}
		if c.Op == OCall && strings.HasSuffix(c.name(), "errors.Is") && isEOF(c.Args[1]) {
			return true
		}
	}
	return false
}

func isEOF(t *Term) bool {
	r := false
	t.any(func(x *Term) bool {
		if x.Op == OGlobal && strings.HasSuffix(x.Aux, "io.EOF") || strings.HasSuffix(x.Aux, "val:io.EOF") {
			r = true
		}
		return false
	})
	return r
}

// listMade is the Go list that a list of the scripting language was made of
func listMade(p *Path, x *Term) *Term {
	d, ok := ifaceOf(x, "List")
	if !ok {
		return nil
	}
	for _, ev := range p.Events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "starlark.NewList") && ev.part(0) == d {
			return ev.Args[0]
		}
	}
	return nil
}

func madeBy(p *Path, t *Term, name string) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, name) && ev.part(0) == t {
			return true
		}
	}
	return false
}

func checkReadCSV(r *Report, gc, nc *ssa.Function) {
	// the settings
	c := shortFn(nc)
	e := r.runFn(nc, nil, Config{Mode: func(f *ssa.Function) Mode {
		if f == gc || strings.Contains(f.Name(), "Default") {
			return MEvent
		}
		return MInline
	}})
	errorsHeeded(r, "csv-settings", nc, e, nil)
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			odd := false
			for _, f := range p.Facts() {
				f.Cond.any(func(x *Term) bool {
					if x.Op == OLen && x.Args[0].Op == OConv || x.Op == OCall && strings.HasSuffix(x.name(), "RuneCountInString") {
						odd = odd || p.Not(cmp0("=", nSub(x, cInt(1))))
					}
					return false
				})
			}
			r.need(failedCall(p) || odd, "csv-refused", c, p.Pos, "the settings are refused although nothing is known to be wrong with them")
			continue
		}
		var delim, header *Term
		for _, ev := range p.Events() {
			if ev.Kind != "call" || ev.Fn == nil {
				continue
			}
			if ev.Fn.Name() == "GetStringDefault" && len(ev.Args) == 3 && ev.Args[1] == cStr("delim") {
				delim = ev.part(0)
				r.need(ev.Args[2] == cStr(","), "csv-settings", c, ev.Pos, "fields are not between commas when nothing else is asked for")
			}
			if ev.Fn.Name() == "GetBoolDefault" && len(ev.Args) == 3 && ev.Args[1] == cStr("header") {
				header = ev.part(0)
				r.need(ev.Args[2].isFalse(), "csv-settings", c, ev.Pos, "there is a header when none is asked for")
			}
			if ev.Fn == gc {
				r.need(delim != nil && ev.Args[0] == delim && header != nil && ev.Args[1] == header, "csv-settings", c, ev.Pos, "the settings are not the ones asked for")
				one := false
				for _, f := range p.Facts() {
					f.Cond.any(func(x *Term) bool {
						if x.Op == OLen && x.Args[0].Op == OConv && x.Args[0].Args[0] == delim && p.Holds(cmp0("=", nSub(x, cInt(1)))) || x.Op == OCall && strings.HasSuffix(x.name(), "RuneCountInString") && x.Args[0] == delim && p.Holds(cmp0("=", nSub(x, cInt(1)))) {
							one = true
						}
						return false
					})
				}
				r.need(one, "csv-settings", c, ev.Pos, "what separates fields may be other than one character")
				r.need(p.Results[0] == ev.part(0), "csv-settings", c, p.Pos, "the file is read in some other way")
			}
		}
	}
	r.atLeast("csv-settings", 4)

	// the reading
	oe := r.runFn(gc, nil, Config{})
	for _, op := range oe.returns() {
		cl := op.Results[0]
		if !r.need(cl.Op == OClosure && cl.Fn != nil, "undecided", shortFn(gc), op.Pos, "what reads the file is not known: %v", cl) {
			continue
		}
		var delim, header *Term
		for i, q := range gc.Params {
			if isStringT(q.Type()) {
				delim = param(gc, i)
			} else if isBoolT(q.Type()) {
				header = param(gc, i)
			}
		}
		if !r.need(delim != nil && header != nil, "anchor", shortFn(gc), gc.Pos(), "settings not found") {
			continue
		}
		e := AnalyseFrom(cl.Fn, nil, cl.Args, op.Mem, nil, Config{})
		r.took(e, cl.Fn)
		checkCSV(r, cl.Fn, e, delim, header)
	}
}

func checkCSV(r *Report, f *ssa.Function, e *Engine, delim, header *Term) {
	c := shortFn(f)
	errorsHeeded(r, "csv-error", f, e, nil)
	kinds := map[bool]bool{}
	for _, p := range e.Paths {
		if p.Kind == "panic" {
			r.need(false, "csv-error", c, p.Pos, "reading can panic")
		}
	}
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			more := false
			for _, f := range p.Facts() {
				f.Cond.any(func(x *Term) bool {
					for _, ev := range p.Events() {
						if ev.Kind == "call" && strings.HasSuffix(ev.Name, "csv.Reader).Read") && x.Op == OLen && isLoad(x.Args[0]) {
							more = more || p.Holds(cmp0(">", nSub(x, mkLen(ev.part(0)))))
						}
					}
					return false
				})
			}
			r.need(failedCall(p) || more, "csv-refused", c, p.Pos, "a file is refused although nothing is known to be wrong with it")
			continue
		}
		var rd *Event
		var all, hdr *Event
		for _, ev := range p.Events() {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, "encoding/csv.NewReader"):
				rd = ev
				r.need(unIface(ev.Args[0]) == unIface(param(f, 0)), "csv-source", c, ev.Pos, "it is not the file that is read")
			case strings.HasSuffix(ev.Name, "csv.Reader).ReadAll"):
				r.need(all == nil, "csv-rows", c, ev.Pos, "rows are read twice")
				all = ev
			case strings.HasSuffix(ev.Name, "csv.Reader).Read"):
				r.need(hdr == nil && all == nil, "csv-rows", c, ev.Pos, "a row is read and not taken")
				hdr = ev
			}
		}
		if !r.need(rd != nil && all != nil && all.Args[0] == rd.part(0), "csv-rows", c, p.Pos, "not all the rows are read") {
			continue
		}
		// how rows are read
		comma := false
		for m := p.Mem; m != nil; m = m.prev {
			if m.kind != mWrite || m.addr.Op != OFld || m.addr.Args[0] != rd.part(0) {
				continue
			}
			n := m.addr.name()
			switch n = n[strings.LastIndexByte(n, '.')+1:]; n {
			case "Comma":
				comma = true
				r.need(m.val.contains(delim), "csv-comma", c, rd.Pos, "fields are not separated by what was asked for: %v", m.val)
			case "TrimLeadingSpace", "ReuseRecord":
			default:
				r.need(false, "csv-strict", c+" "+n, rd.Pos, "the setting %s of the reader lets rows that are not proper pass, or passes over them", n)
			}
		}
		r.need(comma, "csv-comma", c, rd.Pos, "fields are not separated by what was asked for")
		h := p.Holds(header)
		r.need(h || p.Not(header), "csv-header", c, p.Pos, "whether there is a header is not asked")
		r.need(h == (hdr != nil), "csv-header", c, p.Pos, "the header is not read, or the first row is taken for one")
		kinds[h] = true
		recs := all.part(0)
		l := listMade(p, p.Results[0])
		if !r.need(l != nil, "csv-rows", c, p.Pos, "what is given is not a list of the rows: %v", p.Results[0]) {
			continue
		}
		b := p.builtFrom(l, recs)
		if !r.need(b != nil && b.sc.forward(), "csv-rows", c, p.Pos, "not every row is taken, in order") {
			continue
		}
		for bk, el := range b.elems {
			rec := b.sc.elem(bk)
			if el == nil {
				r.need(false, "csv-rows", c, bk.Pos, "a row is passed over")
				continue
			}
			if !h {
				fl := listMade(bk, el)
				if !r.need(fl != nil, "csv-fields", c, bk.Pos, "a row is not a list of its fields: %v", el) {
					continue
				}
				fb := bk.builtFrom(fl, rec)
				if !r.need(fb != nil && fb.sc.forward(), "csv-fields", c, bk.Pos, "not every field of a row is taken, in order") {
					continue
				}
				for fk, x := range fb.elems {
					y, ok := ifaceOf(x, "String")
					r.need(ok && y == fb.sc.elem(fk), "csv-fields", c, fk.Pos, "a field is not its text: %v", x)
				}
				continue
			}
			d, ok := ifaceOf(el, "Dict")
			if !r.need(ok && madeBy(bk, d, "starlark.NewDict"), "csv-fields", c, bk.Pos, "a row is not a dictionary of its fields: %v", el) {
				continue
			}
			fs := bk.scanIn(b.sc.l, rec)
			if !r.need(fs != nil && fs.idx != nil, "csv-fields", c, bk.Pos, "not every field of a row is taken") {
				continue
			}
			for _, fk := range fs.l.Backs {
				sets := filterCalls(fk.in(fs.l), func(ev *Event) bool { return strings.HasSuffix(ev.Name, "starlark.Dict).SetKey") })
				if !r.need(len(sets) == 1, "csv-fields", c, fk.Pos, "a field of a row is passed over or put in twice") {
					continue
				}
				k, ok1 := ifaceOf(sets[0].Args[1], "String")
				v, ok2 := ifaceOf(sets[0].Args[2], "String")
				names := hdr.part(0)
				at := fk.LoadAt(sets[0].Mem, idxAddr(names, fs.idx, elemType(names.Typ)), elemType(names.Typ))
				r.need(ok1 && ok2 && sets[0].Args[0] == d && k == at && v == fs.elem(fk), "csv-fields", c, sets[0].Pos, "a field is not under the name in its place of the header: %v %v", sets[0].Args[1], sets[0].Args[2])
				r.need(fk.Holds(cmp0("<", nSub(fs.idx, mkLen(names)))), "csv-header", c, sets[0].Pos, "a row can have more fields than the header")
			}
		}
	}
	r.need(kinds[true] && kinds[false], "csv-header", c, f.Pos(), "data with a header, or without one, is never read")
	r.atLeast("csv-fields", 2)
}

// scanIn: the loop inside l, left on b, that goes over every element of what
func (b *Path) scanIn(l *Loop, what *Term) *scan {
	for _, x := range b.innerLoops(l) {
		if i, ok := b.idxScan(x, mkLen(what)); ok {
			return &scan{x, what, i, nil}
		}
	}
	return nil
}

func checkImportRun(r *Report, run, pd, nb *ssa.Function) {
	c := shortFn(run)
	pkg := relPkg(pkgOf(run))
	e := r.runFn(run, nil, Config{Mode: func(f *ssa.Function) Mode {
		if f != pd && f != nb && relPkg(pkgOf(f)) == pkg {
			return MInline
		}
		return MEvent
	}})
	errorsHeeded(r, "import-error", run, e, nil)
	var args *Term
	for i, q := range run.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok && isStringT(s.Elem()) {
			args = param(run, i)
		}
	}
	if !r.need(args != nil, "anchor", c, run.Pos(), "the files to import are not found") {
		return
	}
	n := 0
	for _, p := range e.returns() {
		if retErr(p) == 1 {
			r.need(failedCall(p), "import-refused", c, p.Pos, "an import is refused although nothing failed")
			continue
		}
		s := p.scanOf(args)
		if !r.need(s != nil && s.forward(), "import-every", c, p.Pos, "not every file given is imported, in order") {
			continue
		}
		for _, b := range s.l.Backs {
			n++
			name := s.elem(b)
			var open, read, conv, show, tr *Event
			for _, ev := range b.in(s.l) {
				if ev.Kind != "call" {
					continue
				}
				switch {
				case strings.HasSuffix(ev.Name, "os.Open"):
					open = ev
				case ev.Fn == nil && ev.Name == "dynamic" || ev.Fn == nil && len(ev.Args) == 2 && strings.Contains(ev.Name, "dynamic"):
					if ev.Args[0] != nil && madeByFn(b, ev.Args[0], nb) {
						read = ev
					}
				case ev.Fn == pd:
					conv = ev
				case ev.is("book.Book.Transactions"):
					tr = ev
				case ev.is("cmd/reports.ShowLedger"):
					show = ev
				}
			}
			if !r.need(read != nil && conv != nil && show != nil && tr != nil, "import-steps", c, b.Pos, "a file is passed over: it is not read, turned into postings and listed") {
				continue
			}
			src := unIface(read.Args[1])
			std := !(open != nil && src == open.part(0))
			dash := cmp0("=", nSub(name, cStr("-")))
			if std {
				isIn := false
				src.any(func(x *Term) bool {
					if x.Op == OGlobal && strings.HasSuffix(x.Aux, "os.Stdin") {
						isIn = true
					}
					return false
				})
				r.need(isIn && b.Holds(dash), "import-source", c, read.Pos, "it is not the file given that is read: %v", src)
			} else {
				r.need(open.Args[0] == name, "import-source", c, open.Pos, "it is not the file given that is opened: %v", open.Args[0])
			}
			dataIn := false
			for _, a := range conv.Args {
				dataIn = dataIn || a == read.part(0)
			}
			r.need(dataIn, "import-data", c, conv.Pos, "it is not the data read that is turned into postings")
			code := false
			for _, a := range conv.Args {
				code = code || fieldOf(a) == "Code"
			}
			r.need(code, "import-data", c, conv.Pos, "it is not the code given that turns the data into postings")
			r.need(tr.Args[0] == conv.part(0) && show.Args[len(show.Args)-1] == tr.part(0), "import-shown", c, show.Pos, "what is listed is not what was imported")
		}
	}
	r.need(n > 0, "import-every", c, run.Pos(), "no file is imported")
	r.atLeast("import-source", 2)
}

func madeByFn(p *Path, t *Term, f *ssa.Function) bool {
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.Fn == f && ev.part(0) == t {
			return true
		}
	}
	return false
}
