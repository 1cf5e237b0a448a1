package main

// C32: what only reads a book leaves it as it was, and a copy of a book shares nothing that is
// changed with it; scripts that generate get a copy.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// what reads a book, or what was taken from one
var bookReaders = []string{
	"book.Book.Transactions", "book.Book.GetPrice", "book.Book.GetPricePairs", "book.Book.GetPriceList", "book.Book.GetCCYDecimals",
	"book.Book.Accounts", "book.Book.Accumulate", "book.Book.ExtractRegister", "book.Book.Duplicate",
	"cmd/reports.ShowLedger", "cmd/reports.ShowTransactions", "cmd/reports.ShowHTMLTransactions", "cmd/reports.ShowBeancount",
	"cmd/export.ShowLedger", "cmd/export.ShowCSV", "cmd/export.ShowBeancount",
	"cmd/register.ShowReport",
}

// bookClasses are those of the places the function changes that may be of a book
func bookClasses(ef *effects) (r []string) {
	seen := map[string]bool{}
	add := func(m map[string]bool) {
		for k := range m {
			mine := k == "num" || strings.HasPrefix(k, "f:book.") || strings.Contains(k, modPath+"/book.") || strings.HasPrefix(k, "m:map[string]int")
			if mine && !seen[k] {
				seen[k] = true
				r = append(r, k)
			}
		}
	}
	add(ef.classes)
	for _, m := range ef.params {
		add(m)
	}
	sort.Strings(r)
	return
}

// ownOnly: nothing is written but what was made on the way
func ownOnly(p *Path, deep bool) *Mem {
	for _, w := range p.writesSince(nil) {
		a := w.addr
		if a.Op == ONumLoc {
			a = a.Args[0]
			if isLoad(a) {
				a = a.Args[0]
			}
		}
		x := rootObj(a)
		for deep && isLoad(x) && len(x.Args) > 0 { // what new objects hold is new, too
			x = rootObj(x.Args[0])
		}
		if !isNew(x) && !made(x, 0) {
			return w
		}
	}
	return nil
}

// pureBasic: the function changes nothing and gives strings, numbers and truth values
func pureBasic(f *ssa.Function, ef *effects) bool {
	if !inRepo(f) || ef == nil || ef.unknown || len(ef.classes) > 0 || len(ef.params) > 0 || f.Signature.Results().Len() == 0 {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// checkCopies: C32
func checkCopies(r *Report) {
	compact := lookup(compactEv)
	if !r.need(compact != nil, "anchor", "compact", 0, "the compaction of the book is not there") {
		return
	}
	sums := map[*ssa.Function]*effects{}
	summariseBut(sums, compact)
	infer, price, amounts := lookup("book.Transaction.InferRate"), lookup("book.Book.GetPrice"), lookup("book.Book.MapAmount")
	cfg := func() Config {
		return Config{Mode: func(g *ssa.Function) Mode {
			switch {
			case g == nil:
			case g == compact || g == amounts:
				return MEvent
			case g == infer || g == price || pureBasic(g, sums[g]):
				return MPure
			}
			return MInline
		}}
	}
	for _, n := range bookReaders {
		f := r.fn(n)
		if f == nil {
			continue
		}
		c := shortFn(f)
		ef := sums[f]
		if !r.need(ef != nil, "reads-only", c, f.Pos(), "what it changes is not known") {
			continue
		}
		cls := bookClasses(ef)
		if len(cls) == 0 && !(ef.unknown && relPkg(pkgOf(f)) == "book") {
			r.need(true, "reads-only", c, f.Pos(), "")
			continue
		}
		if n == "book.Book.Duplicate" {
			continue // below
		}
		shows := relPkg(pkgOf(f)) != "book"
		if shows && (ef.unknown || len(cls) > 1 || cls[0] != "num") {
			r.need(false, "reads-only", c, f.Pos(), "showing changes %s", strings.Join(cls, ", "))
			continue
		}
		e := r.runFn(f, nil, cfg())
		for _, p := range e.Paths {
			// what is added up is not the number of a posting
			for _, w := range p.writesSince(nil) {
				if shows && w.val != nil && w.val.Typ != nil && isRatPtr(w.val.Typ) && isNew(rootObj(w.addr)) && !(w.addr.Op == OFld && strings.HasPrefix(w.addr.Aux, "book.")) && w.addr.Op != OAlloc {
					r.need(isNew(w.val), "reads-only", c, p.Pos, "a number that may be the book's is kept: %v", w.val)
				}
			}
		}
		for _, p := range e.Paths {
			if w := ownOnly(p, shows); w != nil {
				r.need(false, "reads-only", c, p.Pos, "what only reads the book changes %v", w.addr)
			} else {
				r.need(true, "reads-only", c, p.Pos, "")
			}
		}
	}
	r.atLeast("reads-only", len(bookReaders)-1)

	// numbers are changed in place by what changes amounts only: copies share those of prices
	for _, f := range allFuncs {
		if !inRepo(f) || f.Synthetic != "" || f.Parent() != nil || relPkg(pkgOf(f)) != "book" || f == compact || sums[f] == nil {
			continue
		}
		if f == amounts {
			continue
		}
		takes := false
		for _, q := range f.Params {
			if pt, ok := q.Type().(*types.Pointer); ok && (typeName(pt.Elem()) == modPath+"/book.Book" || typeName(pt.Elem()) == modPath+"/book.priceBook") {
				takes = true
			}
		}
		if !takes || !in("num", bookClasses(sums[f])) {
			continue
		}
		e := r.runFn(f, nil, cfg())
		c := shortFn(f)
		for _, p := range e.Paths {
			for _, w := range p.writesSince(nil) {
				if w.addr.Op != ONumLoc {
					continue
				}
				a := w.addr.Args[0]
				if isLoad(a) {
					a = a.Args[0]
				}
				x := rootObj(a)
				r.need(isNew(x) || made(x, 0), "numbers-kept", c, p.Pos, "a number of the book is changed in place: %v", w.addr)
			}
		}
	}
	r.atLeast("numbers-kept", 2)
	checkDuplicate(r, cfg())
	checkGenerates(r)
}

// checkDuplicate: everything is copied, and what may be changed is new
func checkDuplicate(r *Report, cfg Config) {
	f := r.fn("book.Book.Duplicate")
	if f == nil {
		return
	}
	c := shortFn(f)
	b := param(f, 0)
	e := r.runFn(f, nil, cfg)
	for _, p := range e.returns() {
		d := p.Results[0]
		if !r.need(isNew(d), "copy-new", c, p.Pos, "the copy is not another book") {
			continue
		}
		mem := p.Mem
		for _, ev := range p.Events() {
			if ev.Kind == "call" {
				if r.need(ev.Args[0] == d || ev.Args[0] == b, "copy-new", c, ev.Pos, "%s is called", ev.Name) && ev.Args[0] == d {
					mem = ev.Mem
				}
			}
		}
		for q := mem; q != nil; q = q.prev {
			if q.addr == nil {
				continue
			}
			a := q.addr
			if a.Op == ONumLoc {
				a = a.Args[0]
			}
			r.need(isNew(rootObj(a)), "copy-kept", c, p.Pos, "the book copied is changed: %v", q.addr)
		}
		at := func(base *Term, typ, name string) *Term {
			return p.LoadAt(mem, fld(base, typ, name), fldT(typ, name))
		}
		was := func(base *Term, typ, name string) *Term {
			return p.LoadAt(nil, fld(base, typ, name), fldT(typ, name))
		}
		// postings
		post, src := at(d, "book.Book", "post"), was(b, "book.Book", "post")
		ls := p.builtFrom(post, src)
		if r.need(ls != nil && isNew(baseSlice(post)) || ls != nil && made(post, 0), "copy-postings", c, p.Pos, "the postings are not copied one by one") {
			for q, el := range ls.elems {
				if !r.need(el != nil, "copy-postings", c, q.Pos, "a posting is left out") {
					continue
				}
				from := ls.sc.elem(q)
				st := postT().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					n := st.Field(i).Name()
					x, y := mkField(el, i, st.Field(i).Type()), mkField(from, i, st.Field(i).Type())
					if !isRatPtr(st.Field(i).Type()) {
						r.need(x == y, "copy-postings", c+": "+n, q.Pos, "the %s of the posting is not copied", n)
						continue
					}
					r.need(ls.sc.l.after(x), "copy-numbers", c+": "+n, q.Pos, "the copy shares the number %s with the book", n)
					r.need(q.Load(numLoc(x), nil) == q.LoadAt(ls.sc.l.IterMem, numLoc(y), nil), "copy-numbers", c+": "+n, q.Pos, "the %s of the copy is another", n)
					for j := 0; j < i; j++ {
						if isRatPtr(st.Field(j).Type()) {
							r.need(mkField(el, j, st.Field(j).Type()) != x, "copy-numbers", c+": "+n, q.Pos, "two numbers of the posting are the same one")
						}
					}
				}
			}
		}
		// currencies
		checkCopyMap(r, p, "copy-currencies", c, at(d, "book.Book", "ccy"), was(b, "book.Book", "ccy"), func(q *Path, l *Loop, x, y *Term) {
			r.need(x == y, "copy-currencies", c, q.Pos, "the decimals of a currency are not those of the book")
		})
		// prices
		pb, spb := at(d, "book.Book", "prices"), was(b, "book.Book", "prices")
		if !r.need(isNew(pb), "copy-prices", c, p.Pos, "the copy shares the prices with the book") {
			continue
		}
		checkCopyMap(r, p, "copy-prices", c, at(pb, "book.priceBook", "data"), was(spb, "book.priceBook", "data"), func(q *Path, l *Loop, x, y *Term) {
			if r.need(x.Op == OAppendS || l.after(baseSlice(x)) || x.Op == OLoopVar && made(x, 0), "copy-prices", c, q.Pos, "a list of prices is shared with the book: %v", x) {
				r.need(copyOf(q, x, y), "copy-prices", c, q.Pos, "the prices are not those of the book: %v", x)
			}
		})
	}
	r.atLeast("copy-numbers", 4)
	r.atLeast("copy-postings", 8)
	r.atLeast("copy-currencies", 1)
	r.atLeast("copy-prices", 2)
}

// copyOf: list x, made on the path, has the elements of y
func copyOf(p *Path, x, y *Term) bool {
	if x.Op == OAppendS && len(x.Args) == 2 {
		z, isC := mkLen(x.Args[0]).intVal()
		return (x.Args[0].isNil() || isC && z == 0) && (isNew(baseSlice(x.Args[0])) || x.Args[0].isNil()) && x.Args[1] == y
	}
	if ls := p.builtFrom(x, y); ls != nil {
		for q, el := range ls.elems {
			if el == nil || el != ls.sc.elem(q) {
				return false
			}
		}
		return true
	}
	// made as long, and copied into
	if mkLen(x) != mkLen(y) {
		return false
	}
	for _, ev := range p.Events() {
		if ev.Kind == "call" && ev.Name == "copy" && ev.Args[0] == x && ev.Args[1] == y {
			return true
		}
	}
	return false
}

// checkCopyMap: m is new, and has just the keys of src
func checkCopyMap(r *Report, p *Path, rule, c string, m, src *Term, val func(q *Path, l *Loop, x, y *Term)) {
	mt, _ := mapOf(m)
	if !r.need(isNew(m) && mt != nil, rule, c, p.Pos, "the copy shares a map with the book") {
		return
	}
	n := 0
	for _, l := range p.loopsOn() {
		key, all := p.mapScan(l, src)
		for _, q := range l.Backs {
			put := false
			for _, w := range q.writesSince(l.IterMem) {
				if w.addr.Op != OMapEnt && w.addr.Op != OMapHas || w.addr.Args[0] != m {
					continue
				}
				if !r.need(all && w.addr.Args[1] == key, rule, c, q.Pos, "something else is put in the copy") {
					continue
				}
				put = true
			}
			if !all {
				continue
			}
			n++
			if r.need(put, rule, c, q.Pos, "an entry may be left out of the copy") {
				val(q, l, q.Load(mapEnt(m, key, mt), mt.Elem()), q.LoadAt(l.IterMem, mapEnt(src, key, mt), mt.Elem()))
			}
		}
	}
	r.need(n > 0, rule, c, p.Pos, "the entries are not copied")
	for _, w := range p.writesSince(nil) {
		if (w.addr.Op == OMapEnt || w.addr.Op == OMapHas) && w.addr.Args[0] == m {
			r.need(false, rule, c, p.Pos, "something else is put in the copy")
		}
	}
}

// checkGenerates: a script is given a copy of the book that was loaded, which nothing changes
func checkGenerates(r *Report) {
	load, dup, conv := r.fn("cmd/app.App.LoadBook"), r.fn("book.Book.Duplicate"), r.fn("script.ConvertBookToStarlark")
	if load == nil || dup == nil || conv == nil {
		return
	}
	seen := map[*ssa.Function]bool{}
	for g := range reachUp(conv) {
		if inRepo(g) && g.Synthetic == "" && relPkg(pkgOf(g)) != "script" {
			seen[g] = true
		}
	}
	n := 0
	var fs []*ssa.Function
	for g := range seen {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, g := range fs {
		if len(callsOf(g, func(_ string, h *ssa.Function) bool { return h == load })) == 0 {
			continue
		}
		e := r.runFn(topFn(g), nil, outside(relPkg(pkgOf(g))))
		c := shortFn(topFn(g))
		for _, p := range e.Paths {
			var main, given *Term
			copies := map[*Term]bool{}
			for _, ev := range p.Events() {
				if ev.Kind != "call" {
					continue
				}
				switch {
				case ev.Fn == load:
					main = ev.part(0)
				case ev.Fn == dup:
					if ev.Args[0] == main {
						copies[ev.part(0)] = true
					}
				case ev.Fn == conv:
					n++
					r.need(main != nil && copies[ev.Args[0]], "script-copy", c, ev.Pos, "the script is given something other than a copy of the book")
					given = ev.Args[0]
				case given != nil && argsHave(ev, given):
					r.need(false, "script-copy", c, ev.Pos, "%s is given what the script may have changed", ev.Name)
				case main != nil && argsHave(ev, main):
					ok := false
					if ev.Fn != nil && relPkg(pkgOf(ev.Fn)) == "book" {
						ok = !writesBook(ev.Fn) || ev.Args[0] != main && ev.Fn == lookup("book.Book.RemoveDuplicatesOf")
					}
					r.need(ok, "script-copy", c, ev.Pos, "%s is given the book itself", ev.Name)
				}
			}
		}
	}
	r.need(n > 0, "script-copy", "script.ConvertBookToStarlark", conv.Pos(), "no script is given a copy of the book")
}

// reachUp are the functions that may call f, in any number of steps
func reachUp(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	todo := []*ssa.Function{f}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		for _, h := range callersOf(g) {
			for _, k := range []*ssa.Function{h, topFn(h)} {
				if !r[k] {
					r[k] = true
					todo = append(todo, k)
				}
			}
		}
	}
	return r
}
