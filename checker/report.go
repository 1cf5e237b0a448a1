package main

// Obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Msg       string `json:"msg"`
}

// Key identifies a violation without line numbers
func (v Violation) Key() string { return v.Rule + "|" + v.Construct }

type Report struct {
	prop    string
	tier    string
	start   time.Time
	nOb     map[string]int
	nOk     map[string]int
	samples []string
	viol    []Violation
	seen    map[string]bool
	fns     map[string]bool
	paths   int
	loops   int
	steps   int
	cache   map[string]*Engine
	assumed []string
}

func newReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, start: time.Now(), nOb: map[string]int{}, nOk: map[string]int{}, seen: map[string]bool{}, fns: map[string]bool{}, cache: map[string]*Engine{}}
}

// need records an obligation; it is a violation if it does not hold
func (r *Report) need(ok bool, rule, construct string, at token.Pos, msg string, args ...interface{}) bool {
	r.nOb[rule]++
	if ok {
		r.nOk[rule]++
		s := rule + ": " + construct
		if !r.seen[s] {
			r.seen[s] = true
			if len(r.samples) < 400 {
				r.samples = append(r.samples, s)
			}
		}
		return true
	}
	v := Violation{rule, construct, pos(at), fmt.Sprintf(msg, args...)}
	for _, o := range r.viol {
		if o.Key() == v.Key() && o.Pos == v.Pos {
			return false
		}
	}
	r.viol = append(r.viol, v)
	return false
}

// merge takes over what a trial found
func (r *Report) merge(t *Report) {
	if t == nil {
		return
	}
	for k, n := range t.nOb {
		r.nOb[k] += n
	}
	for k, n := range t.nOk {
		r.nOk[k] += n
	}
	for _, s := range t.samples {
		if !r.seen[s] && len(r.samples) < 400 {
			r.seen[s] = true
			r.samples = append(r.samples, s)
		}
	}
	r.viol = append(r.viol, t.viol...)
}

// atLeast fails if fewer instances of a rule than were there at the time of writing are found
func (r *Report) atLeast(rule string, n int) {
	if r.nOb[rule] < n {
		r.viol = append(r.viol, Violation{rule, "instances", "?", fmt.Sprintf("%d instances of the rule found, expected at least %d: what it looks for is no longer there", r.nOb[rule], n)})
	}
}

// fn resolves an anchor
func (r *Report) fn(name string) *ssa.Function {
	f := lookup(name)
	if f == nil || len(f.Blocks) == 0 {
		r.need(false, "anchor", name, token.NoPos, "%s is not there", name)
		return nil
	}
	r.fns[fnKey(f)] = true
	return f
}

// run analyses the paths of a function
func (r *Report) run(name string, cfg Config) *Engine {
	f := r.fn(name)
	if f == nil {
		return &Engine{}
	}
	return r.runFn(f, nil, cfg)
}

func (r *Report) runFn(f *ssa.Function, params []*Term, cfg Config) *Engine {
	if os.Getenv("CKTRACE") != "" {
		println(shortFn(f))
	}
	e := AnalyseWith(f, params, nil, cfg)
	r.took(e, f)
	return e
}

func (r *Report) took(e *Engine, f *ssa.Function) {
	r.fns[fnKey(f)] = true
	r.paths += len(e.Paths)
	r.loops += len(e.Loops)
	r.steps += e.steps
	for c := range e.NCalls {
		if inRepo(c) {
			r.fns[fnKey(c)] = true
		}
	}
	if e.Err != "" {
		r.need(false, "undecided", fnKey(f), f.Pos(), "not decided: %s", e.Err)
	}
}

func (e *Engine) returns() []*Path { return e.kind("return") }
func (e *Engine) backs() []*Path   { return e.kind("back") }
func (e *Engine) panics() []*Path  { return e.kind("panic") }
func (e *Engine) kind(k string) (r []*Path) {
	for _, p := range e.Paths {
		if p.Kind == k {
			r = append(r, p)
		}
	}
	return
}

// ---- known findings

// known reads the findings that are recorded rather than repaired:
//
//	known: property=<id> key=<rule>|<construct> <text>
func knownFindings(file, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
		k, text, _ := strings.Cut(rest, " :: ")
		m[k] = text
	}
	return m
}

// finish prints what was found, writes the evidence and gives the exit code
func (r *Report) finish(evidence, known string, explain string, assumptions []string, seed int) int {
	kn := knownFindings(known, r.prop)
	usedKnown := map[string]bool{}
	var real []Violation
	for _, v := range r.viol {
		if t, ok := kn[v.Key()]; ok {
			if !usedKnown[v.Key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop, v.Key(), t)
			}
			usedKnown[v.Key()] = true
			continue
		}
		real = append(real, v)
	}
	total, done := 0, 0
	rules := []map[string]interface{}{}
	var names []string
	for k := range r.nOb {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		total += r.nOb[k]
		done += r.nOk[k]
		rules = append(rules, map[string]interface{}{"rule": k, "obligations": r.nOb[k], "discharged": r.nOk[k]})
	}
	var fns []string
	for k := range r.fns {
		fns = append(fns, k)
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": r.prop,
		"tier":     r.tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":            explain,
			"obligations":            total,
			"discharged":             done,
			"rules":                  rules,
			"functions_analysed":     len(fns),
			"functions":              fns,
			"paths":                  r.paths,
			"loops":                  r.loops,
			"instructions_evaluated": r.steps,
			"instances":              r.samples,
			"known_findings":         len(usedKnown),
		},
		"assumptions": append(append([]string{}, assumptions...), r.assumed...),
		"violations":  real,
		"wall_s":      time.Since(r.start).Seconds(),
	}
	if real == nil {
		ev["violations"] = []Violation{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidence, append(b, '\n'), 0644); err != nil {
		fmt.Println("evidence:", err)
		return 1
	}
	if len(real) == 0 {
		fmt.Printf("property %s holds: %d obligations, %d functions, %d paths, %d loops\n", r.prop, total, len(fns), r.paths, r.loops)
		return 0
	}
	for _, v := range real {
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	for _, v := range real {
		fmt.Printf("VIOLATION property=%s replay=%s %s %s\n", r.prop, evidence, v.Pos, strings.ReplaceAll(v.Key(), " ", "_"))
		break
	}
	return 1
}

// ---- naming of what the rules talk about

// fieldIdx is the index of a field by name, -1 if it isn't there
func fieldIdx(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func param(f *ssa.Function, i int) *Term {
	p := f.Params[i]
	return paramTerm(f, p.Name(), p.Type())
}

// fld is the address of the field of the object at base
func fld(base *Term, typ, name string) *Term {
	t := lookupType(typ)
	i := fieldIdx(t, name)
	if i < 0 {
		return T.mk(OUndef, typ+"."+name, nil)
	}
	return fldAddr(base, t, i)
}

func fldT(typ, name string) types.Type {
	t := lookupType(typ)
	i := fieldIdx(t, name)
	if i < 0 {
		return nil
	}
	return t.Underlying().(*types.Struct).Field(i).Type()
}

// getF is field name of the struct value v
func getF(v *Term, typ, name string) *Term {
	t := lookupType(typ)
	i := fieldIdx(t, name)
	if i < 0 {
		return T.mk(OUndef, typ+"."+name, nil)
	}
	return mkField(v, i, t.Underlying().(*types.Struct).Field(i).Type())
}

// getField is field name of the struct value v of its own type
func getField(v *Term, name string) *Term {
	if v == nil || v.Typ == nil {
		return T.mk(OUndef, "?."+name, nil)
	}
	i := fieldIdx(v.Typ, name)
	if i < 0 {
		return T.mk(OUndef, "?."+name, nil)
	}
	return mkField(v, i, v.Typ.Underlying().(*types.Struct).Field(i).Type())
}
