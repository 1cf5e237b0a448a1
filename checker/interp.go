package main

// Trace-partitioned forward dataflow over the SSA form. Every control-flow path of an
// entry function is followed once, repository callees included; a loop is followed once,
// from a state that stands for any iteration (what the loop can change is forgotten).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Mode int

const (
	MInline Mode = iota
	MEvent       // stays a call event with an unknown result
	MPure        // a function of its arguments, no event
)

type Config struct {
	Mode      func(f *ssa.Function) Mode
	MaxPaths  int
	MaxDepth  int
	MaxSteps  int
	NoCollect bool
	Panics    func(f *ssa.Function) bool // these, kept as events, may panic
	// the number behind these arguments stays as it is in a call kept as an event
	Keeps map[*ssa.Function][]int
	// assumptions on entry
	Assume func(s *State, params []*Term)
}

type Event struct {
	Kind   string // call, go, loop, endloop, panic
	Fn     *ssa.Function
	Name   string
	Args   []*Term
	Res    *Term
	Pos    token.Pos
	In     *ssa.Function
	Facts  *Fact
	Mem    *Mem
	Loop   *Loop
	Defer  bool
	NFacts int
}

type EvList struct {
	prev *EvList
	ev   *Event
	n    int
}

// Loop is a loop as reached on a path
type Loop struct {
	ID       int
	Fn       *ssa.Function
	Header   *ssa.BasicBlock
	Vars     map[interface{}]*Term // by phi, or by local variable in memory
	Cells    map[*Term]*Term
	Entry    map[*Term]*Term // loop variable -> value on entry
	Parent   *Loop
	Backs    []*Path
	Start    int
	Changed  *havoc
	EntryMem *Mem // memory before the loop
	IterMem  *Mem // memory at the start of an iteration
	EvN      int
}

type activeLoop struct {
	l    *Loop
	info *natLoop
}

type deferred struct {
	call *ssa.CallCommon
	fn   *ssa.Function
	bind []*Term
	args []*Term
	name string
	pos  token.Pos
	ins  ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*Term
	block     *ssa.BasicBlock
	idx       int
	loops     []activeLoop
	defers    []deferred
	callee    ssa.Value // value in the caller that receives the result
	shared    bool
	isDefer   bool // run as a deferred call
	unwinding bool
	depth     int
}

type State struct {
	frames    []*Frame
	facts     *Facts
	mem       *Mem
	events    *EvList
	panicking *Term
	pos       token.Pos
	posFn     *ssa.Function
	steps     int
}

type Path struct {
	Kind    string // return, panic, back
	Results []*Term
	Panic   *Term
	facts   *Facts
	Mem     *Mem
	events  *EvList
	Loop    *Loop
	Next    map[*Term]*Term // loop variable -> value at the end of the iteration
	Pos     token.Pos
	Entry   string
	evs     []*Event
	frames  []*Frame
}

func (p *Path) Events() []*Event {
	if p.evs == nil && p.events != nil {
		p.evs = make([]*Event, p.events.n)
		for e := p.events; e != nil; e = e.prev {
			p.evs[e.n-1] = e.ev
		}
	}
	return p.evs
}

func (p *Path) Facts() []*Fact { return p.facts.last.list() }

// Holds reports whether the condition holds on the path
func (p *Path) Holds(c *Term) bool { return p.facts.decide(c) == 1 }
func (p *Path) Not(c *Term) bool   { return p.facts.decide(c) == -1 }

func (p *Path) Load(addr *Term, typ types.Type) *Term { return loadTM(p.Mem, p.facts, addr, typ) }
func (p *Path) LoadAt(m *Mem, addr *Term, typ types.Type) *Term {
	return loadTM(m, p.facts, addr, typ)
}

type natLoop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := r[s]
				if l == nil {
					l = &natLoop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					r[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	loopCache[fn] = r
	return r
}

type discovery struct {
	loop    *Loop
	depth   int // number of frames
	startM  *Mem
	changed *havoc
	nexts   []map[*Term]*Term
	visited bool
	esc     map[*Term]bool
	held    map[*Term][]*Term
	heldIn  map[[2]*Term]bool
}

type Engine struct {
	cfg    Config
	work   []*State
	Paths  []*Path
	Loops  []*Loop
	disc   []*discovery
	steps  int
	Over   bool
	ids    int
	entry  string
	NCalls map[*ssa.Function]int
	Err    string
}

type budget struct{ msg string }

// Analyse follows every path of fn
func Analyse(fn *ssa.Function, cfg Config) *Engine { return AnalyseWith(fn, nil, nil, cfg) }

// AnalyseWith follows every path of fn with the given parameters and free variables
func AnalyseWith(fn *ssa.Function, params, free []*Term, cfg Config) *Engine {
	return AnalyseFrom(fn, params, free, nil, nil, cfg)
}

func AnalyseFrom(fn *ssa.Function, params, free []*Term, mem *Mem, facts *Facts, cfg Config) *Engine {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 12_000_000
	}
	e := &Engine{cfg: cfg, entry: fn.String(), NCalls: map[*ssa.Function]int{}}
	s := &State{facts: newFacts(), mem: mem}
	if facts != nil {
		s.facts = facts.clone()
	}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}}
	var ps []*Term
	for i, p := range fn.Params {
		var t *Term
		if params != nil && i < len(params) && params[i] != nil {
			t = params[i]
		} else {
			t = paramTerm(fn, p.Name(), p.Type())
		}
		f.env[p] = t
		ps = append(ps, t)
	}
	for i, p := range fn.FreeVars {
		if free != nil && i < len(free) && free[i] != nil {
			f.env[p] = free[i]
		} else {
			f.env[p] = paramTerm(fn, p.Name(), p.Type())
		}
	}
	s.frames = []*Frame{f}
	if len(fn.Blocks) == 0 {
		e.Err = "no body: " + fn.String()
		return e
	}
	f.block = fn.Blocks[0]
	if cfg.Assume != nil {
		cfg.Assume(s, ps)
	}
	e.work = append(e.work, s)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if b, ok := r.(budget); ok {
					e.Err = b.msg
					return
				}
				panic(r)
			}
		}()
		e.run()
	}()
	return e
}

func (e *Engine) run() {
	base := len(e.work) - 1
	for len(e.work) > base {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(s)
	}
}

func (s *State) fork() *State {
	for _, f := range s.frames {
		f.shared = true
	}
	n := *s
	n.frames = append([]*Frame(nil), s.frames...)
	n.facts = s.facts.clone()
	return &n
}

// top returns the current frame for changing
func (s *State) top() *Frame { return s.own(len(s.frames) - 1) }

func (s *State) own(i int) *Frame {
	f := s.frames[i]
	if !f.shared {
		return f
	}
	n := *f
	n.shared = false
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = append([]activeLoop(nil), f.loops...)
	n.defers = append([]deferred(nil), f.defers...)
	s.frames[i] = &n
	return &n
}

func (s *State) event(ev *Event) *Event {
	n := 1
	if s.events != nil {
		n = s.events.n + 1
	}
	ev.Facts = s.facts.last
	ev.Mem = s.mem
	ev.Pos = s.pos
	ev.In = s.posFn
	s.events = &EvList{prev: s.events, ev: ev, n: n}
	return ev
}

func (s *State) fact(c *Term, v bool) bool { return s.facts.assume(c, v) }

func (e *Engine) finish(s *State, p *Path) {
	p.facts = s.facts
	p.Mem = s.mem
	p.events = s.events
	p.Pos = s.pos
	p.Entry = e.entry
	p.frames = s.frames
	if len(e.disc) > 0 {
		// only what is there when the next iteration starts counts
		if p.Kind == "back" && p.Loop == e.curDisc().loop {
			e.noteDisc(s)
		}
		return
	}
	if p.Kind == "back" {
		p.Loop.Backs = append(p.Loop.Backs, p)
	}
	e.Paths = append(e.Paths, p)
	if len(e.Paths) > e.cfg.MaxPaths {
		panic(budget{fmt.Sprintf("more than %d paths in %s", e.cfg.MaxPaths, e.entry)})
	}
}

// val evaluates an SSA operand
func (s *State) val(f *Frame, v ssa.Value) *Term {
	if t, ok := f.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return T.mk(OGlobal, v.Pkg.Pkg.Path()+"."+v.Name(), v.Type())
	case *ssa.Function:
		return closureTerm(v, nil)
	case *ssa.Builtin:
		return T.mk(OConst, "builtin:"+v.Name(), nil)
	}
	return T.mk(OUndef, v.Name()+v.String(), v.Type())
}

func closureTerm(fn *ssa.Function, bind []*Term) *Term {
	t := T.mk(OClosure, fmt.Sprintf("%s@%p", fn.String(), fn), fn.Type(), bind...)
	t.Fn = fn
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.String:
		return cStr(constant.StringVal(c.Value))
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.Int, constant.Float:
		if r, ok := ratOfConst(c.Value); ok {
			if isFloatT(c.Type()) {
				return r
			}
			return r
		}
	}
	return T.mk(OConst, "x:"+c.Value.ExactString(), c.Type())
}

// ---- stepping

func (e *Engine) exec(s *State) {
	for {
		e.steps++
		if e.steps > e.cfg.MaxSteps {
			panic(budget{fmt.Sprintf("more than %d steps in %s", e.cfg.MaxSteps, e.entry)})
		}
		f := s.top()
		if f.idx >= len(f.block.Instrs) {
			panic("fell off block")
		}
		ins := f.block.Instrs[f.idx]
		if p := ins.Pos(); p.IsValid() {
			s.pos = p
			s.posFn = f.fn
		} else if s.posFn != f.fn {
			s.posFn = f.fn
		}
		switch ins := ins.(type) {
		case *ssa.If:
			c := s.val(f, ins.Cond)
			tb, fb := f.block.Succs[0], f.block.Succs[1]
			d := s.facts.decide(c)
			if d == 0 {
				o := s.fork()
				if o.fact(c, false) {
					e.jump(o, fb)
				}
				if s.fact(c, true) {
					if e.jump2(s, tb) {
						continue
					}
				}
				return
			}
			// note decided conditions on terms that are not constants too, for guards
			if d > 0 {
				if e.jump2(s, tb) {
					continue
				}
			} else if e.jump2(s, fb) {
				continue
			}
			return
		case *ssa.Jump:
			if e.jump2(s, f.block.Succs[0]) {
				continue
			}
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range ins.Results {
				rs = append(rs, s.val(f, r))
			}
			if !e.ret(s, rs) {
				return
			}
			continue
		case *ssa.Panic:
			v := s.val(f, ins.X)
			s.event(&Event{Kind: "panic", Args: []*Term{v}})
			s.panicking = v
			f.unwinding = true
			if !e.unwind(s) {
				return
			}
			continue
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				e.callDeferred(s, d)
				continue
			}
			f.idx++
			continue
		case *ssa.Defer:
			d := e.mkDeferred(s, f, &ins.Call, ins)
			f.defers = append(f.defers, d)
			f.idx++
			continue
		case *ssa.Go:
			d := e.mkDeferred(s, f, &ins.Call, ins)
			s.event(&Event{Kind: "go", Fn: d.fn, Name: d.name, Args: d.args})
			s.doHavoc(&havoc{all: true})
			f.idx++
			continue
		case *ssa.Call:
			f.idx++
			if !e.call(s, &ins.Call, ins) {
				return
			}
			continue
		case *ssa.Select:
			f.idx++
			f.env[ins] = T.fresh(OFresh, "select", ins.Type())
			continue
		}
		f.idx++
		e.simple(s, f, ins)
	}
}

func (e *Engine) jump(s *State, b *ssa.BasicBlock) {
	if e.jump2(s, b) {
		e.work = append(e.work, s)
	}
}

// jump2 moves the state to a block; false if the path ends there
func (e *Engine) jump2(s *State, to *ssa.BasicBlock) bool {
	f := s.top()
	from := f.block
	// leave loops
	for len(f.loops) > 0 && !f.loops[len(f.loops)-1].info.body[to] {
		l := f.loops[len(f.loops)-1].l
		if d := e.curDisc(); d != nil && d.loop == l && d.depth == len(s.frames) {
			return false
		}
		f.loops = f.loops[:len(f.loops)-1]
		s.event(&Event{Kind: "endloop", Loop: l})
	}
	phis := func() map[*ssa.Phi]*Term {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		r := map[*ssa.Phi]*Term{}
		for _, ins := range to.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			r[p] = s.val(f, p.Edges[pi])
		}
		return r
	}
	info := loopsOf(f.fn)[to]
	if info != nil {
		if n := len(f.loops); n > 0 && f.loops[n-1].info.header == to {
			// back edge: an iteration ends
			l := f.loops[n-1].l
			next := map[*Term]*Term{}
			for p, v := range phis() {
				if lv, ok := l.Vars[p]; ok {
					next[lv] = v
				}
			}
			for c, lv := range l.Cells {
				next[lv] = s.loadT(c, lv.Typ)
			}
			if d := e.curDisc(); d != nil {
				if d.loop == l && d.depth == len(s.frames) {
					d.nexts = append(d.nexts, next)
				}
			}
			e.finish(s, &Path{Kind: "back", Loop: l, Next: next})
			return false
		}
		e.enterLoop(s, f, to, info, phis())
		return true
	}
	vals := phis()
	for p, v := range vals {
		f.env[p] = v
	}
	f.block = to
	f.idx = len(vals)
	return true
}

func (e *Engine) curDisc() *discovery {
	if len(e.disc) == 0 {
		return nil
	}
	return e.disc[len(e.disc)-1]
}

func (e *Engine) newLoop(s *State, f *Frame, to *ssa.BasicBlock) *Loop {
	e.ids++
	T.seq++
	l := &Loop{ID: e.ids, Fn: f.fn, Header: to, Vars: map[interface{}]*Term{}, Cells: map[*Term]*Term{}, Entry: map[*Term]*Term{}, Start: T.seq, EntryMem: s.mem}
	if n := len(f.loops); n > 0 {
		l.Parent = f.loops[n-1].l
	}
	return l
}

func (e *Engine) enterLoop(s *State, f *Frame, to *ssa.BasicBlock, info *natLoop, entry map[*ssa.Phi]*Term) {
	var ps []*ssa.Phi
	for p := range entry {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	var cells []*Term
	cellEntry := map[*Term]*Term{}
	start := func(s *State, l *Loop, inv map[*ssa.Phi]*Term) {
		f := s.top()
		for _, c := range cells {
			lv := T.fresh(OLoopVar, strings.TrimPrefix(c.name()[strings.Index(c.name(), "_")+1:], "_"), cellEntry[c].Typ)
			lv.Typ = deref(c.Typ)
			lv.Loop = l
			l.Vars[c], l.Cells[c] = lv, lv
			l.Entry[lv] = cellEntry[c]
			s.storeT(c, lv, lv.Typ)
		}
		for _, p := range ps {
			if v, ok := inv[p]; ok {
				f.env[p] = v
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			lv := T.fresh(OLoopVar, nm, p.Type())
			lv.Loop = l
			lv.Phi = p
			l.Vars[p] = lv
			l.Entry[lv] = entry[p]
			f.env[p] = lv
		}
		f.block = to
		f.idx = len(ps)
		f.loops = append(f.loops, activeLoop{l, info})
	}
	// first: find out what an iteration can change
	var dl *Loop
	var d *discovery
	fixed := map[*ssa.Phi]*Term{}
	for round := 0; ; round++ {
		ds := s.fork()
		df := ds.top()
		dl = e.newLoop(ds, df, to)
		if round == 0 {
			ds.doHavoc(&havoc{all: true, full: true, drop: storedIn(f, info)})
		} else {
			ds.doHavoc(d.changed) // no more than this changes
		}
		d = &discovery{loop: dl, depth: len(s.frames), startM: ds.mem, changed: newHavoc(), esc: map[*Term]bool{}, held: map[*Term][]*Term{}, heldIn: map[[2]*Term]bool{}}
		start(ds, dl, fixed)
		e.disc = append(e.disc, d)
		e.work = append(e.work, ds)
		e.run()
		e.disc = e.disc[:len(e.disc)-1]
		if round > 0 {
			break
		}
		// again, with the local variables that are kept in memory and change
		for k := range d.changed.exact {
			if t := deref(k.Typ); k.Op == OAlloc && k.Seq < dl.Start && t != nil && isScalar(t) && !s.facts.esc[k] && !d.esc[k] {
				cells = append(cells, k)
				cellEntry[k] = s.loadT(k, t)
			}
		}
		// pointers that stay what they were
		for _, p := range ps {
			if _, ok := p.Type().Underlying().(*types.Pointer); !ok || len(d.nexts) == 0 {
				continue
			}
			fixed[p] = entry[p]
			for _, n := range d.nexts {
				if v := n[dl.Vars[p]]; v != dl.Vars[p] && v != entry[p] {
					delete(fixed, p)
				}
			}
		}
		if cells == nil && len(fixed) == 0 && (len(e.disc) > 0 || !d.changed.rest && !d.changed.all) {
			break
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].Seq < cells[j].Seq })
	}

	// what gets out in one iteration is out in the next
	for k := range d.esc {
		if k.Seq < dl.Start {
			s.escapeObj(k)
		}
	}
	for k, vs := range d.held {
		for _, v := range vs {
			if v.Seq >= dl.Start || s.facts.in[v] && s.facts.esc[v] {
				continue
			}
			if k.Seq < dl.Start {
				s.facts.hold(k, v)
			}
			s.facts.in[v] = true
		}
	}

	f = s.top()
	l := e.newLoop(s, f, to)
	l.Changed = d.changed
	inv := map[*ssa.Phi]*Term{}
	step := map[interface{}]int{}
	for _, c := range cells {
		lv := dl.Vars[c]
		if !isIntT(lv.Typ) || len(d.nexts) == 0 {
			continue
		}
		dir, ok := 0, true
		for _, n := range d.nexts {
			k, isC := polyOf(nSub(n[lv], lv)).constant()
			switch {
			case !isC, k.Sign() > 0 && dir < 0, k.Sign() < 0 && dir > 0:
				ok = false
			case k.Sign() != 0:
				dir = k.Sign()
			}
		}
		if ok {
			step[c] = dir
		}
	}
	for _, p := range ps {
		lv := dl.Vars[p]
		if v, ok := fixed[p]; ok {
			inv[p] = v
			continue
		}
		same := len(d.nexts) > 0
		dir := 0
		ok := true
		for _, n := range d.nexts {
			v := n[lv]
			if v != lv && v != entry[p] {
				same = false
			}
			if isIntT(p.Type()) {
				if k, isC := polyOf(nSub(v, lv)).constant(); isC {
					if k.Sign() > 0 && dir >= 0 {
						dir = 1
					} else if k.Sign() < 0 && dir <= 0 {
						dir = -1
					} else if k.Sign() != 0 {
						ok = false
					}
				} else {
					ok = false
				}
			}
		}
		if same {
			inv[p] = entry[p]
		} else if ok && dir != 0 {
			step[p] = dir
		}
	}
	if d.changed.all || d.changed.rest || len(d.changed.exact)+len(d.changed.class)+len(d.changed.other)+len(d.changed.elems)+len(d.changed.under) > 0 {
		s.doHavoc(d.changed)
	}
	start(s, l, inv)
	l.IterMem = s.mem
	ev := s.event(&Event{Kind: "loop", Loop: l})
	_ = ev
	l.EvN = s.events.n
	var stepping []interface{}
	for _, c := range cells {
		stepping = append(stepping, c)
	}
	for _, p := range ps {
		stepping = append(stepping, p)
	}
	for _, k := range stepping {
		if dir := step[k]; dir != 0 {
			lv := l.Vars[k]
			if dir > 0 {
				s.facts.assume(cmp0("<", nSub(lv, l.Entry[lv])), false)
			} else {
				s.facts.assume(cmp0(">", nSub(lv, l.Entry[lv])), false)
			}
		}
	}
	if len(e.disc) == 0 {
		e.Loops = append(e.Loops, l)
	}
}

// storedIn: the local variables, only read by others, that the loop stores to
func storedIn(f *Frame, info *natLoop) map[*Term]bool {
	m := map[*Term]bool{}
	for b := range info.body {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if a, ok := st.Addr.(*ssa.Alloc); ok && f.env[a] != nil {
					m[f.env[a]] = true
				}
			}
		}
	}
	return m
}

// isScalar: a value of the type is one term
func isScalar(t types.Type) bool {
	if isBigNum(t) {
		return false
	}
	return !isFlat(t)
}

// noteDisc records the changes a path made since the start of the iteration being discovered
func (e *Engine) noteDisc(s *State) {
	d := e.curDisc()
	for k := range s.facts.esc {
		d.esc[k] = true
	}
	for k, v := range s.facts.held {
		for _, x := range v {
			if y := [2]*Term{k, x}; !d.heldIn[y] {
				d.heldIn[y] = true
				d.held[k] = append(d.held[k], x)
			}
		}
	}
	for m := s.mem; m != nil && m != d.startM; m = m.prev {
		if m.kind == mHavoc {
			h := m.hv
			if h.all {
				d.changed.all = true
			}
			if h.rest {
				d.changed.rest = true
			}
			for k := range h.exact {
				e.noteAddr(d, k)
			}
			for k := range h.class {
				d.changed.class[k] = true
			}
			for k := range h.other {
				d.changed.other[k] = true
			}
			for k := range h.elems {
				if k.Max <= d.loop.Start {
					d.changed.elems[k] = true
				} else if !isNewIn(k, d) {
					et := elemType(k.Typ)
					e.noteElemClass(d, k, et)
				}
			}
			for k := range h.under {
				if k.Max <= d.loop.Start {
					d.changed.under[k] = true
				} else if !isNewIn(k, d) {
					d.changed.rest = true // it was got from elsewhere
				}
			}
			continue
		}
		e.noteAddr(d, m.addr)
	}
}

func isNewIn(k *Term, d *discovery) bool {
	r := rootObj(k)
	return isNew(r) && r.Seq > d.loop.Start
}

func (e *Engine) noteElemClass(d *discovery, k *Term, et types.Type) {
	if et == nil {
		d.changed.all = true
		return
	}
	var add func(t types.Type)
	add = func(t types.Type) {
		if isFlat(t) {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					d.changed.class[class(fldAddr(k, t, i))] = true
					if isFlat(u.Field(i).Type()) {
						add(u.Field(i).Type())
					}
				}
			case *types.Array:
				d.changed.class["e:"+typeName(u.Elem())] = true
			}
			return
		}
		d.changed.class["e:"+typeName(t)] = true
	}
	add(et)
	if k.Typ != nil {
		if _, ok := k.Typ.Underlying().(*types.Map); ok {
			d.changed.class["m:"+typeName(k.Typ)] = true
		}
	}
}

func (e *Engine) noteAddr(d *discovery, a *Term) {
	if isNewIn(a, d) {
		return
	}
	if a.Max <= d.loop.Start {
		d.changed.exact[a] = true
		return
	}
	// element of something that doesn't change
	x := a
	for {
		switch x.Op {
		case OIdx:
			if b := baseSlice(x.Args[0]); b.Max <= d.loop.Start {
				d.changed.elems[b] = true
				return
			}
		case OMapEnt, OMapHas:
			if x.Args[0].Max <= d.loop.Start {
				d.changed.elems[x.Args[0]] = true
				return
			}
		case OFld, ONumLoc, OBufLoc, OSlice:
		default:
			if isNew(x) || viaNew(x) {
				d.changed.class[class(a)] = true
			} else {
				d.changed.other[class(a)] = true
			}
			return
		}
		x = x.Args[0]
	}
}

// ---- returning and unwinding

// ret returns from the current frame; false if the path ends
func (e *Engine) ret(s *State, rs []*Term) bool {
	f := s.frames[len(s.frames)-1]
	if len(s.frames) == 1 {
		e.finish(s, &Path{Kind: "return", Results: rs})
		return false
	}
	if d := e.curDisc(); d != nil && d.depth >= len(s.frames) {
		// leaves the frame of the loop being discovered
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	c := s.top()
	if f.isDefer {
		if c.unwinding {
			return e.unwind(s)
		}
		return true
	}
	if f.callee != nil {
		var v *Term
		switch len(rs) {
		case 0:
			v = T.mk(OTuple, "", nil)
		case 1:
			v = rs[0]
		default:
			v = T.mk(OTuple, "", nil, rs...)
		}
		c.env[f.callee] = v
	}
	return true
}

// unwind continues a panic; false if the path ends
func (e *Engine) unwind(s *State) bool {
	for {
		f := s.top()
		if s.panicking == nil {
			// recovered
			f.unwinding = false
			f.loops = nil
			if f.fn.Recover != nil {
				f.block = f.fn.Recover
				f.idx = 0
				return true
			}
			var rs []*Term
			res := f.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, zeroOf(res.At(i).Type()))
			}
			return e.ret(s, rs)
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.unwinding = true
			if e.callDeferred(s, d) {
				return true // runs a repository function; ret comes back here
			}
			continue
		}
		if len(s.frames) == 1 {
			e.finish(s, &Path{Kind: "panic", Panic: s.panicking})
			return false
		}
		if d := e.curDisc(); d != nil && d.depth >= len(s.frames) {
			return false
		}
		isDefer := f.isDefer
		s.frames = s.frames[:len(s.frames)-1]
		_ = isDefer
		s.top().unwinding = true
	}
}

func (e *Engine) mkDeferred(s *State, f *Frame, c *ssa.CallCommon, ins ssa.Instruction) deferred {
	d := deferred{call: c, pos: ins.Pos(), ins: ins}
	fn, bind, args, name := e.resolve(s, f, c)
	d.fn, d.bind, d.args, d.name = fn, bind, args, name
	return d
}

// callDeferred runs a deferred call; true if a frame was pushed
func (e *Engine) callDeferred(s *State, d deferred) bool {
	if d.fn != nil && e.inlinable(s, d.fn) {
		e.push(s, d.fn, d.bind, d.args, nil)
		s.top().isDefer = true
		return true
	}
	if b, ok := d.call.Value.(*ssa.Builtin); ok {
		e.builtin(s, b.Name(), d.args, d.call, nil)
		return false
	}
	ev := s.event(&Event{Kind: "call", Fn: d.fn, Name: d.name, Args: d.args, Defer: true})
	ev.Pos = d.pos
	if d.fn != nil && model(e, s, d.fn, d.name, d.args, d.call.Signature().Results()) != nil {
		return false
	}
	e.havocArgs(s, d.fn, d.args)
	return false
}

// ---- calls

// resolve finds what a call calls
func (e *Engine) resolve(s *State, f *Frame, c *ssa.CallCommon) (fn *ssa.Function, bind, args []*Term, name string) {
	if c.IsInvoke() {
		recv := s.val(f, c.Value)
		name = "(" + shortType(c.Value.Type()) + ")." + c.Method.Name()
		if recv.Op == OIface {
			ct := recv.Typ
			if ct != nil {
				if m := theProg.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); m != nil {
					fn = m
					args = append(args, recv.Args[0])
					for _, a := range c.Args {
						args = append(args, s.val(f, a))
					}
					return fn, nil, args, fn.String()
				}
			}
		}
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, s.val(f, a))
		}
		return nil, nil, args, name
	}
	for _, a := range c.Args {
		args = append(args, s.val(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil, args, b.Name()
	}
	if fn = c.StaticCallee(); fn != nil && len(fn.FreeVars) == 0 {
		return fn, nil, args, fn.String()
	}
	v := s.val(f, c.Value)
	if v.Op == OClosure && v.Fn != nil {
		return v.Fn, v.Args, args, v.Fn.String()
	}
	return nil, nil, append([]*Term{v}, args...), "dynamic"
}

func (e *Engine) inlinable(s *State, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if !inRepo(fn) {
		return false
	}
	if e.cfg.Mode != nil && e.cfg.Mode(fn) != MInline {
		return false
	}
	if len(s.frames) > e.cfg.MaxDepth {
		return false
	}
	for _, f := range s.frames {
		if f.fn == fn {
			return false
		}
	}
	return true
}

func (e *Engine) push(s *State, fn *ssa.Function, bind, args []*Term, callee ssa.Value) {
	e.NCalls[fn]++
	nf := &Frame{fn: fn, env: make(map[ssa.Value]*Term, 32), callee: callee, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			nf.env[p] = bind[i]
		}
	}
	s.frames = append(s.frames, nf)
}

// call does a call instruction; false if the path ends
func (e *Engine) call(s *State, c *ssa.CallCommon, ins *ssa.Call) bool {
	f := s.top()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range c.Args {
			args = append(args, s.val(f, a))
		}
		e.builtin(s, b.Name(), args, c, ins)
		return true
	}
	fn, bind, args, name := e.resolve(s, f, c)
	if fn != nil {
		if e.inlinable(s, fn) {
			e.push(s, fn, bind, args, ins)
			return true
		}
		if !inRepo(fn) || len(fn.Blocks) == 0 {
			if r := model(e, s, fn, name, args, c.Signature().Results()); r != nil {
				s.top().env[ins] = r
				return true
			}
		} else if e.cfg.Mode != nil && e.cfg.Mode(fn) == MPure {
			s.top().env[ins] = pureCall(s, name, args, c.Signature().Results())
			return true
		}
	}
	if c.IsInvoke() {
		if r := modelInvoke(e, s, c, name, args); r != nil {
			s.top().env[ins] = r
			return true
		}
	}
	ev := s.event(&Event{Kind: "call", Fn: fn, Name: name, Args: args})
	r := freshResult(name, c.Signature().Results())
	ev.Res = r
	var kept map[*Term]*Term
	if fn != nil {
		for _, i := range e.cfg.Keeps[fn] {
			if i < len(args) {
				if kept == nil {
					kept = map[*Term]*Term{}
				}
				kept[numLoc(args[i])] = s.load(numLoc(args[i]), nil)
			}
		}
	}
	if fn == nil && changesNothing(c) {
		for _, a := range args {
			s.escape(a)
		}
	} else {
		e.havocArgs(s, fn, args)
	}
	for a, v := range kept {
		s.write(a, v)
	}
	if fn != nil && e.cfg.Panics != nil && e.cfg.Panics(fn) {
		n := s.fork()
		v := T.fresh(OFresh, "panic", types.NewInterfaceType(nil, nil))
		n.event(&Event{Kind: "panic", Args: []*Term{v}})
		n.panicking = v
		n.top().unwinding = true
		if e.unwind(n) {
			e.work = append(e.work, n)
		}
	}
	s.top().env[ins] = r
	return true
}

func shortName(name string) string {
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		j := strings.IndexAny(name, "(*")
		p := ""
		if j == 0 {
			p = strings.TrimRight(name[:strings.IndexFunc(name, func(r rune) bool { return r != '(' && r != '*' })], "")
		}
		return p + name[i+1:]
	}
	return name
}

func freshResult(name string, res *types.Tuple) *Term {
	switch res.Len() {
	case 0:
		return T.mk(OTuple, "", nil)
	case 1:
		return T.fresh(OFresh, shortName(name), res.At(0).Type())
	}
	var ts []*Term
	for i := 0; i < res.Len(); i++ {
		ts = append(ts, T.fresh(OFresh, fmt.Sprintf("%s.%d", shortName(name), i), res.At(i).Type()))
	}
	return T.mk(OTuple, "", nil, ts...)
}

// pureCall is the term of a function of its arguments (and the numbers they point to)
func pureCall(s *State, name string, args []*Term, res *types.Tuple) *Term {
	as := make([]*Term, len(args))
	for i, a := range args {
		as[i] = numArg(s, a)
	}
	mk := func(i int, t types.Type) *Term {
		n := shortName(name)
		if res.Len() > 1 {
			n += "." + strconv.Itoa(i)
		}
		return T.mk(OCall, n, t, as...)
	}
	switch res.Len() {
	case 0:
		return T.mk(OTuple, "", nil)
	case 1:
		return mk(0, res.At(0).Type())
	}
	var ts []*Term
	for i := 0; i < res.Len(); i++ {
		ts = append(ts, mk(i, res.At(i).Type()))
	}
	return T.mk(OTuple, "", nil, ts...)
}

// numArg replaces a pointer to a number by the number
func numArg(s *State, a *Term) *Term {
	if a.Typ != nil {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok && isBigNum(p.Elem()) {
			return T.mk(OCall, "num", nil, s.load(numLoc(a), nil))
		}
	}
	return a
}

// havocArgs forgets what an unknown call may change
func (e *Engine) havocArgs(s *State, fn *ssa.Function, args []*Term) {
	if fn != nil && inRepo(fn) && len(fn.Blocks) > 0 {
		h := newHavoc()
		reach := map[*Term]bool{}
		var obj func(x *Term)
		obj = func(x *Term) {
			if reach[x] {
				return
			}
			reach[x] = true
			for _, y := range s.facts.held[x] {
				obj(y)
			}
		}
		for i, a := range args {
			s.objectsIn(a, obj)
			if i >= len(fn.Params) || leaks(fn.Params[i]) {
				s.escape(a)
				continue
			}
			// what it refers to may be passed on
			s.objectsIn(a, func(x *Term) {
				for _, y := range s.facts.held[x] {
					s.escapeObj(y)
				}
			})
		}
		h.esc = reach
		for k := range s.facts.esc {
			h.esc[k] = true
		}
		eff := effectsOf(fn)
		for k := range eff.classes {
			h.other[k] = true
		}
		if eff.unknown {
			h.rest = true
		}
		if h.rest || len(h.other) > 0 {
			s.doHavoc(h)
		}
		return
	}
	for _, a := range args {
		s.escape(a)
	}
	h := newHavoc()
	seen := map[*Term]bool{}
	var reach func(a *Term)
	reach = func(a *Term) {
		if a.isConst() || seen[a] {
			return
		}
		seen[a] = true
		switch a.Op {
		case OClosure:
			for _, b := range a.Args {
				reach(b)
			}
			return
		case OIface:
			reach(a.Args[0])
			return
		case OSlice, OAppend:
			if els, ok := variadic(s, a); ok {
				for _, x := range els {
					reach(x)
				}
			}
		case OStruct:
			for _, x := range a.Args {
				reach(x)
			}
			return
		}
		if a.Typ == nil {
			return
		}
		switch a.Typ.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			h.under[baseSlice(a)] = true
			// and the new objects that can be reached from there
			for m := s.mem; m != nil; m = m.prev {
				if m.kind == mWrite && m.addr.contains(baseSlice(a)) {
					m.val.any(func(x *Term) bool {
						if isNew(x) {
							reach(x)
						}
						return false
					})
				}
			}
		}
	}
	for _, a := range args {
		reach(a)
	}
	if len(h.under) > 0 {
		s.doHavoc(h)
	}
}

func (e *Engine) builtin(s *State, name string, args []*Term, c *ssa.CallCommon, ins *ssa.Call) {
	f := s.top()
	set := func(t *Term) {
		if ins != nil {
			f.env[ins] = t
		}
	}
	switch name {
	case "len":
		if c != nil && args[0].Typ != nil {
			if p, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				set(cInt(p.Len()))
				return
			}
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				set(T.mk(OLen, "", types.Typ[types.Int], s.mapVersion(args[0])))
				return
			}
		}
		set(mkLen(args[0]))
	case "cap":
		set(T.mk(OCap, "", types.Typ[types.Int], args[0]))
	case "append":
		st := c.Args[0].Type()
		set(s.appendT(args[0], args[1], st))
	case "copy":
		s.event(&Event{Kind: "call", Name: "copy", Args: args})
		for _, x := range s.facts.held[rootObj(baseSlice(args[1]))] {
			s.escapeObj(x)
		}
		h := newHavoc()
		h.elems[baseSlice(args[0])] = true
		s.doHavoc(h)
		set(T.fresh(OFresh, "copy", types.Typ[types.Int]))
	case "delete":
		s.write(T.mk(OMapHas, "", nil, args[0], args[1]), cBool(false))
		s.event(&Event{Kind: "call", Name: "delete", Args: args})
	case "recover":
		if s.panicking != nil {
			p := s.panicking
			s.panicking = nil
			set(T.mk(OIface, "panic", nil, p))
			if ins != nil {
				f.env[ins].Typ = p.Typ
			}
			return
		}
		set(cNil())
	case "print", "println":
		s.event(&Event{Kind: "call", Name: name, Args: args})
	case "close":
		s.event(&Event{Kind: "call", Name: "close", Args: args})
	case "min", "max":
		set(T.mk(OCall, name, args[0].Typ, args...))
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		var t types.Type
		if ins != nil {
			t = ins.Type()
		}
		set(T.fresh(OFresh, name, t))
	}
}

// mapVersion stands for a map at a moment (for its length)
func (s *State) mapVersion(m *Term) *Term {
	for x := s.mem; x != nil; x = x.prev {
		if x.kind == mWrite && (x.addr.Op == OMapHas) && (x.addr.Args[0] == m || objectsMayEqual(x.addr.Args[0], m, s.facts)) {
			return T.mk(OLd, fmt.Sprintf("map%d", x.id), m.Typ, m)
		}
		if x.kind == mHavoc {
			probe := T.mk(OMapHas, "", nil, m, T.mk(OParam, "anykey", nil))
			if x.hv.matches(probe) {
				return T.mk(OLd, fmt.Sprintf("map%d", x.id), m.Typ, m)
			}
		}
	}
	return m
}

func (s *State) appendT(a, b *Term, st types.Type) *Term {
	et := elemType(st)
	if b.isNil() {
		return a
	}
	// known elements (variadic call)
	if b.Op == OSlice && (b.Args[0].Op == OAlloc) {
		if n, ok := polyOf(mkLen(b)).constant(); ok && n.IsInt() && n.Num().Int64() <= 16 {
			elems := []*Term{a}
			for i := int64(0); i < n.Num().Int64(); i++ {
				v := s.loadT(idxAddr(b, cInt(i), et), et)
				s.escape(v)
				elems = append(elems, v)
			}
			if a.Op == OAppend {
				// one append of all of them
				elems = append(append([]*Term{}, a.Args...), elems[1:]...)
			}
			return T.mk(OAppend, "", st, elems...)
		}
	}
	if b.Op == OAppend && b.Args[0].isNil() {
		return T.mk(OAppend, "", st, append([]*Term{a}, b.Args[1:]...)...)
	}
	s.escape(b)
	return T.mk(OAppendS, "", st, a, b)
}

// ---- everything else

func (e *Engine) simple(s *State, f *Frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		nm := "new"
		if !ins.Heap {
			nm = "local"
		} else if readOnlyElsewhere(ins, 0) {
			nm = "kept"
		}
		a := T.fresh(OAlloc, nm+"_"+ins.Comment, ins.Type())
		f.env[ins] = a
	case *ssa.Phi:
		panic("phi")
	case *ssa.BinOp:
		f.env[ins] = e.binop(s, ins.Op, s.val(f, ins.X), s.val(f, ins.Y), ins.X.Type(), ins.Type())
	case *ssa.UnOp:
		x := s.val(f, ins.X)
		switch ins.Op {
		case token.MUL:
			if g, ok := ins.X.(*ssa.Global); ok {
				if v := globalValue(g); v != nil {
					f.env[ins] = v
					return
				}
			}
			f.env[ins] = s.loadT(x, ins.Type())
		case token.NOT:
			f.env[ins] = bNot(x)
		case token.SUB:
			if isIntT(ins.Type()) {
				f.env[ins] = nNeg(x)
			} else {
				f.env[ins] = nNeg(x)
			}
		default:
			if ins.Op == token.ARROW {
				r := T.fresh(OFresh, "recv", ins.Type())
				s.event(&Event{Kind: "call", Name: "recv", Args: []*Term{x}, Res: r})
				if ins.CommaOk {
					r = T.mk(OTuple, "", nil, T.fresh(OFresh, "recv.0", nil), T.fresh(OFresh, "recv.1", types.Typ[types.Bool]))
				}
				f.env[ins] = r
				return
			}
			f.env[ins] = T.mk(OBin, ins.Op.String(), ins.Type(), x)
		}
	case *ssa.ChangeType:
		f.env[ins] = retype(s.val(f, ins.X), ins.Type())
	case *ssa.ChangeInterface:
		f.env[ins] = s.val(f, ins.X)
	case *ssa.Convert:
		f.env[ins] = convert(s.val(f, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		f.env[ins] = T.mk(OConv, typeName(ins.Type()), ins.Type(), s.val(f, ins.X))
	case *ssa.MakeInterface:
		x := s.val(f, ins.X)
		t := T.mk(OIface, typeName(ins.X.Type()), ins.X.Type(), x)
		f.env[ins] = t
	case *ssa.MakeClosure:
		var bind []*Term
		for _, b := range ins.Bindings {
			bind = append(bind, s.val(f, b))
		}
		f.env[ins] = closureTerm(ins.Fn.(*ssa.Function), bind)
	case *ssa.MakeMap:
		f.env[ins] = T.fresh(OMake, "map", ins.Type())
	case *ssa.MakeSlice:
		n := s.val(f, ins.Len)
		f.env[ins] = T.fresh(OMake, "slice", ins.Type(), n)
	case *ssa.MakeChan:
		f.env[ins] = T.fresh(OFresh, "chan", ins.Type())
	case *ssa.FieldAddr:
		f.env[ins] = fldAddr(s.val(f, ins.X), deref(ins.X.Type()), ins.Field)
	case *ssa.Field:
		f.env[ins] = mkField(s.val(f, ins.X), ins.Field, ins.Type())
	case *ssa.IndexAddr:
		f.env[ins] = idxAddr(s.val(f, ins.X), s.val(f, ins.Index), deref(ins.Type()))
	case *ssa.Index:
		x, i := s.val(f, ins.X), s.val(f, ins.Index)
		if k, ok := i.intVal(); ok && x.Op == OStruct && int(k) < len(x.Args) {
			f.env[ins] = x.Args[k]
		} else {
			f.env[ins] = T.mk(OCall, "index", ins.Type(), x, i)
		}
	case *ssa.Lookup:
		x, i := s.val(f, ins.X), s.val(f, ins.Index)
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			v := s.mapLoad(x, i, mt)
			if ins.CommaOk {
				has := s.load(T.mk(OMapHas, "", nil, x, i), types.Typ[types.Bool])
				if has.Typ == nil {
					has.Typ = types.Typ[types.Bool]
				}
				f.env[ins] = T.mk(OTuple, "", nil, v, has)
			} else {
				f.env[ins] = v
			}
			return
		}
		f.env[ins] = T.mk(OCall, "index", ins.Type(), x, i)
	case *ssa.MapUpdate:
		m, k, v := s.val(f, ins.Map), s.val(f, ins.Key), s.val(f, ins.Value)
		mt := ins.Map.Type().Underlying().(*types.Map)
		s.storeT(mapEnt(m, k, mt), v, mt.Elem())
		s.write(T.mk(OMapHas, "", nil, m, k), cBool(true))
	case *ssa.Range:
		f.env[ins] = T.mk(OTuple, "range", ins.X.Type(), s.val(f, ins.X))
	case *ssa.Next:
		it := s.val(f, ins.Iter)
		x := it.Args[0]
		ok := T.fresh(OFresh, "rangeok", types.Typ[types.Bool], x)
		if ins.IsString {
			c := T.fresh(OFresh, "strrune", types.Typ[types.Rune], x)
			rangeRunes[ok] = c
			f.env[ins] = T.mk(OTuple, "", nil, ok, T.fresh(OFresh, "stridx", types.Typ[types.Int], x), c)
			return
		}
		mt := it.Typ.Underlying().(*types.Map)
		k := T.fresh(OFresh, "mapkey", mt.Key(), x)
		if st, isA := mt.Key().Underlying().(*types.Array); isA && st.Len() <= 8 {
			var fs []*Term
			for i := int64(0); i < st.Len(); i++ {
				fs = append(fs, T.mk(OField, fmt.Sprint(i), st.Elem(), k))
			}
			k = T.mk(OStruct, typeName(mt.Key()), mt.Key(), fs...)
		} else if st, isS := mt.Key().Underlying().(*types.Struct); isS && isFlat(mt.Key()) {
			var fs []*Term
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, T.mk(OField, fmt.Sprint(i), st.Field(i).Type(), k))
			}
			k = T.mk(OStruct, typeName(mt.Key()), mt.Key(), fs...)
		}
		rangeKeys[ok] = k
		v := s.mapLoad(x, k, mt)
		f.env[ins] = T.mk(OTuple, "", nil, ok, k, v)
	case *ssa.Slice:
		x := s.val(f, ins.X)
		lo := cInt(0)
		if ins.Low != nil {
			lo = s.val(f, ins.Low)
		}
		var hi *Term
		xt := ins.X.Type()
		if ins.High != nil {
			hi = s.val(f, ins.High)
		} else if at, ok := deref(xt).Underlying().(*types.Array); ok {
			hi = cInt(at.Len())
		} else {
			hi = mkLen(x)
		}
		f.env[ins] = mkSlice(x, lo, hi, ins.Type(), isStringT(xt))
	case *ssa.SliceToArrayPointer:
		f.env[ins] = T.mk(OConv, typeName(ins.Type()), ins.Type(), s.val(f, ins.X))
	case *ssa.Store:
		s.storeT(s.val(f, ins.Addr), s.val(f, ins.Val), deref(ins.Addr.Type()))
	case *ssa.TypeAssert:
		x := s.val(f, ins.X)
		var v, ok *Term
		_, isIf := ins.AssertedType.Underlying().(*types.Interface)
		pre := ""
		if isIf {
			pre = "iface:"
		}
		if x.Op == OIface && x.Typ != nil && x.Aux != "panic" {
			if isIf {
				if types.Implements(x.Typ, ins.AssertedType.Underlying().(*types.Interface)) {
					v, ok = x, cBool(true)
				} else {
					v, ok = cNil(), cBool(false)
				}
			} else if types.Identical(x.Typ, ins.AssertedType) {
				v, ok = x.Args[0], cBool(true)
			} else {
				v, ok = zeroOf(ins.AssertedType), cBool(false)
			}
		} else {
			v = T.mk(OTAssert, pre+typeName(ins.AssertedType), ins.AssertedType, x)
			ok = T.mk(OTAssertOK, pre+typeName(ins.AssertedType), types.Typ[types.Bool], x)
		}
		if ins.CommaOk {
			f.env[ins] = T.mk(OTuple, "", nil, v, ok)
		} else {
			f.env[ins] = v
		}
	case *ssa.Extract:
		f.env[ins] = mkExtract(s.val(f, ins.Tuple), ins.Index, ins.Type())
	case *ssa.Send:
		s.event(&Event{Kind: "call", Name: "send", Args: []*Term{s.val(f, ins.Chan), s.val(f, ins.X)}})
	default:
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = T.fresh(OFresh, fmt.Sprintf("%T", ins), v.Type())
		}
	}
}

func mapEnt(m, k *Term, mt *types.Map) *Term {
	return T.mk(OMapEnt, "", types.NewPointer(mt.Elem()), m, k)
}

func (s *State) mapLoad(m, k *Term, mt *types.Map) *Term {
	return s.loadT(mapEnt(m, k, mt), mt.Elem())
}

func mkSlice(x, lo, hi *Term, typ types.Type, str bool) *Term {
	if k, ok := lo.intVal(); ok && k == 0 && hi == mkLen(x) && x.Op != OAlloc && x.Op != OFld {
		return x
	}
	if str && x.isStrC() {
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if ok1 && ok2 && a >= 0 && b >= a && int(b) <= len(x.strVal()) {
			return cStr(x.strVal()[a:b])
		}
	}
	if x.Op == OSlice {
		return T.mk(OSlice, "", typ, x.Args[0], nAdd(x.Args[1], lo), nAdd(x.Args[1], hi))
	}
	return T.mk(OSlice, "", typ, x, lo, hi)
}

// retype keeps the value; the type matters for interface dispatch only
func retype(x *Term, t types.Type) *Term { return x }

func intSize(t types.Type) (int, bool) {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func convert(x *Term, from, to types.Type) *Term {
	if isIntT(from) && isIntT(to) {
		fs, fsg := intSize(from)
		t, tsg := intSize(to)
		if x.isNumC() {
			v := x.numVal()
			if tsg && t >= 64 || v.Sign() >= 0 && v.Num().BitLen() < t {
				return x
			}
		}
		if t > fs && (tsg || !fsg) || t == fs && tsg == fsg {
			return x
		}
		return T.mk(OConv, typeName(to.Underlying()), to, x)
	}
	if isStringT(from) && isStringT(to) || isFloatT(from) && isFloatT(to) && typeName(from.Underlying()) == typeName(to.Underlying()) {
		return x
	}
	if isIntT(from) && isFloatT(to) && x.isNumC() {
		return x
	}
	// string <-> []byte and back
	if x.Op == OConv && x.Args[0].Typ != nil && typeName(x.Args[0].Typ.Underlying()) == typeName(to.Underlying()) && !isIntT(from) && !isFloatT(from) {
		return x.Args[0]
	}
	return T.mk(OConv, typeName(to.Underlying()), to, x)
}

func (e *Engine) binop(s *State, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return cmpT(op.String(), x, y, xt)
	}
	if isStringT(xt) && op == token.ADD {
		return mkConcat(x, y)
	}
	if isIntT(xt) {
		switch op {
		case token.ADD:
			return nAdd(x, y)
		case token.SUB:
			return nSub(x, y)
		case token.MUL:
			return nMul(x, y)
		case token.QUO:
			if k, ok := y.intVal(); ok && k == 1 {
				return x
			}
			if x.isNumC() && y.isNumC() && y.numVal().Sign() != 0 {
				a, _ := x.intVal()
				b, _ := y.intVal()
				if b != 0 {
					return cInt(a / b)
				}
			}
		case token.REM:
			if x.isNumC() && y.isNumC() && y.numVal().Sign() != 0 {
				a, _ := x.intVal()
				b, _ := y.intVal()
				if b != 0 {
					return cInt(a % b)
				}
			}
		case token.OR, token.AND, token.XOR:
			if x.ID > y.ID {
				x, y = y, x
			}
		}
		return T.mk(OBin, op.String(), rt, x, y)
	}
	if isFloatT(xt) && (op == token.ADD || op == token.MUL) && x.ID > y.ID {
		x, y = y, x
	}
	return T.mk(OBin, op.String(), rt, x, y)
}

var paramOf = map[string]*ssa.Function{}

// paramTerm is the parameter name of fn; two functions of the same name have parameters of their own
func paramTerm(fn *ssa.Function, name string, t types.Type) *Term {
	k := fn.Name()
	if o := paramOf[k]; o == nil {
		paramOf[k] = fn
	} else if o != fn {
		k = shortFn(fn)
	}
	return T.mk(OParam, k+":"+name, t)
}
