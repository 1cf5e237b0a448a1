package main

import (
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"strconv"
	"strings"
)

type property struct {
	id          string
	check       func(r *Report)
	explain     string
	assumptions []string
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	prop := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "quick", "quick or thorough")
	ev := flag.String("evidence", "", "evidence file")
	known := flag.String("known", "", "known findings")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	if *list {
		for _, p := range properties {
			fmt.Println(p.id)
		}
		return
	}
	if *prop == "" {
		if err := load(*repo); err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if os.Getenv("CKREAD") != "" {
			dbgReaders()
		}
		for _, n := range flag.Args() {
			f := lookup(n)
			if f == nil {
				for _, g := range allFuncs {
					if strings.HasSuffix(g.String(), n) {
						f = g
					}
				}
			}
			if f == nil {
				fmt.Println("no", n)
				continue
			}
			if os.Getenv("CKEFF") != "" {
				ef := effectsOf(f)
				fmt.Println(n, ef.unknown, ef.why, len(ef.classes))
				for k := range ef.classes {
					fmt.Print("   ", k)
					for g := range reach(f) {
						if localEffects(g).classes[k] {
							fmt.Print(" ", fnKey(g))
						}
					}
					fmt.Println()
				}
				continue
			}
			if p := os.Getenv("CKOUT"); p != "" {
				dumpCfg = outside(strings.Split(p, ",")...)
			} else if p := os.Getenv("CKPURE"); p != "" {
				dumpCfg = asPure(strings.Split(p, ",")...)
			} else if p := os.Getenv("CKEV"); p != "" {
				dumpCfg = asEvents(strings.Split(p, ",")...)
			}
			if p, q := os.Getenv("CKPURE"), os.Getenv("CKEV"); p != "" && q != "" {
				pure, evs := strings.Split(p, ","), strings.Split(q, ",")
				is := func(f *ssa.Function, list []string) bool {
					for _, n := range list {
						if lookup(n) == f {
							return true
						}
					}
					return false
				}
				dumpCfg = Config{Mode: func(f *ssa.Function) Mode {
					switch {
					case is(f, pure):
						return MPure
					case is(f, evs):
						return MEvent
					}
					return MInline
				}}
			}
			if k := extraCfg[os.Getenv("CKCFG")]; k != nil {
				dumpCfg = k()
			}
			dump(Analyse(f, dumpCfg))
		}
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for _, p := range properties {
		if p.id != *prop {
			continue
		}
		r := newReport(p.id, *tier)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("CKDEBUG") != "" {
						panic(x)
					}
					r.need(false, "undecided", "analysis", noPos, "the analysis failed: %v", x)
				}
			}()
			if err := load(*repo); err != nil {
				r.need(false, "load", "repository", noPos, "%v", err)
				return
			}
			p.check(r)
		}()
		os.Exit(r.finish(*ev, *known, p.explain, p.assumptions, seed))
	}
	fmt.Println("no such property", *prop)
	os.Exit(1)
}

var dumpCfg Config

func dump(e *Engine) {
	fmt.Println("==", e.entry, len(e.Paths), "paths", e.steps, "steps", e.Err)
	for i, p := range e.Paths {
		dumpPath(i, p)
	}
}

func dumpPath(i int, p *Path) {
	fmt.Printf("-- path %d %s %v\n", i, p.Kind, p.Results)
	if p.Panic != nil {
		fmt.Println("   panic", p.Panic)
	}
	for _, f := range p.Facts() {
		fmt.Println("   if", f.Cond, f.Val)
	}
	for _, ev := range p.Events() {
		l := ""
		if ev.Loop != nil {
			l = fmt.Sprint("L", ev.Loop.ID)
		}
		fmt.Println("   ev", ev.Kind, ev.Name, ev.Args, "=>", ev.Res, l, pos(ev.Pos))
	}
	for k, v := range p.Next {
		fmt.Println("   next", k, "=", v, "entry", p.Loop.Entry[k])
	}
	for m := p.Mem; m != nil && os.Getenv("CKMEM") != "0"; m = m.prev {
		if m.kind == mWrite {
			if os.Getenv("CKMEM") == "" && (strings.HasPrefix(m.addr.String(), "local_") || strings.HasPrefix(m.addr.String(), "new_varargs")) {
				continue
			}
			fmt.Println("   mem", m.addr, ":=", m.val, "\t@", m.id)
		} else {
			h := m.hv
			fmt.Print("   havoc @", m.id, " all=", h.all, " rest=", h.rest)
			for k := range h.other {
				fmt.Print(" other ", k)
			}
			for k := range h.exact {
				fmt.Print(" exact ", k)
			}
			for k := range h.class {
				fmt.Print(" class ", k)
			}
			for k := range h.elems {
				fmt.Print(" elems ", k)
			}
			for k := range h.under {
				fmt.Print(" under ", k)
			}
			fmt.Println()
		}
	}
}

// analysis settings by name, for looking at paths while developing
var extraCfg = map[string]func() Config{}
