package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func dbgReaders() {
	m := map[*ssa.Function]*effects{}
	summariseBut(m, lookup(compactEv))
	for f, e := range m {
		if !inRepo(f) || f.Synthetic != "" {
			continue
		}
		if os.Getenv("CKREAD") != "all" && f.Object() == nil {
			continue
		}
		if len(e.classes) > 0 || len(e.params) > 0 || e.unknown {
			fmt.Println(shortFn(f), e.unknown, e.why, e.classes, e.params)
		}
	}
}
