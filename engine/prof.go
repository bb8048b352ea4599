package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"sync"
)

// branchProf counts, for debugging, where branches need the solver.
var branchProf func(string)

var branchDump = func() {}

func init() {
	if f := os.Getenv("GOSYM_PPROF"); f != "" {
		w, err := os.Create(f)
		if err == nil && pprof.StartCPUProfile(w) == nil {
			branchDump = pprof.StopCPUProfile
		}
	}
	if os.Getenv("GOSYM_BRANCHES") == "" {
		return
	}
	var mu sync.Mutex
	n := map[string]int{}
	branchProf = func(s string) {
		mu.Lock()
		n[s]++
		mu.Unlock()
	}
	branchDump = func() {
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return n[ks[i]] > n[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Fprintf(os.Stderr, "%6d %.400s\n", n[k], k)
			}
		}
	}
}
