package main

import (
	"bufio"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// A cert is the tree of the decisions of a harness: choices of the harness,
// of the schedule, and outcomes of branches on symbolic values that the solver
// found feasible. Once the exploration is done, each decision becomes a
// variable, and the solver is asked for values of them that lead to no path
// that was executed and whose assertions hold.
type cert struct {
	root *certNode
}

type certNode struct {
	n    int32 // outcomes; 0: leaf
	kids map[int64]*certNode
	ok   bool // leaf: executed, and its assertions hold
	open bool // n == -1: there may be further values
}

func (c *cert) add(trail []Dec, ok bool) {
	if c.root == nil {
		c.root = &certNode{}
	}
	nd := c.root
	for _, d := range trail {
		if d.forced || d.n == 0 {
			continue
		}
		if nd.n == 0 {
			nd.n, nd.open, nd.kids = d.n, d.n < 0, map[int64]*certNode{}
		}
		if d.closed {
			nd.open = false
		}
		k := nd.kids[d.v]
		if k == nil {
			k = &certNode{}
			nd.kids[d.v] = k
		}
		nd = k
	}
	nd.ok = ok
}

// check returns "unsat" if every outcome of every decision was executed and
// holds.
func (c *cert) check(solver string) (res string, vars, nodes int, d time.Duration) {
	t0 := time.Now()
	if c.root == nil {
		return "none", 0, 0, 0
	}
	ids := map[string]int{}
	var defs []string
	maxd := -1
	var walk func(nd *certNode, depth int) int
	walk = func(nd *certNode, depth int) int {
		nodes++
		if nd.n == 0 {
			if nd.ok {
				return 0
			}
			return 1
		}
		if depth > maxd {
			maxd = depth
		}
		var vals []int64
		for v := range nd.kids {
			vals = append(vals, v)
		}
		sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
		var sb strings.Builder
		sb.WriteString("(or")
		if nd.n > 0 {
			for v := int64(0); v < int64(nd.n); v++ {
				k := 1
				if kid := nd.kids[v]; kid != nil {
					k = walk(kid, depth+1)
				}
				fmt.Fprintf(&sb, " (and (= d%d %d) N%d)", depth, v, k)
			}
		} else {
			for i, v := range vals {
				fmt.Fprintf(&sb, " (and (= d%d %d) N%d)", depth, i, walk(nd.kids[v], depth+1))
			}
			if nd.open {
				fmt.Fprintf(&sb, " (and (= d%d %d) N1)", depth, len(vals))
			}
		}
		sb.WriteString(")")
		s := sb.String()
		id, ok := ids[s]
		if !ok {
			id = len(defs) + 2
			ids[s] = id
			defs = append(defs, s)
		}
		return id
	}
	root := walk(c.root, 0)
	cmd := exec.Command(solver, "-in", "-T:120")
	in, err := cmd.StdinPipe()
	if err != nil {
		return "error", maxd + 1, nodes, 0
	}
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return "error", maxd + 1, nodes, 0
	}
	w := bufio.NewWriter(in)
	for i := 0; i <= maxd; i++ {
		fmt.Fprintf(w, "(declare-const d%d Int)\n", i)
	}
	fmt.Fprintf(w, "(define-fun N0 () Bool false)\n(define-fun N1 () Bool true)\n")
	for i, s := range defs {
		fmt.Fprintf(w, "(declare-const N%d Bool)\n(assert (= N%d %s))\n", i+2, i+2, s)
	}
	fmt.Fprintf(w, "(assert N%d)\n(check-sat)\n", root)
	w.Flush()
	in.Close()
	cmd.Wait()
	return strings.TrimSpace(out.String()), maxd + 1, nodes, time.Since(t0)
}
