package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

// PkgSet is one loaded harness package with the program it exercises.
type PkgSet struct {
	repo, hdir, hpkg string
	P                *Program
	hs               []*Harness
	pkgs             []*packages.Package
	native           *Native_
}

type Finding struct {
	Prop, Harness, Kind, Label, What string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

// readFindings reads the committed list of known findings, lines of the form
//
//	known: property=C06 harness=HX kind=race label="..." what fails
func readFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		r, ok := strings.CutPrefix(strings.TrimSpace(l), "known:")
		if !ok {
			continue
		}
		var f Finding
		for {
			r = strings.TrimSpace(r)
			k, v, ok := strings.Cut(r, "=")
			if !ok || strings.Contains(k, " ") {
				break
			}
			var val string
			if strings.HasPrefix(v, `"`) {
				q, err := strconv.QuotedPrefix(v)
				if err != nil {
					break
				}
				val, _ = strconv.Unquote(q)
				r = v[len(q):]
			} else {
				val, r, _ = strings.Cut(v, " ")
			}
			switch k {
			case "property":
				f.Prop = val
			case "harness":
				f.Harness = val
			case "kind":
				f.Kind = val
			case "label":
				f.Label = val
			}
		}
		f.What = strings.TrimSpace(r)
		out = append(out, f)
	}
	return out
}

func (f Finding) matches(prop string, v *Violation) bool {
	return f.Prop == prop && f.Harness == v.Harness && f.Kind == v.Kind && f.Label != "" && f.Label == v.Label
}

// pkgsFor finds the harness packages that have harnesses for the property.
func pkgsFor(hdir, prop string) []string {
	var out []string
	ds, _ := os.ReadDir(hdir)
	for _, d := range ds {
		if !d.IsDir() || d.Name() == "verif" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(hdir, d.Name(), "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			if strings.Contains(string(b), "prop="+prop+" ") || strings.Contains(string(b), "prop="+prop+"\n") {
				out = append(out, d.Name())
				break
			}
		}
	}
	return out
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("harness", "/verif/harness", "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v struct {
		Violation
		Pkg string `json:"pkg"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	set, err := loadSet(*repo, *hdir, v.Pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(dir)
	set.native = newNative(set, dir)
	if *race {
		v.Kind = "race"
	}
	ok, note := set.native.confirm(&v.Violation, 60*time.Second)
	fmt.Println(note)
	if ok {
		fmt.Println("REPRODUCED", v.Kind, v.Label)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func loadSet(repo, hdir, hpkg string) (*PkgSet, error) {
	P, hs, pkgs, err := loadProgram(repo, hdir, hpkg)
	if err != nil {
		return nil, err
	}
	return &PkgSet{repo: repo, hdir: hdir, hpkg: hpkg, P: P, hs: hs, pkgs: pkgs}, nil
}

type harnessReport struct {
	Harness      string         `json:"harness"`
	What         string         `json:"what"`
	Bounds       map[string]any `json:"bounds"`
	Paths        int            `json:"paths_complete"`
	PathsCut     int            `json:"paths_infeasible_or_cut"`
	Nodes        int            `json:"execution_tree_nodes"`
	Steps        int64          `json:"ssa_instructions"`
	Schedules    int            `json:"schedules"`
	Asserts      int            `json:"assertions_met"`
	AssertQ      int            `json:"assertion_queries"`
	OrderQ       int            `json:"order_queries"`
	OrderSat     int            `json:"order_queries_sat"`
	OrderSkip    int            `json:"orders_too_long,omitempty"`
	Guided       int            `json:"predicted_schedules_executed,omitempty"`
	GuidedOK     int            `json:"predicted_schedules_confirmed,omitempty"`
	Rewritten    int            `json:"assertions_true_by_rewriting"`
	Queries      int            `json:"solver_queries"`
	Sat          int            `json:"sat"`
	Unsat        int            `json:"unsat"`
	Unknown      int            `json:"unknown"`
	SolverS      float64        `json:"solver_s"`
	SolverMaxS   float64        `json:"slowest_query_s"`
	WallS        float64        `json:"wall_s"`
	Functions    []string       `json:"functions_encoded"`
	Reached      map[string]int `json:"reached"`
	NotReached   []string       `json:"not_reached,omitempty"`
	Incomplete   []string       `json:"not_covered,omitempty"`
	Exhaustive   bool           `json:"exhaustive_within_bounds"`
	Validated    int            `json:"samples_validated_natively"`
	ValidateFail []string       `json:"sample_mismatches,omitempty"`
	Cert         map[string]any `json:"decision_query"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	only := fs.String("only", "", "harness name")
	tier := fs.String("tier", "", "quick or thorough")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	noReplay := fs.Bool("noreplay", false, "")
	verbose := fs.Bool("v", false, "")
	solver := fs.String("solver", "z3", "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	hdir := filepath.Join(*verif, "harness")
	evdir := filepath.Join(*verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	os.Remove(filepath.Join(evdir, *prop+".json"))
	findings := readFindings(filepath.Join(*verif, "known_findings.txt"))

	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	pkgNames := pkgsFor(hdir, *prop)
	if len(pkgNames) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	var reports []*harnessReport
	var samples []any
	var all []*Violation
	var confirmed []*Violation
	var unconfirmed []map[string]string
	knownSeen := map[int]bool{}
	pkgOfViol := map[*Violation]*PkgSet{}
	notes := map[*Violation]string{}
	budget := 600 * time.Second
	if *tier == "thorough" {
		budget = 6 * time.Hour
	}
	for _, pn := range pkgNames {
		set, err := loadSet(*repo, hdir, pn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		set.native = newNative(set, tmp)
		if !*noReplay {
			go set.native.build("")
		}
		for _, h := range set.hs {
			if h.Prop != *prop || (*only != "" && h.Name != *only) {
				continue
			}
			if v, ok := h.opt(*tier, "skip"); ok && v == "1" {
				continue
			}
			left := budget - time.Since(start)
			if left < 20*time.Second {
				left = 20 * time.Second
			}
			e, rep := runHarness(set, h, *tier, *workers, *solver, left, func(v *Violation) bool {
				for _, f := range findings {
					if f.matches(*prop, v) {
						return true
					}
				}
				return false
			})
			reports = append(reports, rep)
			branchDump()
			for _, v := range e.viols {
				pkgOfViol[v] = set
				all = append(all, v)
			}
			if !*noReplay {
				validate(set, h, e, rep)
			}
			for i, s := range e.samples {
				if i >= 2 {
					break
				}
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": compact(s.Nondets), "observed": s.Obs, "schedule_steps": len(s.Sched)})
			}
			if *verbose {
				b, _ := json.MarshalIndent(rep, "", " ")
				fmt.Println(string(b))
			} else {
				ex := ""
				if !rep.Exhaustive {
					ex = " PARTIAL"
				}
				fmt.Printf("%s %s: %d paths, %d queries (%d assertion), solver %.1fs, wall %.1fs%s\n", *prop, h.Name, rep.Paths, rep.Queries, rep.AssertQ, rep.SolverS, rep.WallS, ex)
				for _, x := range rep.Incomplete {
					fmt.Println("   not covered:", x)
				}
				for _, x := range rep.NotReached {
					fmt.Println("   not reached:", x)
				}
				for _, x := range rep.ValidateFail {
					fmt.Println("   native mismatch:", x)
				}
			}
		}
	}
	// counterexamples: known findings, then native replay of the rest
	type group struct{ vs []*Violation }
	groups := map[string]*group{}
	var order []string
	for _, v := range all {
		isKnown := false
		for i, f := range findings {
			if f.matches(*prop, v) {
				isKnown = true
				if !knownSeen[i] {
					knownSeen[i] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
				}
			}
		}
		if isKnown {
			continue
		}
		k := v.Harness + "|" + v.Kind + "|" + v.Label
		if groups[k] == nil {
			groups[k] = &group{}
			order = append(order, k)
		}
		groups[k].vs = append(groups[k].vs, v)
	}
	confirmBudget := time.Now().Add(200 * time.Second)
	for _, k := range order {
		for i, v := range groups[k].vs {
			if *noReplay {
				confirmed = append(confirmed, v)
				break
			}
			if time.Now().After(confirmBudget) && len(confirmed) > 0 {
				break
			}
			ok, note := pkgOfViol[v].native.confirm(v, 40*time.Second)
			notes[v] = note
			if ok {
				confirmed = append(confirmed, v)
				break
			}
			unconfirmed = append(unconfirmed, map[string]string{"harness": v.Harness, "kind": v.Kind, "label": v.Label, "detail": v.Detail, "replay": note})
			fmt.Printf("   counterexample not reproduced natively: %s %s %q (%s) %s\n", v.Harness, v.Kind, v.Label, v.Detail, note)
			if i >= 2 {
				break
			}
		}
		if len(confirmed) >= 3 {
			break
		}
	}
	for i, v := range confirmed {
		path := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", *prop, i))
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "pkg": pkgOfViol[v].hpkg, "harness": v.Harness, "kind": v.Kind, "label": v.Label,
			"detail": v.Detail, "where": v.Where, "inputs": compact(v.Nondets), "nondets": v.Nondets, "sched": v.Sched, "native": notes[v]}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s %q %s\n   at %s\n   inputs %v\n", v.Harness, v.Kind, v.Label, v.Detail, short(v.Where), compact(v.Nondets))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	}
	writeEvidence(evdir, *prop, *tier, seed, reports, samples, confirmed, unconfirmed, start)
	if len(confirmed) > 0 {
		return 1
	}
	return 0
}

func compact(nd []ReplayVal) []string {
	var out []string
	for _, n := range nd {
		switch n.Kind {
		case "str":
			out = append(out, fmt.Sprintf("%s=%q", n.Name, n.S))
		case "bool":
			out = append(out, fmt.Sprintf("%s=%v", n.Name, n.I != 0))
		case "clock":
		case "now":
			out = append(out, fmt.Sprintf("now=+%dns", n.I-int64(clockBase)))
		default:
			out = append(out, fmt.Sprintf("%s=%d", n.Name, n.I))
		}
	}
	if len(out) > 60 {
		out = append(out[:60], "...")
	}
	return out
}

func runHarness(set *PkgSet, h *Harness, tier string, workers int, solver string, left time.Duration, known func(*Violation) bool) (*Explorer, *harnessReport) {
	def := 120
	if tier == "thorough" {
		def = 1200
	}
	to := time.Duration(h.optInt(tier, "timeout", def)) * time.Second
	if to > left {
		to = left
	}
	mo, ok := h.opt(tier, "maporder")
	if !ok {
		mo = "two"
	}
	cfg := Config{
		maxPreempt: h.optInt(tier, "preempt", 1),
		delays:     h.optInt(tier, "delays", -1),
		maxSteps:   h.optInt(tier, "steps", 2_000_000),
		mapOrder:   mo,
		maxPaths:   h.optInt(tier, "paths", 0),
		timeout:    to,
		workers:    workers,
		solver:     solver,
		solverMS:   h.optInt(tier, "solverms", 20000),
		params:     map[string]int{},
		maxViol:    h.optInt(tier, "maxviol", 6),
		ticks:      h.optInt(tier, "ticks", 0),
		samples:    h.optInt(tier, "samples", 6),
		flags:      map[string]bool{},
	}
	reserved := map[string]bool{"prop": true, "preempt": true, "delays": true, "steps": true, "maporder": true, "paths": true, "timeout": true, "solverms": true, "maxviol": true, "ticks": true, "samples": true, "reach": true, "skip": true, "flags": true}
	bounds := map[string]any{"preemptions": cfg.maxPreempt, "map_iteration_orders": mo, "timeout_s": to.Seconds()}
	if cfg.delays >= 0 {
		bounds["departures_from_round_robin"] = cfg.delays
	}
	for k := range h.Opts {
		k = strings.TrimPrefix(strings.TrimPrefix(k, "quick."), "thorough.")
		if reserved[k] {
			continue
		}
		if _, ok := h.opt(tier, k); ok {
			cfg.params[k] = h.optInt(tier, k, 0)
			bounds[k] = cfg.params[k]
		}
	}
	if f, ok := h.opt(tier, "flags"); ok {
		for _, x := range strings.Split(f, ",") {
			cfg.flags[x] = true
		}
	}
	e := &Explorer{P: set.P, fn: h.fn, harness: h.Name, cfg: cfg, known: known}
	t0 := time.Now()
	e.Run()
	rep := &harnessReport{Harness: h.Name, What: h.Doc, Bounds: bounds, Paths: e.complete, PathsCut: e.aborted, Nodes: 1 + e.forks, Steps: e.steps,
		Schedules: e.schedules, Asserts: e.asserts, AssertQ: e.assertQ, OrderQ: e.orderQ, OrderSat: e.orderSat, OrderSkip: e.orderSkipped, Guided: e.guided, GuidedOK: e.guidedOK, Rewritten: e.rewritten, Queries: e.queries, Sat: e.sat, Unsat: e.unsat, Unknown: e.unknown,
		SolverS: e.solverTime.Seconds(), SolverMaxS: e.solverMax.Seconds(), WallS: time.Since(t0).Seconds(), Reached: e.reached, Incomplete: e.incompleteList()}
	for fi := range e.funcs {
		if fi.module && !fi.harness {
			rep.Functions = append(rep.Functions, strings.ReplaceAll(strings.ReplaceAll(fi.name, modPath+"/internal/verifh/cli", "trc/cmd/trc"), modPath, "trc"))
		}
	}
	sort.Strings(rep.Functions)
	rep.Functions = uniq(rep.Functions)
	if r, ok := h.opt(tier, "reach"); ok {
		for _, l := range strings.Split(r, ",") {
			if e.reached[l] == 0 {
				rep.NotReached = append(rep.NotReached, l)
			}
		}
	}
	if len(e.viols) == 0 {
		res, vars, nodes, d := e.cert.check(cfg.solver)
		rep.Cert = map[string]any{"result": res, "variables": vars, "tree_nodes": nodes, "seconds": d.Seconds()}
		rep.Queries++
		rep.SolverS += d.Seconds()
		switch {
		case res == "unsat":
			rep.Unsat++
		case len(rep.Incomplete) == 0:
			rep.Incomplete = append(rep.Incomplete, "decisions without an executed path (decision query: "+res+")")
		}
	}
	rep.Exhaustive = len(rep.Incomplete) == 0 && len(rep.NotReached) == 0 && len(e.viols) == 0
	return e, rep
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// validate runs sampled paths natively and compares what they observed with
// what the engine predicted.
func validate(set *PkgSet, h *Harness, e *Explorer, rep *harnessReport) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan struct{}, 6)
	for _, s := range e.samples {
		s := s
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			why := ""
			for try := 0; try < 8; try++ {
				o := set.native.run("", h.Name, s.Nondets, s.Sched, false)
				why = ""
				if o.Status != "ok" {
					why = o.Status + " " + o.Label + " " + o.Out
				} else if len(o.Obs) != len(s.Obs) {
					why = fmt.Sprintf("observations differ: engine %v native %v", s.Obs, o.Obs)
				} else {
					for i := range o.Obs {
						if s.Obs[i] != o.Obs[i] && !strings.HasSuffix(s.Obs[i], "=?") {
							why = fmt.Sprintf("engine %s native %s", s.Obs[i], o.Obs[i])
							break
						}
					}
				}
				if why == "" {
					break
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if d := os.Getenv("GOSYM_KEEP"); d != "" && why != "" { // debugging aid
				os.MkdirAll(d, 0o755)
				b, _ := json.Marshal(map[string]any{"harness": h.Name, "nondets": s.Nondets, "sched": s.Sched})
				os.WriteFile(filepath.Join(d, h.Name+".json"), b, 0o644)
				if bin, err := set.native.build(""); err == nil {
					exec.Command("cp", bin, filepath.Join(d, "run")).Run()
				}
			}
			if why == "" {
				rep.Validated++
			} else if len(rep.ValidateFail) < 5 {
				rep.ValidateFail = append(rep.ValidateFail, tail(why, 600)+fmt.Sprint(" inputs ", compact(s.Nondets)))
			}
		}()
	}
	wg.Wait()
}

func writeEvidence(dir, prop, tier string, seed int, reps []*harnessReport, samples []any, viols []*Violation, unconf []map[string]string, start time.Time) {
	states, paths, asserts, queries, val, orders, met, rew, certs := 0, 0, 0, 0, 0, 0, 0, 0, 0
	var steps int64
	solver := 0.0
	ex := true
	fns := map[string]bool{}
	for _, r := range reps {
		states += r.Nodes
		steps += r.Steps
		paths += r.Paths
		asserts += r.AssertQ
		queries += r.Queries
		orders += r.OrderQ
		met += r.Asserts
		rew += r.Rewritten
		solver += r.SolverS
		if r.Cert["result"] == "unsat" {
			certs++
		}
		val += r.Validated
		ex = ex && r.Exhaustive
		for _, f := range r.Functions {
			fns[f] = true
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": states, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
		"exhaustive":                  ex,
		"explanation":                 "states: nodes of the symbolic execution tree (feasible branch, schedule and choice outcomes); transitions: SSA instructions executed symbolically; each completed path covers every input value satisfying its path condition, and its assertions were discharged over all of them, by the term rewriter where it reduces them to true and by the solver (assertion_queries, one per batch) otherwise; order_queries: for each distinct concurrent execution, whether any order of its operations races or deadlocks, decided by the solver over order variables; decision_query: with every choice, schedule decision and feasible branch outcome of a harness as a variable, the solver is asked for values that lead to no path that was executed and whose assertions hold (unsat: there are none)",
		"paths_complete":              paths,
		"assertions_met":              met,
		"assertions_by_rewriting":     rew,
		"assertion_queries":           asserts,
		"decision_queries_unsat":      certs,
		"order_queries":               orders,
		"solver_queries":              queries,
		"solver_s":                    solver,
		"functions_encoded":           fl,
		"harnesses":                   reps,
		"unconfirmed_counterexamples": unconf,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
		"assumptions": []string{
			"bounds as listed per harness; nothing is claimed outside them",
			"goroutine switches only at synchronisation operations of module code, at most the listed number of preemptions (races and lock cycles are in addition decided by the solver over all orders of each execution's operations)",
			"sync.Pool is last-in-first-out and drops nothing; the clock never goes backwards; standard-library models as listed in DESIGN.md",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
