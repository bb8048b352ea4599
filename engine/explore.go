package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	maxPreempt int
	delays     int // departures from round robin when a goroutine blocks; -1: any
	maxSteps   int
	mapOrder   string
	maxPaths   int
	timeout    time.Duration
	workers    int
	solver     string
	solverMS   int
	params     map[string]int
	maxViol    int
	ticks      int
	samples    int
	flags      map[string]bool
}

// Explorer explores all paths of one harness.
type Explorer struct {
	P       *Program
	fn      *ssa.Function
	harness string
	cfg     Config
	known   func(v *Violation) bool

	mu       sync.Mutex
	cond     *sync.Cond
	work     []*Item
	busy     int
	stop     bool
	deadline time.Time
	over     atomic.Bool // the time budget and its grace are used up: running paths end

	viols    []*Violation
	violSeen map[string]int

	paths, aborted, complete, branches, forks, asserts, assertQ, rewritten int
	steps                                                                  int64
	schedules                                                              int
	incompl                                                                map[string]int
	reached                                                                map[string]int
	funcs                                                                  map[*fnInfo]int
	queries, sat, unsat, unknown                                           int
	solverTime, solverMax                                                  time.Duration
	samples                                                                []Sample
	timedOut                                                               bool

	cert cert

	orderSeen                                        map[[32]byte]bool
	orderQ, orderSat, orderSkipped, guided, guidedOK int
}

// Sample is one explored path with concrete values, for native validation.
type Sample struct {
	Nondets []ReplayVal
	Sched   []SchedStep
	Obs     []string
	Conc    bool
}

type Worker struct {
	e      *Explorer
	solver *Solver
	cur    *Item
	std    map[*ssa.Global]*Value // std globals, shared over the worker's paths
	inited map[*ssa.Package]int
	noinit map[*ssa.Global]string // std globals whose initialiser could not be run
	rtypes map[string]*Value
	funcs  map[*fnInfo]int

	branches, forks, asserts, assertQ, rewritten, small int
	incompl                                             map[string]int
}

func (w *Worker) incomplete(why string) { w.incompl[why]++ }

func (e *Explorer) add(it *Item) {
	e.mu.Lock()
	e.work = append(e.work, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) violation(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := v.Kind + "|" + v.Label
	e.violSeen[key]++
	if e.violSeen[key] <= 3 {
		e.viols = append(e.viols, v)
	}
	if e.known == nil || !e.known(v) {
		n := 0
		for _, x := range e.viols {
			if e.known == nil || !e.known(x) {
				n++
			}
		}
		if n >= e.cfg.maxViol {
			e.stop = true
			e.cond.Broadcast()
		}
	}
}

func (e *Explorer) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.violSeen = map[string]int{}
	e.incompl = map[string]int{}
	e.reached = map[string]int{}
	e.funcs = map[*fnInfo]int{}
	e.deadline = time.Now().Add(e.cfg.timeout)
	e.work = []*Item{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.cfg.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	t := time.AfterFunc(e.cfg.timeout, func() {
		e.mu.Lock()
		if len(e.work) > 0 || e.busy > 0 {
			e.timedOut = true
		}
		e.stop = true
		e.mu.Unlock()
		e.cond.Broadcast()
	})
	t2 := time.AfterFunc(e.cfg.timeout+15*time.Second, func() { e.over.Store(true) })
	wg.Wait()
	t.Stop()
	t2.Stop()
	if e.timedOut {
		e.incompl["time budget exhausted with paths left"] += len(e.work) + 1
	}
}

func (e *Explorer) worker() {
	w := &Worker{e: e, std: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, noinit: map[*ssa.Global]string{}, rtypes: map[string]*Value{}, funcs: map[*fnInfo]int{}, incompl: map[string]int{}}
	defer func() {
		e.mu.Lock()
		defer e.mu.Unlock()
		e.branches += w.branches
		e.forks += w.forks
		e.asserts += w.asserts
		e.assertQ += w.assertQ
		e.rewritten += w.rewritten
		for k, v := range w.incompl {
			e.incompl[k] += v
		}
		for k, v := range w.funcs {
			e.funcs[k] += v
		}
		if w.solver != nil {
			s := w.solver
			e.queries += s.Queries
			e.sat += s.Sat
			e.unsat += s.Unsat
			e.unknown += s.Unknown
			e.solverTime += s.Time
			if s.Max > e.solverMax {
				e.solverMax = s.Max
			}
			s.Close()
		}
	}()
	for {
		e.mu.Lock()
		for len(e.work) == 0 && e.busy > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.work) == 0 || (e.cfg.maxPaths > 0 && e.paths >= e.cfg.maxPaths) {
			if e.cfg.maxPaths > 0 && e.paths >= e.cfg.maxPaths && len(e.work) > 0 && !e.stop {
				e.stop = true
				e.incompl["path budget exhausted"]++
			}
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.busy++
		e.paths++
		e.mu.Unlock()
		if w.solver == nil {
			w.solver = NewSolver(e.cfg.solver, e.cfg.solverMS)
		}
		w.runPath(it)
		e.mu.Lock()
		e.busy--
		if e.busy == 0 && len(e.work) == 0 {
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

func (w *Worker) runPath(it *Item) {
	e := w.e
	w.cur = it
	p := &Path{w: w, tt: NewTerms(), prefix: it.prefix, model: Model{}, memo: map[*Term]uint64{}, names: map[string]int{},
		globals: map[any]*Value{}, extra: map[string]any{}, reached: map[string]bool{}}
	p.sched = &Sched{p: p, shadow: map[*Value]*shadow{}, exited: make(chan struct{}, 4096), guide: it.guide}
	if !e.cfg.flags["norace"] && !e.cfg.flags["noorder"] && it.guide == nil {
		p.sched.ord = &Order{s: p.sched, lastW: map[*Value]*oseg{}, ops: map[any][]oop{}}
	}
	g := p.sched.newG("main")
	p.g = g
	w.solver.Push()
	outcome := "complete"
	func() {
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case pathAbort:
				outcome = r.why
				if r.why == "steps" {
					w.incomplete("step limit")
				}
				if r.why == "time" {
					w.incomplete("time budget exhausted within a path")
				}
			case unsupported:
				outcome = "unsupported"
				w.incomplete("unsupported: " + r.msg + " at " + short(p.g.where()))
				if os.Getenv("GOSYM_TRACE") != "" && traced.Add(1) <= 4 {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", r.msg, p.g.where())
				}
			case targetPanic:
				outcome = "panic"
				func() {
					defer func() { recover() }()
					p.flushAsserts()
					msg := p.panicText(r)
					p.fail("panic", "panic: "+msg, "at "+r.where, p.model)
				}()
			default:
				outcome = "engine"
				w.incomplete(fmt.Sprintf("engine: %v at %s", r, short(p.g.where())))
				if os.Getenv("GOSYM_TRACE") != "" && traced.Add(1) <= 4 {
					fmt.Fprintln(os.Stderr, "ENGINE", r, p.g.where(), string(debug.Stack()))
				}
			}
		}()
		w.initModule(p, g)
		g.call(e.fn, nil, nil)
		p.flushAsserts()
		if debugModel {
			memo := map[*Term]uint64{}
			for i, c := range p.pc {
				if v, ok := evalTerm(c, p.model, memo); ok && v == 0 {
					fmt.Fprintf(os.Stderr, "MODEL broken at pc %d of %d (prefix %d trail %d): %s\n", i, len(p.pc), len(p.prefix), len(p.trail), c)
					break
				}
			}
		}
	}()
	p.sched.killAll()
	w.solver.Pop()
	if outcome == "complete" && p.sched.conc {
		p.checkOrders()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.steps += int64(p.steps)
	if it.guide != nil {
		e.guided++
		if p.viol != nil {
			e.guidedOK++
		}
	}
	if it.guide == nil {
		e.cert.add(p.trail, (outcome == "complete" || outcome == "assume") && p.viol == nil)
	}
	if outcome == "complete" {
		e.complete++
		for l := range p.reached {
			e.reached[l]++
		}
		if p.sched.conc {
			e.schedules++
		}
		if len(e.samples) < e.cfg.samples || (len(p.obs) > 0 && e.complete%97 == 0) {
			s := Sample{Nondets: p.replayVals(p.model), Obs: p.concreteObs(), Sched: p.sched_, Conc: p.sched.conc}
			if len(e.samples) < e.cfg.samples {
				e.samples = append(e.samples, s)
			} else {
				e.samples[(e.complete/97)%e.cfg.samples] = s
			}
		}
	} else {
		e.aborted++
	}
	if os.Getenv("GOSYM_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "path %d %s steps=%d dec=%d pc=%d conc=%v\n", e.paths, outcome, p.steps, len(p.trail), len(p.pc), p.sched.conc)
	}
}

var debugModel = os.Getenv("GOSYM_MODEL") != ""

var traced atomic.Int32

func short(s string) string {
	parts := strings.Split(s, " < ")
	if len(parts) > 4 {
		parts = parts[:4]
	}
	return strings.Join(parts, " < ")
}

func (e *Explorer) incompleteList() []string {
	var out []string
	for k, v := range e.incompl {
		out = append(out, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(out)
	return out
}
