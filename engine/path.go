package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Dec is one recorded decision of a path.
type Dec struct {
	v      int64
	excl   []uint64 // pending: any value outside excl
	forced bool
	n      int32 // number of outcomes of the decision; -1: those found by the solver
	closed bool  // n == -1: the solver found no further value
}

// Item is a path still to be explored.
type Item struct {
	prefix []Dec
	model  map[string]uint64
	guide  *Guide
}

// Nondet is one value handed to the harness or its environment, in order.
type Nondet struct {
	Kind string // int, bool, byte, str, choose, now, param, order, select
	Name string
	t    *Term
	v    Value
	n    int64
}

type Path struct {
	clk map[*Term]int // readings of the model clock, by rank

	w      *Worker
	g      *G // running interpreted goroutine
	sched  *Sched
	tt     *Terms
	prefix []Dec
	trail  []Dec

	model Model
	memo  map[*Term]uint64
	vars  []*Term
	names map[string]int
	pc    []*Term
	sent  int

	divSeen map[*Term]bool
	divAt   int
	hasDiv  bool

	vsets    map[*Term]*varSet
	doms     map[*Term]*byteDom
	domSeen  int
	domMixed bool

	pcSet  map[*Term]bool
	pcSeen int

	pendA []pendAssert

	nondets []Nondet
	sched_  []SchedStep
	obs     []string
	tokens  []Token

	globals map[any]*Value // module globals of this path
	extra   map[string]any

	steps  int
	now    *Term
	nowSeq int

	reached map[string]bool
	viol    *Violation
}

type pendAssert struct {
	cond  *Term
	label string
}

type Violation struct {
	Label   string            `json:"label"`
	Kind    string            `json:"kind"` // assert, panic, deadlock, race
	Detail  string            `json:"detail"`
	Where   string            `json:"where"`
	Model   map[string]uint64 `json:"-"`
	Nondets []ReplayVal       `json:"nondets"`
	Sched   []SchedStep       `json:"sched,omitempty"`
	Harness string            `json:"harness"`
}

type pathAbort struct{ why string }

func (p *Path) fresh(name string, w uint8, def uint64) *Term {
	n := p.names[name]
	p.names[name] = n + 1
	full := fmt.Sprintf("%s#%d", name, n)
	t := p.tt.Var(full, w)
	p.vars = append(p.vars, t)
	if _, ok := p.model[t]; !ok {
		if v, ok := p.w.cur.model[full]; ok {
			p.model[t] = v & mask(w)
		} else {
			p.model[t] = def & mask(w)
		}
	}
	return t
}

// constrain adds a condition that holds under the current model by
// construction, or is otherwise re-established with the solver.
func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		p.flushAsserts()
		panic(pathAbort{"assume"})
	}
	p.flushAsserts()
	p.pc = append(p.pc, c)
	if v, ok := evalTerm(c, p.model, p.memo); ok && v == 1 {
		return
	}
	res, m := p.query(nil)
	switch res {
	case Unsat:
		panic(pathAbort{"assume"})
	case Unknown:
		p.w.incomplete("solver unknown on assumption")
		panic(pathAbort{"unknown"})
	}
	p.setModel(m)
}

func (p *Path) setModel(m Model) {
	for _, v := range p.vars {
		if x, ok := m[v]; ok {
			p.model[v] = x
		}
	}
	p.memo = map[*Term]uint64{}
}

// query checks pc && extra.
func (p *Path) query(extra *Term) (Res, Model) {
	s := p.w.solver
	if cs := p.constDiv(extra); cs != nil {
		t0 := time.Now()
		if res, m, ok := liaCheck(s.path, cs, s.timeout); ok {
			s.count(res, time.Since(t0))
			for _, v := range p.vars {
				if _, ok := m[v]; m != nil && !ok {
					m[v] = p.model[v]
				}
			}
			return res, m
		}
	}
	for p.sent < len(p.pc) {
		s.Assert(p.pc[p.sent])
		p.sent++
	}
	return s.Check(extra, p.vars)
}

// constDiv returns the conjuncts of a query that divides by constants, or nil.
func (p *Path) constDiv(extra *Term) []*Term {
	seen := p.divSeen
	if seen == nil {
		seen = map[*Term]bool{}
		p.divSeen = seen
	}
	for !p.hasDiv && p.divAt < len(p.pc) {
		p.hasDiv = hasConstDiv(p.pc[p.divAt], seen)
		p.divAt++
	}
	if !p.hasDiv && (extra == nil || !hasConstDiv(extra, map[*Term]bool{})) {
		return nil
	}
	cs := append([]*Term(nil), p.pc...)
	if extra != nil {
		cs = append(cs, extra)
	}
	return cs
}

func (p *Path) modelNamed(m Model) map[string]uint64 {
	out := make(map[string]uint64, len(p.vars))
	for _, v := range p.vars {
		if x, ok := m[v]; ok {
			out[v.name] = x
		} else if x, ok := p.model[v]; ok {
			out[v.name] = x
		}
	}
	return out
}

func (p *Path) push(d Dec, m Model) {
	pre := make([]Dec, len(p.trail)+1)
	copy(pre, p.trail)
	pre[len(p.trail)] = d
	p.w.e.add(&Item{prefix: pre, model: p.modelNamed(m), guide: p.w.cur.guide})
}

// branch decides a condition, exploring both sides when both are feasible.
func (p *Path) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	k := len(p.trail)
	if k < len(p.prefix) {
		d := p.prefix[k]
		p.trail = append(p.trail, d)
		if !d.forced {
			if d.v != 0 {
				p.pc = append(p.pc, c)
			} else {
				p.pc = append(p.pc, p.tt.Not(c))
			}
		} else if d.v != 0 {
			p.know(c)
		} else {
			p.know(p.tt.Not(c))
		}
		return d.v != 0
	}
	v, ok := evalTerm(c, p.model, p.memo)
	if !ok {
		// the model does not determine c (uninterpreted function)
		res, m := p.query(c)
		if res == Unknown {
			p.w.incomplete("solver unknown")
			panic(pathAbort{"unknown"})
		}
		if res == Sat {
			p.setModel(m)
			v = 1
		} else {
			p.trail = append(p.trail, Dec{v: 0, forced: true})
			return false
		}
	}
	var taken, other *Term
	if v != 0 {
		taken, other = c, p.tt.Not(c)
	} else {
		taken, other = p.tt.Not(c), c
	}
	p.w.branches++
	if p.inPC(taken) {
		p.trail = append(p.trail, Dec{v: int64(v), forced: true})
		return v != 0
	}
	if branchProf != nil && p.g != nil {
		branchProf(p.g.where())
	}
	res, m := p.feasible(other)
	d := Dec{v: int64(v), n: 2}
	switch res {
	case Sat:
		p.push(Dec{v: int64(1 - v), n: 2}, m)
		p.pc = append(p.pc, taken)
		p.w.forks++
	case Unsat:
		d.forced = true
		p.know(taken)
	case Unknown:
		p.w.incomplete("solver unknown on branch")
		p.pc = append(p.pc, taken)
	}
	p.trail = append(p.trail, d)
	return v != 0
}

// know remembers that c follows from the path's conditions.
func (p *Path) know(c *Term) {
	if p.pcSet == nil {
		p.pcSet = map[*Term]bool{}
	}
	p.pcSet[c] = true
}

// inPC reports whether c is literally one of the path's conditions.
func (p *Path) inPC(c *Term) bool {
	if p.clockKnows(c) {
		return true
	}
	if p.pcSet == nil {
		p.pcSet = map[*Term]bool{}
	}
	for ; p.pcSeen < len(p.pc); p.pcSeen++ {
		p.pcSet[p.pc[p.pcSeen]] = true
	}
	return p.pcSet[c]
}

// concretize enumerates, through the solver, the feasible values of t.
func (p *Path) concretize(t *Term) uint64 { return p.concretizeFew(t, 64) }

func (p *Path) concretizeFew(t *Term, max int) uint64 {
	if t.isConst() {
		return t.val
	}
	k := len(p.trail)
	var excl []uint64
	if k < len(p.prefix) {
		d := p.prefix[k]
		if d.excl == nil {
			p.trail = append(p.trail, d)
			if !d.forced {
				p.pc = append(p.pc, p.tt.Eq(t, kconst(t.w, uint64(d.v))))
			}
			return uint64(d.v)
		}
		excl = d.excl
		for _, x := range excl {
			p.pc = append(p.pc, p.tt.Not(p.tt.Eq(t, kconst(t.w, x))))
		}
	}
	v, ok := evalTerm(t, p.model, p.memo)
	if !ok {
		unsup("concretize an uninterpreted value")
	}
	eq := p.tt.Eq(t, kconst(t.w, v))
	res, m := p.feasible(p.tt.Not(eq))
	d := Dec{v: int64(v), n: -1}
	switch res {
	case Sat:
		if len(excl) > max {
			p.w.incomplete("too many values in concretization")
		} else {
			p.push(Dec{excl: append(append([]uint64{}, excl...), v)}, m)
		}
		p.pc = append(p.pc, eq)
		p.w.forks++
	case Unsat:
		d.closed = true
		// with earlier exclusions, equality is what a replay has to restate
		if d.forced = len(excl) == 0; !d.forced {
			p.pc = append(p.pc, eq)
		}
	case Unknown:
		p.w.incomplete("solver unknown on concretization")
		p.pc = append(p.pc, eq)
	}
	p.trail = append(p.trail, d)
	return v
}

// choose is an unconstrained n-way choice, represented by a symbolic variable.
func (p *Path) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	k := len(p.trail)
	if k < len(p.prefix) {
		d := p.prefix[k]
		p.trail = append(p.trail, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		p.push(Dec{v: int64(i), n: int32(n)}, nil)
		p.w.forks++
	}
	p.trail = append(p.trail, Dec{v: 0, n: int32(n)})
	return 0
}

func (p *Path) chooseSym(name string, n int) int {
	if n <= 1 {
		return 0
	}
	t := p.fresh(name, 8, 0)
	v := p.choose(name, n)
	p.model[t] = uint64(v)
	p.memo = map[*Term]uint64{}
	p.pc = append(p.pc, p.tt.Eq(t, kconst(8, uint64(v))))
	return v
}

func (p *Path) assert(c *Term, label string) {
	p.w.asserts++
	if c.isTrue() {
		p.w.rewritten++
		return
	}
	if c.isFalse() {
		p.flushAsserts()
		p.fail("assert", label, "", p.model)
	}
	if v, ok := evalTerm(c, p.model, p.memo); ok && v == 0 && len(p.trail) >= len(p.prefix) {
		p.flushAsserts()
		p.fail("assert", label, "", p.model)
	}
	if p.clockKnows(c) {
		p.w.rewritten++ // follows from the clock's order alone
		return
	}
	p.pendA = append(p.pendA, pendAssert{c, label})
}

// flushAsserts discharges the pending assertions with the solver.
func (p *Path) flushAsserts() {
	if len(p.pendA) == 0 {
		return
	}
	pend := p.pendA
	p.pendA = nil
	if len(p.trail) < len(p.prefix) {
		return // the parent path discharged these at this very point
	}
	bad := gFalse
	for _, a := range pend {
		bad = p.tt.Or(bad, p.tt.Not(a.cond))
	}
	p.w.assertQ++
	res, m := p.query(bad)
	switch res {
	case Unsat:
		return
	case Unknown:
		p.w.incomplete("solver unknown on assertion " + pend[0].label)
		return
	}
	for k, v := range p.model {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	label := pend[0].label
	memo := map[*Term]uint64{}
	for _, a := range pend {
		if v, ok := evalTerm(a.cond, m, memo); ok && v == 0 {
			label = a.label
			break
		}
	}
	p.fail("assert", label, "", m)
}

func (p *Path) fail(kind, label, detail string, m Model) {
	v := &Violation{Kind: kind, Label: label, Detail: detail, Harness: p.w.e.harness}
	if p.g != nil {
		v.Where = p.g.where()
	}
	v.Model = p.modelNamed(m)
	v.Nondets = p.replayVals(m)
	v.Sched = append([]SchedStep(nil), p.sched_...)
	p.viol = v
	p.w.e.violation(v)
	panic(pathAbort{"violation"})
}

// ReplayVal is one concrete environment value for native replay.
type ReplayVal struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	I    int64  `json:"i,omitempty"`
	S    []byte `json:"s,omitempty"`
}

func (p *Path) replayVals(m Model) []ReplayVal {
	memo := map[*Term]uint64{}
	ev := func(t *Term) uint64 {
		v, ok := evalTerm(t, m, memo)
		if !ok {
			v, _ = evalTerm(t, p.model, p.memo)
		}
		return v
	}
	var out []ReplayVal
	for _, n := range p.nondets {
		r := ReplayVal{Kind: n.Kind, Name: n.Name, I: n.n}
		switch {
		case n.t != nil:
			r.I = sext(ev(n.t), n.t.w)
			if n.t.w == 0 {
				r.I = int64(ev(n.t))
			}
			if n.t.w == 8 && n.Kind == "byte" {
				r.I = int64(ev(n.t))
			}
		case n.v != nil:
			for _, b := range strBytes(n.v) {
				r.S = append(r.S, byte(ev(b)))
			}
		}
		out = append(out, r)
	}
	return out
}

func (p *Path) describeModel(m Model) string {
	var keys []string
	nm := p.modelNamed(m)
	for k := range nm {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, "%s=%d ", k, int64(nm[k]))
	}
	return sb.String()
}

// clockKnows: c follows from the order of two readings of the model clock.
func (p *Path) clockKnows(c *Term) bool {
	if c.op != OpNot || len(p.clk) == 0 {
		return false
	}
	lt := c.a[0]
	if lt.op != OpUlt && lt.op != OpSlt {
		return false
	}
	x, y := lt.a[0], lt.a[1]
	if y.isConst() && y.val == 0 && x.op == OpSub && lt.op == OpSlt {
		x, y = x.a[0], x.a[1]
		if x.op == OpZext && y.op == OpZext {
			x, y = x.a[0], y.a[0]
		}
	}
	rx, ry := p.clk[x], p.clk[y]
	return rx > 0 && ry > 0 && rx >= ry
}
