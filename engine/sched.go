package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine.
type G struct {
	id    int
	p     *Path
	fr    *frame
	wake  chan struct{}
	ready func() bool // nil: runnable
	why   string
	vc    []uint32
	ended bool
	name  string
	free  [][]Value
	depth int
	last  oref
}

// SchedStep records one scheduling decision for replay.
type SchedStep struct {
	G  int    `json:"g"`
	Op string `json:"op"`
}

type Sched struct {
	p        *Path
	gs       []*G
	conc     bool
	preempts int
	dead     bool
	cause    any
	shadow   map[*Value]*shadow
	exited   chan struct{}
	live     int
	delayed  int
	switches int

	ord   *Order
	guide *Guide
	gpos  int
	gdone []int
	gcnt  map[int]int
}

func (s *Sched) newG(name string) *G {
	g := &G{id: len(s.gs), p: s.p, wake: make(chan struct{}, 1), name: name}
	s.gs = append(s.gs, g)
	g.vc = make([]uint32, g.id+1)
	g.vc[g.id] = 1
	return g
}

// spawn starts an interpreted goroutine running f.
func (s *Sched) spawn(parent *G, name string, f func(g *G)) *G {
	g := s.newG(name)
	if !s.conc {
		s.conc = true
		if s.ord != nil {
			s.ord.start = len(s.p.trail)
		}
	}
	born, _ := parent.event()
	vcJoin(&g.vc, parent.vc)
	parent.vc[parent.id]++
	s.live++
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.ended = true
			s.live--
			if s.dead {
				s.exited <- struct{}{}
				return
			}
			if r != nil {
				s.die(g, r)
				s.exited <- struct{}{}
				return
			}
			// normal end: hand the baton on
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.die(g, r)
					}
				}()
				s.handoff(s.mustPick(g))
			}()
			s.exited <- struct{}{}
		}()
		if s.dead {
			panic(pathAbort{"dead"})
		}
		s.p.sched_ = append(s.p.sched_, SchedStep{g.id, "start"})
		g.after(born)
		f(g)
		g.last, _ = g.event()
	}()
	return g
}

// die ends the path because of r, raised on goroutine g.
func (s *Sched) die(g *G, r any) {
	if !s.dead {
		s.dead = true
		s.cause = r
	}
	if g.id != 0 {
		s.gs[0].wake <- struct{}{}
	}
}

// killAll ends every native goroutine still parked.
func (s *Sched) killAll() {
	s.dead = true
	for _, g := range s.gs[1:] {
		if !g.ended {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	for range s.gs[1:] {
		<-s.exited
	}
}

func (s *Sched) handoff(next *G) {
	s.p.g = next
	s.switches++
	next.wake <- struct{}{}
}

func (s *Sched) enabled(g *G) bool { return !g.ended && (g.ready == nil || g.ready()) }

// pick chooses the next goroutine to run when cur cannot continue.
func (s *Sched) pick(cur *G, blocked bool) *G {
	var en []*G
	for _, g := range s.gs {
		if g != cur && s.enabled(g) {
			en = append(en, g)
		}
	}
	if len(en) == 0 {
		return nil
	}
	if s.guide != nil {
		if n := s.guideNext(); n != nil && n != cur && s.enabled(n) {
			return n
		}
		return en[0]
	}
	if d := s.p.w.e.cfg.delays; d >= 0 {
		// delay bounding: round robin, with at most d departures from it
		k := 0
		for k < len(en) && en[k].id < cur.id {
			k++
		}
		en = append(append([]*G(nil), en[k:]...), en[:k]...)
		if s.delayed >= d {
			return en[0]
		}
		i := s.p.chooseSym("sched", len(en))
		if i > 0 {
			s.delayed++
		}
		return en[i]
	}
	i := s.p.chooseSym("sched", len(en))
	return en[i]
}

// mustPick is pick, letting timers fire when nothing can run; it may return
// cur itself if a timer made it ready.
func (s *Sched) mustPick(cur *G) *G {
	for {
		if next := s.pick(cur, true); next != nil {
			return next
		}
		if !s.p.fireTimer() {
			s.p.deadlock()
		}
		if s.enabled(cur) {
			return cur
		}
	}
}

// park gives the baton away and waits to get it back.
func (g *G) park(next *G) {
	s := g.p.sched
	s.handoff(next)
	<-g.wake
	if s.dead {
		if g.id == 0 && s.cause != nil {
			c := s.cause
			s.cause = nil
			panic(c)
		}
		panic(pathAbort{"dead"})
	}
	g.p.g = g
}

// block suspends g until ready() holds.
func (g *G) block(why string, ready func() bool) {
	s := g.p.sched
	if ready() {
		return
	}
	g.ready, g.why = ready, why
	for {
		next := s.mustPick(g)
		if next == g {
			break
		}
		g.park(next)
		if ready() {
			break
		}
	}
	g.ready, g.why = nil, ""
}

func (p *Path) deadlock() {
	var sb strings.Builder
	for _, g := range p.sched.gs {
		if !g.ended {
			fmt.Fprintf(&sb, "goroutine %d (%s) blocked on %s at %s; ", g.id, g.name, g.why, g.where())
		}
	}
	p.flushAsserts()
	p.fail("deadlock", "deadlock", sb.String(), p.model)
}

// point is a scheduling point before a synchronisation operation.
func (g *G) point(op string) {
	p := g.p
	s := p.sched
	if !s.conc || !g.moduleCaller() {
		return
	}
	// recorded when the operation is about to run, after any preemption
	defer func() { p.sched_ = append(p.sched_, SchedStep{g.id, op}) }()
	if s.guide != nil {
		for {
			n := s.guideNext()
			if n == nil || n == g || !s.enabled(n) {
				return
			}
			g.park(n)
		}
	}
	if s.preempts >= p.w.e.cfg.maxPreempt {
		return
	}
	var en []*G
	for _, o := range s.gs {
		if o != g && s.enabled(o) {
			en = append(en, o)
		}
	}
	if len(en) == 0 {
		return
	}
	i := p.chooseSym("sched", len(en)+1)
	if i == 0 {
		return
	}
	s.preempts++
	g.park(en[i-1])
}

// yield switches freely (a voluntary reschedule).
func (g *G) yield() {
	s := g.p.sched
	if !s.conc {
		return
	}
	defer func() { g.p.sched_ = append(g.p.sched_, SchedStep{g.id, "yield"}) }()
	var en []*G
	for _, o := range s.gs {
		if o != g && s.enabled(o) {
			en = append(en, o)
		}
	}
	if len(en) == 0 {
		return
	}
	if s.guide != nil {
		if n := s.guideNext(); n != nil && n != g && s.enabled(n) {
			g.park(n)
		} else if n == nil {
			g.park(en[0])
		}
		return
	}
	if d := g.p.w.e.cfg.delays; d >= 0 {
		if s.delayed >= d {
			g.park(s.pick(g, false))
			return
		}
	}
	i := g.p.chooseSym("sched", len(en)+1)
	if i == 0 {
		return
	}
	if i > 1 {
		s.delayed++
	}
	g.park(en[i-1])
}

// ---- vector clocks and races ----

func vcJoin(dst *[]uint32, src []uint32) {
	for len(*dst) < len(src) {
		*dst = append(*dst, 0)
	}
	for i, v := range src {
		if v > (*dst)[i] {
			(*dst)[i] = v
		}
	}
}

func vcGet(v []uint32, i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type access struct {
	g     int
	clk   uint32
	where ssa.Instruction
	fn    *ssa.Function
}

type shadow struct {
	w     access
	hasW  bool
	reads []access
	// the last atomic access of each goroutine, and the last that writes
	atoms, atomws []access
}

// release publishes g's clock into *vc and advances g.
func (g *G) release(vc *[]uint32) {
	if !g.p.sched.conc {
		return
	}
	vcJoin(vc, g.vc)
	g.vc[g.id]++
}
func (g *G) acquire(vc []uint32) {
	if !g.p.sched.conc {
		return
	}
	vcJoin(&g.vc, vc)
}

func (s *Sched) access(g *G, slot *Value, write bool) {
	switch v := (*slot).(type) {
	case structV:
		for i := range v {
			s.access(g, &v[i], write)
		}
		if len(v) > 0 {
			return
		}
	case arrayV:
		for i := range v {
			s.access(g, &v[i], write)
		}
		if len(v) > 0 {
			return
		}
	}
	s.accessLeaf(g, slot, write)
}

func (s *Sched) accessLeaf(g *G, slot *Value, write bool) {
	if s.ord != nil {
		s.ord.access(g, slot, write)
	}
	sh := s.shadow[slot]
	if sh == nil {
		sh = &shadow{}
		s.shadow[slot] = sh
	}
	me := access{g: g.id, clk: g.vc[g.id]}
	if g.fr != nil {
		me.where, me.fn = g.fr.cur, g.fr.fn
	}
	if sh.hasW && sh.w.g != g.id && vcGet(g.vc, sh.w.g) < sh.w.clk {
		s.race(g, sh.w, true, me, write)
	}
	atoms := sh.atomws
	if write {
		atoms = sh.atoms
	}
	for _, a := range atoms {
		if a.g != g.id && vcGet(g.vc, a.g) < a.clk {
			s.race(g, a, !write, me, write)
		}
	}
	if write {
		for _, r := range sh.reads {
			if r.g != g.id && vcGet(g.vc, r.g) < r.clk {
				s.race(g, r, false, me, true)
			}
		}
		sh.w, sh.hasW = me, true
		sh.reads = sh.reads[:0]
		return
	}
	sh.reads = setAccess(sh.reads, me)
}

func setAccess(l []access, me access) []access {
	for i := range l {
		if l[i].g == me.g {
			l[i] = me
			return l
		}
	}
	return append(l, me)
}

// atomicAccess: what is accessed atomically (a lock, or through sync/atomic)
// must not be written, or, if the access writes, read at the same time by plain
// code.
func (g *G) atomicAccess(ptr *Value, write bool) {
	s := g.p.sched
	if !s.conc {
		return
	}
	for ptr != nil {
		var in []Value
		switch v := (*ptr).(type) {
		case structV:
			in = v
		case arrayV:
			in = v
		}
		if len(in) == 0 {
			break
		}
		ptr = &in[len(in)-1]
	}
	sh := s.shadow[ptr]
	if sh == nil {
		sh = &shadow{}
		s.shadow[ptr] = sh
	}
	me := access{g: g.id, clk: g.vc[g.id]}
	if g.fr != nil {
		me.where, me.fn = g.fr.cur, g.fr.fn
	}
	if sh.hasW && sh.w.g != g.id && vcGet(g.vc, sh.w.g) < sh.w.clk {
		s.race(g, sh.w, true, me, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.g != g.id && vcGet(g.vc, r.g) < r.clk {
				s.race(g, r, false, me, true)
			}
		}
		sh.atomws = setAccess(sh.atomws, me)
	}
	sh.atoms = setAccess(sh.atoms, me)
}

func (a access) String() string {
	if a.fn == nil {
		return "?"
	}
	return a.fn.RelString(nil) + " (" + posOf(a.fn, a.where) + ")"
}

func (s *Sched) race(g *G, a access, aw bool, b access, bw bool) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	fa, fb := "?", "?"
	if a.fn != nil {
		fa = a.fn.RelString(nil)
	}
	if b.fn != nil {
		fb = b.fn.RelString(nil)
	}
	if fb < fa {
		fa, fb = fb, fa
	}
	p := s.p
	if p.w.e.cfg.flags["norace"] { // the harness is about what follows from the race
		return
	}
	p.flushAsserts()
	p.fail("race", "data race "+fa+" / "+fb, fmt.Sprintf("%s by goroutine %d at %s is not ordered with %s by goroutine %d at %s",
		kind(aw), a.g, a, kind(bw), b.g, b), p.model)
}

// ---- channels ----

type waiter struct {
	g   *G
	sel *selState
	idx int
	val Value
	ok  bool
	vc  []uint32
}
type selState struct {
	fired int
	w     *waiter
	panic bool
}
type chanMsg struct {
	v  Value
	vc []uint32
}

type ChanV struct {
	id     int
	cap    int
	buf    []chanMsg
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	elem   types.Type
	recvVC []uint32
	clVC   []uint32
	nsend  int
	timer  *timerState
}

type timerState struct {
	left   int
	ticker bool
	off    bool
	fn     Value
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired < 0 {
			return w
		}
	}
	return nil
}
func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel.fired < 0 {
			return true
		}
	}
	return false
}

func (c *ChanV) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq))
}
func (c *ChanV) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || hasWaiter(c.sendq))
}

func copyVC(v []uint32) []uint32 { return append([]uint32(nil), v...) }

// doSend performs a send that canSend.
func (g *G) doSend(c *ChanV, v Value) {
	if c.closed {
		g.goPanic("send on closed channel")
	}
	conc := g.p.sched.conc
	if conc && c.cap > 0 && c.nsend >= c.cap {
		g.acquire(c.recvVC)
	}
	c.nsend++
	if w := deq(&c.recvq); w != nil {
		w.val, w.ok = v, true
		w.sel.fired, w.sel.w = w.idx, w
		if conc {
			w.vc = copyVC(g.vc)
			g.vc[g.id]++
			if c.cap == 0 {
				g.acquire(w.g.vc)
			}
		}
		return
	}
	m := chanMsg{v: v}
	if conc {
		m.vc = copyVC(g.vc)
		g.vc[g.id]++
	}
	c.buf = append(c.buf, m)
}

// doRecv performs a receive that canRecv.
func (g *G) doRecv(c *ChanV) (Value, bool) {
	conc := g.p.sched.conc
	if len(c.buf) > 0 {
		m := c.buf[0]
		c.buf = append([]chanMsg(nil), c.buf[1:]...)
		if conc {
			g.acquire(m.vc)
			g.release(&c.recvVC)
		}
		if w := deq(&c.sendq); w != nil {
			nm := chanMsg{v: w.val}
			if conc {
				vcJoin(&w.g.vc, c.recvVC)
				nm.vc = copyVC(w.g.vc)
				w.g.vc[w.g.id]++
			}
			c.buf = append(c.buf, nm)
			w.sel.fired, w.sel.w = w.idx, w
		}
		return m.v, true
	}
	if w := deq(&c.sendq); w != nil {
		w.sel.fired, w.sel.w = w.idx, w
		if conc {
			g.acquire(w.g.vc)
			w.vc = copyVC(g.vc)
			g.vc[g.id]++
			w.g.vc[w.g.id]++
		}
		return w.val, true
	}
	if c.closed {
		g.acquire(c.clVC)
		return zeroOf(c.elem), false
	}
	panic("doRecv: not ready")
}

type selCase struct {
	c    *ChanV
	send bool
	v    Value
}

// selectOp runs a select; returns index (-1: default), received value, ok.
func (g *G) selectOp(cases []selCase, blocking bool, op string) (int, Value, bool) {
	g.point(op)
	var rdy []int
	for i, sc := range cases {
		if sc.send && sc.c.canSend() || !sc.send && sc.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[g.p.chooseSym("select", len(rdy))]
		}
		g.selEvents(cases)
		if cases[i].send {
			g.doSend(cases[i].c, cases[i].v)
			return i, nil, false
		}
		v, ok := g.doRecv(cases[i].c)
		return i, v, ok
	}
	g.selEvents(cases)
	if !blocking {
		return -1, nil, false
	}
	st := &selState{fired: -1}
	for i, sc := range cases {
		if sc.c == nil {
			continue
		}
		w := &waiter{g: g, sel: st, idx: i, val: sc.v}
		if sc.send {
			sc.c.sendq = append(sc.c.sendq, w)
		} else {
			sc.c.recvq = append(sc.c.recvq, w)
		}
	}
	closedIdx := func() int {
		for i, sc := range cases {
			if sc.c != nil && sc.c.closed {
				return i
			}
		}
		return -1
	}
	g.block(op, func() bool { return st.fired >= 0 || closedIdx() >= 0 })
	g.selEvents(cases)
	if st.fired < 0 {
		i := closedIdx()
		st.fired = i // withdraw
		if cases[i].send {
			g.goPanic("send on closed channel")
		}
		g.acquire(cases[i].c.clVC)
		return i, zeroOf(cases[i].c.elem), false
	}
	w := st.w
	g.acquire(w.vc)
	if cases[w.idx].send {
		return w.idx, nil, false
	}
	return w.idx, w.val, w.ok
}

// selEvents records an operation on the channels of a select.
func (g *G) selEvents(cases []selCase) {
	for _, sc := range cases {
		if sc.c != nil {
			g.syncOp(sc.c, 'w')
		}
	}
}

func (g *G) closeChan(c *ChanV) {
	g.point("close")
	if c == nil {
		g.goPanic("close of nil channel")
	}
	if c.closed {
		g.goPanic("close of closed channel")
	}
	c.closed = true
	g.syncOp(c, 'w')
	g.release(&c.clVC)
}

// fireTimer lets one armed timer fire when nothing else can run.
func (p *Path) fireTimer() bool {
	for _, c := range p.timers() {
		if c.timer.off || c.timer.left <= 0 {
			continue
		}
		if c.timer.fn == nil && len(c.buf) >= c.cap && !hasWaiter(c.recvq) {
			continue
		}
		if o := p.sched.ord; o != nil {
			o.off = true
		}
		p.tick(c)
		return true
	}
	return false
}

func (p *Path) timers() []*ChanV {
	t, _ := p.extra["timers"].([]*ChanV)
	return t
}
