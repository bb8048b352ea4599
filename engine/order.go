package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Schedules as symbolic variables. The engine runs one schedule at a time; for
// every execution it completes, the synchronisation operations and the accesses
// to shared memory are also encoded as a constraint problem over integer order
// variables (one per synchronisation operation and one per stretch of code
// between two of them), in which every order that the program, the locks, the
// channels and the values read allow is a solution. The solver then decides
// whether any of them, with any number of preemptions, makes two conflicting
// accesses concurrent or lets goroutines wait for each other's locks. A
// solution is a schedule, which is executed: only what that execution shows is
// reported.

type oref struct{ g, i int }

func (r oref) String() string { return "e" + strconv.Itoa(r.g) + "_" + strconv.Itoa(r.i) }

type oseg struct {
	g, i int // after event i of g
	acc  map[*Value]uint8
	rf   map[*Value]*oseg
}

func (s *oseg) String() string { return "s" + strconv.Itoa(s.g) + "_" + strconv.Itoa(s.i) }

const (
	accR = 1
	accW = 2
)

type osec struct {
	obj  *mutexState
	excl bool
	acq  oref
	rel  oref // i < 0: not released
	held []*osec
}

type oop struct {
	ref   oref
	class byte // w, r (reads commute), c (updates that commute with each other)
}

type Order struct {
	s     *Sched
	n     []int // events so far, by goroutine
	cur   []*oseg
	segs  []*oseg
	lastW map[*Value]*oseg
	edges [][2]oref
	open  [][]*osec
	secs  []*osec
	ops   map[any][]oop
	opl   []any
	bars  []int // barrier: events of each goroutine before it
	barG  []oref
	barN  [][]int
	log   []oref
	hb    [][][]int32
	off   bool
	start int // decisions made before there was a second goroutine
}

// Guide is a schedule to follow, as the order of the goroutines' operations.
type Guide struct {
	order []int
	what  string
}

func (o *Order) grow(g int) {
	for len(o.n) <= g {
		o.n = append(o.n, 0)
		o.open = append(o.open, nil)
		o.cur = append(o.cur, nil)
	}
	if o.cur[g] == nil {
		o.newSeg(g)
	}
}

func (o *Order) newSeg(g int) {
	s := &oseg{g: g, i: o.n[g] - 1}
	o.cur[g] = s
}

// event records one synchronisation operation of g.
func (g *G) event() (oref, *Order) {
	s := g.p.sched
	if !s.conc {
		return oref{-1, -1}, nil
	}
	if s.guide != nil {
		for len(s.gdone) <= g.id {
			s.gdone = append(s.gdone, 0)
		}
		s.gdone[g.id]++
	}
	o := s.ord
	if o == nil || o.off {
		return oref{-1, -1}, nil
	}
	o.grow(g.id)
	r := oref{g.id, o.n[g.id]}
	o.n[g.id]++
	o.log = append(o.log, r)
	o.newSeg(g.id)
	return r, o
}

// syncOp records an operation on an object whose operations keep their order.
func (g *G) syncOp(obj any, class byte) {
	if r, o := g.event(); o != nil {
		if _, ok := o.ops[obj]; !ok {
			o.opl = append(o.opl, obj)
		}
		o.ops[obj] = append(o.ops[obj], oop{r, class})
	}
}

func (g *G) lockEvent(m *mutexState, excl bool) {
	if r, o := g.event(); o != nil {
		c := &osec{obj: m, excl: excl, acq: r, rel: oref{-1, -1}, held: append([]*osec(nil), o.open[g.id]...)}
		o.secs = append(o.secs, c)
		o.open[g.id] = append(o.open[g.id], c)
	}
}

func (g *G) unlockEvent(m *mutexState) {
	if r, o := g.event(); o != nil {
		find := func(h int) bool {
			for i := len(o.open[h]) - 1; i >= 0; i-- {
				if c := o.open[h][i]; c.obj == m {
					c.rel = r
					o.open[h] = append(append([]*osec(nil), o.open[h][:i]...), o.open[h][i+1:]...)
					return true
				}
			}
			return false
		}
		if find(g.id) {
			return
		}
		for h := range o.open {
			if find(h) {
				return
			}
		}
	}
}

// after records an operation of g that follows others.
func (g *G) after(rs ...oref) {
	if r, o := g.event(); o != nil {
		for _, x := range rs {
			if x.g >= 0 {
				o.edges = append(o.edges, [2]oref{x, r})
			}
		}
	}
}

// barrier records an operation that depends on everything before it.
func (g *G) barrier() {
	if r, o := g.event(); o != nil {
		o.barG = append(o.barG, r)
		o.barN = append(o.barN, append([]int(nil), o.n...))
	}
}

func (o *Order) access(g *G, slot *Value, write bool) {
	if o.off {
		return
	}
	o.grow(g.id)
	s := o.cur[g.id]
	if s.acc == nil {
		s.acc = map[*Value]uint8{}
		o.segs = append(o.segs, s)
	}
	a := s.acc[slot]
	if write {
		s.acc[slot] = a | accW
		o.lastW[slot] = s
		return
	}
	if a == 0 {
		s.acc[slot] = accR
		if w := o.lastW[slot]; w != nil {
			if s.rf == nil {
				s.rf = map[*Value]*oseg{}
			}
			s.rf[slot] = w
		}
	}
}

type ocand struct {
	cond string
	what string
}

// formula encodes the execution; cands are the ways to go wrong.
func (o *Order) formula() (string, []ocand, []string) {
	var lines []string
	seen := map[string]bool{}
	add := func(f string, a ...any) {
		l := fmt.Sprintf(f, a...)
		if !seen[l] {
			seen[l] = true
			lines = append(lines, l)
		}
	}
	used := map[*oseg]bool{}
	o.hard()
	held := o.heldBy()

	// shared memory
	bySlot := map[*Value][]*oseg{}
	var slots []*Value
	for _, s := range o.segs {
		for x := range s.acc {
			if bySlot[x] == nil {
				slots = append(slots, x)
			}
			bySlot[x] = append(bySlot[x], s)
		}
	}
	pairs := map[[2]*oseg]bool{}
	var cands []ocand
	for _, x := range slots {
		ss := bySlot[x]
		shared, writes := false, false
		for _, s := range ss {
			shared = shared || s.g != ss[0].g
			writes = writes || s.acc[x]&accW != 0
		}
		if !shared || !writes {
			continue
		}
		for i, a := range ss {
			for _, b := range ss[i+1:] {
				if a.g == b.g || (a.acc[x]|b.acc[x])&accW == 0 {
					continue
				}
				if o.segBefore(a, b) || o.segBefore(b, a) || !o.s.p.w.e.cfg.flags["lockpairs"] && excluded(held[a], held[b]) {
					continue
				}
				k := [2]*oseg{a, b}
				if b.g < a.g {
					k = [2]*oseg{b, a}
				}
				if !pairs[k] {
					pairs[k] = true
					used[a], used[b] = true, true
				}
			}
		}
		for _, r := range ss {
			if r.acc[x]&accR == 0 {
				continue
			}
			w := r.rf[x]
			for _, q := range ss {
				if q == r || q.acc[x]&accW == 0 {
					continue
				}
				if w == nil {
					if q.g != r.g && !o.segBefore(r, q) {
						used[q], used[r] = true, true
						add("(assert (=> (<= %s R) (>= %s %s)))", r, q, r)
					}
					continue
				}
				if q == w {
					if q.g != r.g && !o.segBefore(q, r) {
						used[q], used[r] = true, true
						add("(assert (=> (<= %s R) (<= %s %s)))", r, q, r)
					}
					continue
				}
				if o.segBefore(r, q) || o.segBefore(q, w) {
					continue
				}
				used[q], used[r], used[w] = true, true, true
				add("(assert (=> (<= %s R) (or (< %s %s) (>= %s %s))))", r, q, w, q, r)
			}
		}
	}
	var ps []string
	for k := range pairs {
		ps = append(ps, fmt.Sprintf("(and (= %s R) (= %s R))", k[0], k[1]))
	}
	sort.Strings(ps)
	for _, c := range ps {
		cands = append(cands, ocand{c, "race"})
	}

	// locks
	rel := func(c *osec, b oref) string {
		if c.rel.i < 0 {
			return "false"
		}
		return fmt.Sprintf("(< %s %s)", c.rel, b)
	}
	for i, a := range o.secs {
		for _, b := range o.secs[i+1:] {
			if a.obj != b.obj || a.acq.g == b.acq.g || !a.excl && !b.excl {
				continue
			}
			if a.rel.i >= 0 && o.before(a.rel, b.acq) || b.rel.i >= 0 && o.before(b.rel, a.acq) {
				continue
			}
			x, y := a, b
			if y.acq.g < x.acq.g {
				x, y = y, x
			}
			add("(assert (=> (and (<= %s R) (<= %s R)) (or %s %s)))", x.acq, y.acq, rel(x, y.acq), rel(y, x.acq))
		}
	}
	// waiting for each other's locks
	dl := map[string]bool{}
	for _, a := range o.secs {
		for _, h := range a.held {
			for _, b := range o.secs {
				if b.acq.g <= a.acq.g || h.obj != b.obj || !b.excl && !h.excl {
					continue
				}
				for _, k := range b.held {
					if k.obj != a.obj || k.obj == h.obj || !a.excl && !k.excl {
						continue
					}
					p, q := oref{a.acq.g, a.acq.i - 1}, oref{b.acq.g, b.acq.i - 1}
					dl[fmt.Sprintf("(and (< %s R) (< R %s) (< %s R) (< R %s))", p, a.acq, q, b.acq)] = true
				}
			}
			// a reader that reads again while a writer waits
			if h.obj == a.obj && !h.excl && !a.excl {
				for _, b := range o.secs {
					if b.acq.g == a.acq.g || b.obj != a.obj || !b.excl || b.acq.i == 0 {
						continue
					}
					p, q := oref{a.acq.g, a.acq.i - 1}, oref{b.acq.g, b.acq.i - 1}
					dl[fmt.Sprintf("(and (< %s R) (< R %s) (< %s R) (< R %s))", p, a.acq, q, b.acq)] = true
				}
			}
		}
	}
	var ds []string
	for c := range dl {
		ds = append(ds, c)
	}
	sort.Strings(ds)
	for _, c := range ds {
		cands = append(cands, ocand{c, "deadlock"})
	}
	if len(cands) == 0 {
		return "", nil, nil
	}

	for _, e := range o.edges {
		add("(assert (< %s %s))", e[0], e[1])
	}
	for _, obj := range o.opl {
		l := o.ops[obj]
		for i, a := range l {
			for _, b := range l[i+1:] {
				if a.ref.g == b.ref.g || a.class == b.class && a.class != 'w' {
					continue
				}
				add("(assert (< %s %s))", a.ref, b.ref)
			}
		}
	}
	for i, b := range o.barG {
		for g, n := range o.barN[i] {
			if g == b.g {
				continue
			}
			if n > 0 {
				add("(assert (< %s %s))", oref{g, n - 1}, b)
			}
			if n < o.n[g] {
				add("(assert (< %s %s))", b, oref{g, n})
			}
			for _, s := range o.segs {
				if s.g == g && s.i == n-1 && used[s] {
					// the stretch under way at the barrier: it is over by then
					add("(assert (< %s %s))", s, b)
				}
			}
		}
	}
	var names []string
	for g, n := range o.n {
		for i := 0; i < n; i++ {
			names = append(names, oref{g, i}.String())
			if i > 0 {
				add("(assert (< %s %s))", oref{g, i - 1}, oref{g, i})
			}
		}
	}
	decl := append([]string{"R"}, names...)
	for s := range used {
		decl = append(decl, s.String())
		if s.i >= 0 {
			add("(assert (< %s %s))", oref{s.g, s.i}, s)
		}
		if s.i+1 < o.n[s.g] {
			add("(assert (< %s %s))", s, oref{s.g, s.i + 1})
		}
	}
	sort.Strings(lines)
	sort.Strings(decl[1:])
	var sb strings.Builder
	for _, d := range decl {
		sb.WriteString("(declare-const " + d + " Int)\n")
	}
	for _, l := range lines {
		sb.WriteString(l + "\n")
	}
	sb.WriteString("(assert (or")
	for _, c := range cands {
		sb.WriteString("\n " + c.cond)
	}
	sb.WriteString("))\n")
	return sb.String(), cands, names
}

// checkOrders decides, for the execution just made, every other order of its
// operations.
func (p *Path) checkOrders() {
	o := p.sched.ord
	e := p.w.e
	if o == nil || e.cfg.flags["norace"] || p.sched.guide != nil {
		return
	}
	total := 0
	for _, n := range o.n {
		total += n
	}
	if total > 1200 {
		e.mu.Lock()
		e.orderSkipped++
		e.mu.Unlock()
		return
	}
	f, _, names := o.formula()
	if f == "" {
		return
	}
	h := sha256.Sum256([]byte(f))
	e.mu.Lock()
	if e.orderSeen == nil {
		e.orderSeen = map[[32]byte]bool{}
	}
	done := e.orderSeen[h]
	e.orderSeen[h] = true
	e.mu.Unlock()
	if done {
		return
	}
	s := p.w.solver
	t0 := time.Now()
	if d := os.Getenv("GOSYM_ORDERS"); d != "" {
		os.WriteFile(filepath.Join(d, fmt.Sprintf("%x.smt2", h[:6])), []byte(f+"(check-sat)\n"), 0o644)
	}
	s.send("(push 1)")
	s.in.WriteString(f)
	s.send("(check-sat)")
	s.in.Flush()
	res := Unknown
	switch s.readLine() {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var vals []uint64
	if res == Sat {
		s.send("(get-value (R " + strings.Join(names, " ") + "))")
		s.in.Flush()
		vals = parseInts(s.readSexp())
	}
	s.send("(pop 1)")
	s.count(res, time.Since(t0))
	e.mu.Lock()
	e.orderQ++
	if res == Unknown {
		e.incompl["solver unknown on the orders of an execution"]++
	}
	e.mu.Unlock()
	if res != Sat || len(vals) != len(names)+1 {
		return
	}
	type ev struct {
		at   int64
		g, i int
	}
	var evs []ev
	r := int64(vals[0])
	k := 1
	for g, n := range o.n {
		for i := 0; i < n; i++ {
			if at := int64(vals[k]); at < r {
				evs = append(evs, ev{at, g, i})
			}
			k++
		}
	}
	sort.SliceStable(evs, func(i, j int) bool {
		if evs[i].at != evs[j].at {
			return evs[i].at < evs[j].at
		}
		return evs[i].g < evs[j].g
	})
	gd := &Guide{}
	for _, x := range evs {
		gd.order = append(gd.order, x.g)
	}
	e.mu.Lock()
	e.orderSat++
	n := e.orderSat
	e.mu.Unlock()
	if n <= 40 {
		pre := append([]Dec(nil), p.trail[:o.start]...)
		e.add(&Item{prefix: pre, model: p.modelNamed(p.model), guide: gd})
	}
}

// parseInts reads the values of a get-value answer over integers.
func parseInts(sx string) []uint64 {
	var out []uint64
	fs := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sx))
	for i := 0; i+1 < len(fs); i++ {
		if fs[i] != "(" || fs[i+1] == "(" {
			continue
		}
		// ( name value ) or ( name ( - value ) )
		if i+2 < len(fs) && fs[i+1] != "-" {
			if fs[i+2] == "(" && i+4 < len(fs) && fs[i+3] == "-" {
				v, _ := strconv.ParseInt(fs[i+4], 10, 64)
				out = append(out, uint64(-v))
			} else {
				v, _ := strconv.ParseInt(fs[i+2], 10, 64)
				out = append(out, uint64(v))
			}
		}
	}
	return out
}

// guideNext is the goroutine whose operation the schedule has next, or nil.
func (s *Sched) guideNext() *G {
	gd := s.guide
	for s.gpos < len(gd.order) {
		g := gd.order[s.gpos]
		for len(s.gdone) <= g {
			s.gdone = append(s.gdone, 0)
		}
		// events of g among the first gpos+1
		if s.gcnt == nil {
			s.gcnt = map[int]int{}
		}
		if s.gdone[g] > s.gcnt[g] {
			s.gcnt[g]++
			s.gpos++
			continue
		}
		if g < len(s.gs) {
			return s.gs[g]
		}
		return nil
	}
	return nil
}

// hard computes, for each event, the events that precede it in every order.
func (o *Order) hard() {
	in := map[oref][]oref{}
	for _, e := range o.edges {
		in[e[1]] = append(in[e[1]], e[0])
	}
	for _, obj := range o.opl {
		l := o.ops[obj]
		for i, a := range l {
			for _, b := range l[i+1:] {
				if a.class != b.class || a.class == 'w' {
					in[b.ref] = append(in[b.ref], a.ref)
				}
			}
		}
	}
	for i, b := range o.barG {
		for g, n := range o.barN[i] {
			if g != b.g && n > 0 {
				in[b] = append(in[b], oref{g, n - 1})
			}
			if g != b.g && n < o.n[g] {
				in[oref{g, n}] = append(in[oref{g, n}], b)
			}
		}
	}
	o.hb = make([][][]int32, len(o.n))
	for _, e := range o.log {
		v := make([]int32, len(o.n))
		for i := range v {
			v[i] = -1
		}
		join := func(r oref) {
			for i, x := range o.hb[r.g][r.i] {
				if x > v[i] {
					v[i] = x
				}
			}
		}
		if e.i > 0 {
			join(oref{e.g, e.i - 1})
		}
		for _, r := range in[e] {
			join(r)
		}
		v[e.g] = int32(e.i)
		o.hb[e.g] = append(o.hb[e.g], v)
	}
}

// before: a precedes b in every order.
func (o *Order) before(a, b oref) bool {
	if a.g == b.g {
		return a.i < b.i
	}
	return o.hb[b.g][b.i][a.g] >= int32(a.i)
}

func (o *Order) segBefore(a, b *oseg) bool {
	if a.g == b.g {
		return a.i < b.i
	}
	if b.i < 0 || a.i+1 >= o.n[a.g] {
		return false
	}
	return o.hb[b.g][b.i][a.g] >= int32(a.i+1)
}

// heldBy lists the locks held throughout each stretch of code.
func (o *Order) heldBy() map[*oseg][]*osec {
	out := map[*oseg][]*osec{}
	for _, c := range o.secs {
		for _, s := range o.segs {
			if s.g == c.acq.g && s.i >= c.acq.i && (c.rel.i < 0 || c.rel.g == s.g && s.i < c.rel.i) {
				out[s] = append(out[s], c)
			}
		}
	}
	return out
}

// excluded: the two stretches hold the same lock, not both for reading.
func excluded(a, b []*osec) bool {
	for _, x := range a {
		for _, y := range b {
			if x.obj == y.obj && (x.excl || y.excl) {
				return true
			}
		}
	}
	return false
}
