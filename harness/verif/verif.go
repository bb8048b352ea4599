// Package verif is the harness interface. Under the symbolic engine every
// function here is intercepted and never runs; the bodies below are the native
// side, which replays one concrete counterexample or sample: environment values
// come from the recorded assignment, and goroutines follow the recorded
// schedule.
package verif

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"
)

type val struct {
	Kind string `json:"k"`
	Name string `json:"n"`
	I    int64  `json:"i"`
	S    []byte `json:"s"`
}

type step struct {
	G  int    `json:"g"`
	Op string `json:"op"`
}

type replay struct {
	Harness string `json:"harness"`
	Nondets []val  `json:"nondets"`
	Sched   []step `json:"sched"`
}

var (
	mu     sync.Mutex
	queues = map[string][]val{}
	frozen bool
	seq    int64
	lastT  int64
	free   = true // no recorded assignment: defaults
	reach  = map[string]bool{}
)

const clockBase = 0x1798 << 48

// Main replays the file named by the first argument.
func Main(hs map[string]func()) {
	var r replay
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Println("VBAD", err)
		os.Exit(20)
	}
	for _, v := range r.Nondets {
		k := v.Kind + "/" + v.Name
		queues[k] = append(queues[k], v)
	}
	free = false
	initSched(r.Sched, len(os.Args) > 2 && os.Args[2] == "free")
	h := hs[r.Harness]
	if h == nil {
		fmt.Println("VBAD no harness", r.Harness)
		os.Exit(20)
	}
	go func() {
		time.Sleep(5 * time.Second)
		fmt.Println("VDEADLOCK")
		os.Exit(12)
	}()
	h()
	fmt.Println("VOK")
	os.Exit(0)
}

func pop(kind, name string) (val, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := kind + "/" + name
	q := queues[k]
	if len(q) == 0 {
		if free {
			return val{}, false
		}
		fmt.Println("VDIVERGED no value for", k)
		os.Exit(13)
	}
	queues[k] = q[1:]
	return q[0], true
}

// Bool is any boolean.
func Bool(name string) bool { v, _ := pop("bool", name); return v.I != 0 }

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int { v, _ := pop("int", name); return int(v.I) }

// Int64 is any integer in [lo, hi].
func Int64(name string, lo, hi int64) int64 { v, _ := pop("int", name); return v.I }

// Byte is any byte.
func Byte(name string) byte { v, _ := pop("byte", name); return byte(v.I) }

// Str is any string of length n over the alphabet (printable ASCII if empty).
func Str(name string, n int, alphabet string) string { v, _ := pop("str", name); return string(v.S) }

// Choose is any integer in [0, n), decided by case split.
func Choose(name string, n int) int {
	v, _ := pop("choose", name)
	return int(v.I)
}

// Split returns v, one case per feasible value.
func Split(v int) int { return v }

// Param is a bound of the harness.
func Param(name string, def int) int { v, _ := pop("param", name); return int(v.I) }

// Assume restricts the exploration to c.
func Assume(c bool) {
	if !c {
		fmt.Println("VDIVERGED assumption")
		os.Exit(13)
	}
}

// Assert is what must hold.
func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

// Fail is a violation.
func Fail(label string) {
	mu.Lock()
	fmt.Println("VFAIL " + label)
	os.Exit(10)
}

// Unsupported gives a path up: what follows cannot be decided here.
func Unsupported(msg string) {
	fmt.Println("VUNSUP " + msg)
	os.Exit(0)
}

// Reach marks a place that some path must get to.
func Reach(label string) {}

// And, Or, Iff, Implies, B2I, IteInt combine conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is the disjunction.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Iff is equivalence.
func Iff(a, b bool) bool { return a == b }

// Implies is implication.
func Implies(a, b bool) bool { return !a || b }

// B2I is 1 or 0.
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}

// IteInt is a conditional value.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Is decides c by case split.
func Is(c bool) bool { return c }

// Observe records a value for comparison between engine and native runs.
func Observe(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	switch x := v.(type) {
	case string:
		fmt.Println("VOBS " + strconv.Quote(label+"="+strconv.Quote(x)))
	default:
		fmt.Println("VOBS " + strconv.Quote(fmt.Sprintf("%s=%v", label, x)))
	}
}

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// FrozenClock makes the clock advance by one millisecond per reading.
func FrozenClock() { frozen = true }

// Preempt sets the number of preemptions still allowed.
func Preempt(n int) {}

// Now is the model clock.
func Now() time.Time {
	mu.Lock()
	if frozen {
		seq++
		t := int64(clockBase + seq*1_000_000)
		mu.Unlock()
		return time.Unix(0, t)
	}
	if free {
		mu.Unlock()
		return time.Now()
	}
	q := queues["now/now"]
	if len(q) == 0 {
		lastT += 1_000_000
		t := lastT
		mu.Unlock()
		return time.Unix(0, t)
	}
	queues["now/now"] = q[1:]
	lastT = q[0].I
	mu.Unlock()
	return time.Unix(0, q[0].I)
}

// Since and Until replace the functions of package time.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Pool replaces sync.Pool: last in, first out, nothing dropped.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	list []any
}

// Get takes the most recently returned item.
func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.list); n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.list = append(p.list, x)
	p.mu.Unlock()
}

var intervals struct {
	sync.Mutex
	ds []time.Duration
}

func interval(d time.Duration) {
	intervals.Lock()
	defer intervals.Unlock()
	intervals.ds = append(intervals.ds, d)
}

// Intervals is what timers were set to, so far.
func Intervals() []time.Duration {
	intervals.Lock()
	defer intervals.Unlock()
	return append([]time.Duration(nil), intervals.ds...)
}

func NewTicker(d time.Duration) *time.Ticker { interval(d); return time.NewTicker(d) }
func NewTimer(d time.Duration) *time.Timer   { interval(d); return time.NewTimer(d) }
func After(d time.Duration) <-chan time.Time { interval(d); return time.After(d) }
func Tick(d time.Duration) <-chan time.Time  { interval(d); return time.Tick(d) }
