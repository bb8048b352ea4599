package verif

import (
	"os"
	"reflect"
	"runtime"
	"sync"
	"time"
)

// The schedule controller uses plain memory in functions the race detector does
// not instrument, so that it adds no ordering of its own.

const maxG = 64

var (
	steps    []step
	cursor   int
	freeRun  bool
	noSched  bool
	nextID   = 1
	goids    [maxG]int64
	pos      [maxG]int
	arrived  [maxG]bool
	ended    [maxG]bool
	lastG    = -1
	consumed int64
	seed     uint64
	group    sync.WaitGroup
)

var dbg = os.Getenv("VERIF_TRACE") != ""

func initSched(s []step, free bool) {
	steps = s
	noSched = free
	seed = uint64(time.Now().UnixNano())
	freeRun = len(s) == 0
	register(0)
}

//go:norace
func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for i := 10; i < n; i++ {
		c := buf[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

//go:norace
func register(id int) {
	if id < maxG {
		goids[id] = goid()
		pos[id] = 0
	}
}

//go:norace
func self() int {
	id := goid()
	for i := 0; i < maxG; i++ {
		if goids[i] == id && !ended[i] {
			return i
		}
	}
	return -1
}

//go:norace
func nano() int64 { return time.Now().UnixNano() }

// Point is a scheduling point.
//
//go:norace
func Point(op string) {
	if noSched {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		switch seed % 8 {
		case 0:
			time.Sleep(time.Duration(seed % 50000))
		case 1, 2, 3:
			runtime.Gosched()
		}
		return
	}
	if freeRun || nextID == 1 { // the engine records nothing before the first goroutine
		return
	}
	id := self()
	if id < 0 {
		return
	}
	k := pos[id]
	for k < len(steps) && steps[k].G != id {
		k++
	}
	if dbg {
		println("POINT", id, op, "k", k, "cursor", cursor)
	}
	if k < len(steps) && steps[k].Op != op {
		return
	}
	arrived[id] = true
	start := nano()
	seen := cursor
	for cursor != k && !freeRun {
		if cursor > k || cursor >= len(steps) {
			break
		}
		if cursor != seen {
			seen = cursor
			start = nano()
		}
		if nano()-start > 300_000_000 {
			freeRun = true
		}
		time.Sleep(20 * time.Microsecond)
	}
	if lastG >= 0 && lastG != id {
		l := lastG
		for !arrived[l] && !ended[l] && nano()-consumed < 15_000_000 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	arrived[id] = false
	if k < len(steps) {
		cursor = k + 1
		pos[id] = k + 1
	}
	if dbg {
		println("GO", id, op, "k", k, "cursor", cursor, "free", freeRun)
	}
	lastG = id
	consumed = nano()
}

// At is Point in an expression.
func At[T any](op string, v T) T {
	Point(op)
	return v
}

//go:norace
func newID() int { id := nextID; nextID++; return id }

//go:norace
func end(id int) {
	if id < maxG {
		ended[id] = true
	}
}

// Wrap prepares the function of a go statement.
func Wrap[F any](f F) F {
	id := newID()
	fv := reflect.ValueOf(f)
	return reflect.MakeFunc(fv.Type(), func(args []reflect.Value) []reflect.Value {
		register(id)
		defer end(id)
		Point("start")
		if fv.Type().IsVariadic() {
			return fv.CallSlice(args)
		}
		return fv.Call(args)
	}).Interface().(F)
}

// Go starts a goroutine that Wait waits for.
func Go(name string, f func()) {
	group.Add(1)
	id := newID()
	go func() {
		defer group.Done()
		register(id)
		defer end(id)
		Point("start")
		f()
	}()
}

// Wait waits for the goroutines started with Go.
func Wait() {
	parked(true)
	group.Wait()
	parked(false)
}

//go:norace
func parked(b bool) {
	if id := self(); id >= 0 {
		arrived[id] = b
	}
}

// Yield lets others run.
func Yield() { Point("yield"); runtime.Gosched() }

// Settle lets the other goroutines run until all are blocked or done.
//
//go:norace
func Settle() {
	seen, start := cursor, nano()
	for nano()-start < 20_000_000 {
		if cursor != seen {
			seen, start = cursor, nano()
		}
		time.Sleep(500 * time.Microsecond)
	}
}
