package core

import (
	"context"
	"fmt"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

func clamp(n int) int {
	if n < 10 {
		return 10
	}
	if n > 10000 {
		return 10000
	}
	return n
}

// digits returns the only run of decimal digits in s, or -1.
func digits(s string) int {
	n, runs, in := 0, 0, false
	for i := 0; i < len(s); i++ {
		if c := s[i]; c >= '0' && c <= '9' {
			if !in {
				runs++
				in = true
				n = 0
			}
			n = n*10 + int(c-'0')
		} else {
			in = false
		}
	}
	if runs != 1 {
		return -1
	}
	return n
}

// checkLimited checks the report of a trace that was given the texts e<i> for
// i < n under a limit.
func checkLimited(tr trc.Trace, n, limit int) {
	evs := tr.Events()
	if n <= limit {
		v.Assert(len(evs) == n, "within the limit every event is reported and nothing else")
		for i := range evs {
			v.Assert(evs[i].What == fmt.Sprintf("e%d", i), "within the limit every event is reported")
		}
		return
	}
	v.Reach("over")
	v.Assert(len(evs) >= limit && len(evs) <= limit+1, "at most as many events as the limit are kept, and one marker")
	last := evs[len(evs)-1]
	v.Assert(digits(last.What) == n-limit, "the marker carries the exact number of discarded events")
	v.Assert(!last.IsError, "the marker is not an error")
	off := limit - (len(evs) - 1)
	for i := 0; i < len(evs)-1; i++ {
		v.Assert(evs[i].What == fmt.Sprintf("e%d", i+off), "the events kept are the earliest ones, in order")
	}
}

// HC05Global: any requested global limit, applied to traces created afterwards,
// and not to one created before.
//
// verif: prop=C05 quick.N=12 thorough.N=15 reach=over,error
func HC05Global() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	_, old := trc.New(bg, "src", "old")
	req := v.Int("limit", -1<<31, 1<<31-1)
	trc.SetTraceMaxEvents(req)
	kind := v.Choose("kind", 3)
	tr := makeTrace(kind)
	trc.SetTraceMaxEvents(v.Int("other", 0, 30))
	n := 9 + v.Choose("n", v.Param("N", 12)-8)
	errAt := n - 1
	for i := 0; i < n; i++ {
		switch {
		case i == errAt:
			tr.LazyErrorf("e%d", i)
		default:
			tr.LazyTracef("e%d", i)
		}
	}
	limit := clamp(v.Split(v.IteInt(clamp2(req) > n, n, clamp2(req))))
	checkLimited(tr, n, limit)
	v.Assert(tr.Errored(), "a discarded error event still marks the trace")
	if n > limit {
		v.Reach("error")
	}
	for i := 0; i < n; i++ {
		old.LazyTracef("e%d", i)
	}
	checkLimited(old, n, 1000)
	v.Observe("n", len(tr.Events()))
}

// clamp2 is clamp as one expression.
func clamp2(n int) int { return v.IteInt(n < 10, 10, v.IteInt(n > 10000, 10000, n)) }

// HC05Own: a limit set on the trace itself, before or between its events.
//
// verif: prop=C05 quick.N=13 thorough.N=16 reach=over
func HC05Own() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	_, tr := trc.New(bg, "src", "cat")
	req := v.Int("limit", -1<<31, 1<<31-1)
	n := v.Param("N", 13)
	pre := []int{0, 1, 2, n - 2, n - 1, n}[v.Choose("pre", 6)]
	for i := 0; i < pre; i++ {
		tr.LazyTracef("e%d", i)
	}
	_, ok := trc.SetMaxEvents(tr, req)
	v.Assert(ok, "a core trace accepts a limit")
	checkLimited(tr, pre, pre) // nothing is removed
	for i := pre; i < n; i++ {
		tr.Tracef("e%d", i)
	}
	limit := v.Split(v.IteInt(clamp2(req) > n, n, clamp2(req)))
	if limit < pre {
		limit = pre
	}
	checkLimited(tr, n, limit)
	v.Assert(!tr.Errored(), "discarding is not an error")
	v.Observe("n", len(tr.Events()))
}

// HC05Kinds: each of the four calls is limited and counted, and discarded
// errors count as errors.
//
// verif: prop=C05 reach=over
func HC05Kinds() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(1)
	_, tr := trc.New(bg, "src", "cat")
	for i := 0; i < 10; i++ {
		tr.LazyTracef("e%d", i)
	}
	over := 0
	errored := false
	for i := 10; i < 13; i++ {
		m := v.Choose("method", 5)
		if m == 4 {
			continue
		}
		write(tr, m, "late")
		errored = errored || m >= 2
		over++
		v.Assert(tr.Errored() == errored, "errored exactly when an error event was added, kept or not")
	}
	checkLimited(tr, 10+over, 10)
	tr.Finish()
	write(tr, v.Choose("after", 4), "after")
	checkLimited(tr, 10+over, 10)
	v.Observe("n", over)
}

// HC05Max: the upper bound of the limit.
//
// verif: prop=C05 steps=200000000 samples=1 timeout=200 reach=over
func HC05Max() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var limit int
	if far := v.Choose("far", 6); far > 0 {
		limit = []int{1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 20, 1 << 40}[far-1]
	} else {
		limit = v.Int("limit", 10000, 20000)
	}
	trc.SetTraceMaxEvents(limit)
	_, tr := trc.New(bg, "src", "cat")
	over := v.Choose("over", 2)
	for i := 0; i < 10000+over; i++ {
		tr.LazyTracef("e")
	}
	evs := tr.Events()
	if over == 0 {
		v.Assert(len(evs) == 10000 && evs[9999].What == "e", "ten thousand events fit")
		return
	}
	v.Reach("over")
	v.Assert(len(evs) >= 10000 && len(evs) <= 10001, "at most ten thousand events are kept, and one marker")
	v.Assert(digits(evs[len(evs)-1].What) == over, "the marker carries the exact number of discarded events")
}

// HC05Recycled: neither the limit of a trace nor the number of events it had
// carries over to a trace that is created after it was finished and evicted.
//
// verif: prop=C05 reach=over,under
func HC05Recycled() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	g1 := 10 + v.Choose("global1", 3)
	trc.SetTraceMaxEvents(g1)
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		ctx, tr := trc.New(ctx, source, category)
		if category == "own" {
			trc.SetMaxEvents(tr, 11)
		}
		return ctx, tr
	}})
	c.SetCategorySize(1)
	first := "own"
	if v.Bool("global") {
		first = "any"
	}
	_, tr := c.NewTrace(bg, first)
	for i, n := 0, 11*v.Choose("full", 2); i < n; i++ {
		tr.LazyTracef("e%d", i)
	}
	tr.Finish()
	_, tr = c.NewTrace(bg, first) // evicts the first
	tr.Finish()
	g2 := 10 + v.Choose("global2", 3)
	trc.SetTraceMaxEvents(g2)
	_, tr = c.NewTrace(bg, "new")
	n := 10 + v.Choose("n", 4)
	for i := 0; i < n; i++ {
		tr.LazyTracef("e%d", i)
	}
	if n <= g2 {
		v.Reach("under")
	}
	checkLimited(tr, n, g2)
	v.Observe("n", len(tr.Events()))
}

// HC05Many: many discarded events are counted exactly, too.
//
// verif: prop=C05 steps=400000000 samples=1 timeout=200 quick.K=65537 thorough.K=200000 reach=end
func HC05Many() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(10)
	_, tr := trc.New(bg, "src", "cat")
	for i := 0; i < 10; i++ {
		tr.LazyTracef("e")
	}
	k := v.Param("K", 300)
	for i := 1; i <= k; i++ {
		tr.LazyErrorf("e")
		if i&(i-1) == 0 || i&(i+1) == 0 || i == k {
			evs := tr.Events()
			v.Assert(digits(evs[len(evs)-1].What) == i, "the marker carries the exact number of discarded events")
		}
	}
	v.Assert(tr.Errored(), "discarded errors are errors")
	v.Reach("end")
}
