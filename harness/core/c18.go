package core

import (
	"context"
	"fmt"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// world is what goroutines share.
type world struct {
	c   *trc.Collector
	b   *trc.Broker
	ctx context.Context // with tr
	tr  trc.Trace
	pre context.Context // a prefixed view
	s   *stream
	s2  *stream
	on  *stream // there all the time, if at all
	ms  trc.MultiSearcher
	req *trc.SearchRequest
}

// newWorld has two categories; one has finished traces to evict.
func newWorld() *world {
	v.FrozenClock()
	w := &world{b: trc.NewBroker()}
	w.c = trc.NewCollector(trc.CollectorConfig{Broker: w.b}).SetCategorySize(3)
	for i := 0; i < 2; i++ {
		_, tr := w.c.NewTrace(bg, "old")
		tr.LazyTracef("old %d", i)
		tr.Finish()
	}
	w.ctx, w.tr = w.c.NewTrace(bg, "cat")
	w.tr.LazyTracef("lazy %d", 1)
	w.pre, _ = trc.Prefix(w.ctx, "<%d>", 1)
	w.s, w.s2, w.on = newStream(1), newStream(0), newStream(1)
	w.ms = trc.MultiSearcher{w.c}
	return w
}

var menu = []struct {
	name string
	do   func(w *world)
}{
	{"create", func(w *world) { _, tr := w.c.NewTrace(bg, "old"); tr.Tracef("new") }},
	{"create in a new category", func(w *world) { w.c.NewTrace(bg, "new") }},
	{"write", func(w *world) { w.tr.Tracef("x"); w.tr.LazyErrorf("y") }},
	{"write through a prefix", func(w *world) { trc.Get(w.pre).LazyTracef("x %d", 2); trc.Get(w.pre).Errorf("y") }},
	{"region", func(w *world) { _, tr, finish := trc.Region(w.ctx, "r"); tr.Tracef("x"); finish() }},
	{"read", func(w *world) {
		w.tr.Events()
		w.tr.Errored()
		w.tr.Duration()
		_ = w.tr.ID() + w.tr.Source() + w.tr.Category()
		w.tr.Started()
	}},
	{"finish", func(w *world) { w.tr.Finish(); w.tr.Finished() }},
	{"search", func(w *world) {
		w.c.Search(w.ctx, &trc.SearchRequest{Filter: trc.Filter{Query: "y", IsActive: true}, StackDepth: 1})
	}},
	{"search several", func(w *world) { w.ms.Search(bg, &trc.SearchRequest{}) }},
	{"resize", func(w *world) { w.c.SetCategorySize(1) }},
	{"subscribe", func(w *world) { w.c.Stream(w.s.ctx, trc.Filter{Query: "x"}, w.s.ch) }},
	{"subscribe too", func(w *world) { w.c.Stream(w.s2.ctx, trc.Filter{}, w.s2.ch) }},
	{"cancel", func(w *world) { w.s.cancel() }},
	{"stream statistics", func(w *world) { w.c.StreamStats(bg, w.s.ch); w.c.StreamStats(bg, w.on.ch) }},
	{"publish", func(w *world) { w.b.Publish(bg, &ft{id: "f", started: at(0), events: make([]trc.Event, 1)}) }},
	{"settings", func(w *world) {
		trc.SetTraceMaxEvents(20)
		trc.SetTraceStacks(false)
	}},
	{"snapshot", func(w *world) { trc.NewStreamTrace(w.tr); trc.NewSearchTrace(w.tr) }},
	{"limit", func(w *world) {
		_, tr := trc.New(bg, "s", "c")
		trc.SetMaxEvents(tr, 11)
		tr.Tracef("x")
	}},
}

// together runs n operations of the menu in goroutines, with or without a
// stream that is there all the time.
func together(stacks bool, n int, which []int) {
	trc.SetTraceStacks(stacks)
	w := newWorld()
	if v.Bool("streaming") {
		v.Go("stream", func() { w.on.run(w.c, trc.Filter{IsActive: true}) })
		v.Settle()
	}
	var ops []int
	for i, from := 0, 0; i < n; i++ {
		from += v.Choose("op", len(which)-from)
		ops = append(ops, which[from])
	}
	for _, k := range ops {
		k := k
		v.Go(menu[k].name, func() { menu[k].do(w) })
	}
	v.Settle() // whoever is left now waits for the end of a context
	w.on.cancel()
	w.s.cancel()
	w.s2.cancel()
	v.Wait() // everyone returns
	evs := w.tr.Events()
	v.Assert(len(evs) >= 1 && evs[0].What == "lazy 1", "the trace is intact")
	res := searchAll(w.c)
	v.Assert(len(res.Traces) == res.TotalCount && res.TotalCount >= 2, "the collector is intact")
	v.Reach("end")
	v.Observe("ops", fmt.Sprint(ops))
}

// HC18Pairs: every pair of operations.
//
// verif: prop=C18 quick.preempt=1 thorough.preempt=2 maporder=none flags=lockpairs reach=end timeout=600
func HC18Pairs() { together(false, 2, all(len(menu))) }

func all(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// HC18Stacks: the same with stacks, which are made when first read.
//
// verif: prop=C18 quick.preempt=1 thorough.preempt=2 maporder=none flags=lockpairs reach=end timeout=600
func HC18Stacks() { together(true, 2, all(len(menu))) }

// HC18Three: three of the main operations at once.
//
// verif: prop=C18 quick.preempt=1 thorough.preempt=2 maporder=none flags=lockpairs reach=end timeout=600
func HC18Three() { together(false, 3, []int{0, 2, 6, 7, 9, 10, 12}) }

// HC18Deep: pairs of the main operations with more preemptions.
//
// verif: prop=C18 quick.preempt=2 thorough.preempt=3 maporder=none flags=lockpairs reach=end timeout=600
func HC18Deep() { together(false, 2, []int{0, 2, 6, 7, 9, 10}) }
