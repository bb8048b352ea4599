package core

import (
	"context"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

func limitOf(n int) int {
	switch {
	case n <= 0:
		return 10
	case n > 250:
		return 250
	}
	return n
}

// HC08Select: any population over two categories, any state filter and any
// limit: exactly the newest that match, newest first.
//
// verif: prop=C08 quick.N=4 thorough.N=5 reach=cut,all
func HC08Select() {
	cond := conditions{}
	filter := v.Choose("filter", 4)
	var all []*ft
	c := fakeCollector(&all)
	if filter != 3 {
		last := int64(0)
		c.SetNewTrace(func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			last = anyTime("start", last)
			t := &ft{id: string(rune('A' + len(all))), source: source, category: category, started: time.Unix(0, last)}
			all = append(all, t)
			return trc.Put(ctx, t)
		})
	}
	n := v.Param("N", 4)
	for i := 0; i < n; i++ {
		cat := i % 2
		if filter < 3 || i < 3 {
			cat = v.Choose("cat", 2)
		}
		c.NewTrace(bg, []string{"a", "b"}[cat])
		all[i].finished = true
		if filter == 1 {
			all[i].errored = v.Bool("errored")
		}
	}
	switch filter {
	case 1:
		cond.errd = true
	case 2:
		cond.category = "b"
	case 3:
		cond.ids = []string{v.Str("fid", 1, "ABCDEFGH")}
	}
	f := cond.filter()
	limit := v.Int("limit", -2, 6)
	var before []ft
	for _, t := range all {
		before = append(before, *t)
	}
	res, err := c.Search(bg, &trc.SearchRequest{Filter: f, Limit: limit})
	v.Assert(err == nil, "a search does not fail")
	v.Assert(res.TotalCount == n, "the total count is what is retained")
	lim := v.IteInt(limit <= 0, 10, limit)
	got := 0
	for i := n - 1; i >= 0; i-- {
		t := all[i]
		if v.Is(cond.holds(t)) && v.Is(got < lim) {
			v.Assert(got < len(res.Traces), "every newest match is returned")
			if got < len(res.Traces) {
				st := res.Traces[got]
				v.Assert(st.TraceID == t.id, "newest first: ID")
				v.Assert(st.TraceStarted.Equal(t.started), "newest first: start")
				v.Assert(st.TraceErrored == t.errored, "newest first: state")
				v.Assert(st.TraceCategory == t.category, "newest first: category")
			}
			got++
		}
	}
	v.Assert(len(res.Traces) == got, "nothing else is returned")
	for i, t := range all {
		b := before[i]
		v.Assert(v.And(b.id == t.id, b.errored == t.errored, b.finished == t.finished, len(t.calls) == 0, t.freed == 0), "the traces are as before")
	}
	if v.Is(got == lim) {
		v.Reach("cut")
	} else {
		v.Reach("all")
	}
	v.Observe("n", len(res.Traces))
}

// HC08Limit: the limit is clamped to 1..250 with default 10, for any number.
//
// verif: prop=C08 reach=end
func HC08Limit() {
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	for i := 0; i < 12; i++ {
		c.NewTrace(bg, "cat")
	}
	limit := v.Int("limit", -1<<62, 1<<62)
	res, err := c.Search(bg, &trc.SearchRequest{Limit: limit})
	v.Assert(err == nil, "a search does not fail")
	want := v.IteInt(limit <= 0, 10, v.IteInt(limit < 12, limit, 12))
	v.Assert(len(res.Traces) == want, "at most the requested limit")
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// HC08Max: no more than 250 traces are ever returned.
//
// verif: prop=C08 reach=end steps=100000000
func HC08Max() {
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	for i := 0; i < 252; i++ {
		c.NewTrace(bg, "cat")
	}
	limit := v.Int("limit", 248, 1<<62)
	res, err := c.Search(bg, &trc.SearchRequest{Limit: limit})
	v.Assert(err == nil, "a search does not fail")
	v.Assert(len(res.Traces) == v.IteInt(limit < 250, limit, 250), "at most 250 traces")
	v.Reach("end")
}

// HC08Ties: traces that started at the same instant in any category come out in
// descending ID order, and the limit keeps the highest.
//
// verif: prop=C08 quick.N=3 thorough.N=4 reach=tie
func HC08Ties() {
	var all []*ft
	n := v.Param("N", 3)
	last := int64(0)
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		ns := v.Int64("start", era, era+1<<46-1)
		v.Assume(ns >= last)
		last = ns
		t := &ft{id: string(rune('A' + len(all))), source: source, category: category, started: time.Unix(0, ns)}
		all = append(all, t)
		return trc.Put(ctx, t)
	}})
	for i := 0; i < n; i++ {
		c.NewTrace(bg, []string{"a", "b"}[v.Choose("cat", 2)])
	}
	res, _ := c.Search(bg, &trc.SearchRequest{Limit: 1 + v.Choose("limit", n)})
	for i, st := range res.Traces {
		v.Assert(st.TraceID == all[n-1-i].id, "newest first, ties by ID")
	}
	if v.Is(all[0].started.Equal(all[1].started)) {
		v.Reach("tie")
	}
	v.Observe("n", len(res.Traces))
}

// HC08Fields: each returned trace is what the live trace was, with stacks cut to
// any depth, and the live trace is as before.
//
// verif: prop=C08 quick.events=2 thorough.events=3 reach=end
func HC08Fields() {
	t := &ft{id: v.Str("id", 2, "AB"), source: v.Str("source", 1, ""), started: at(5), dur: time.Duration(v.Int64("dur", 0, 1<<62)),
		finished: v.Bool("finished"), errored: v.Bool("errored")}
	for i, n := 0, v.Choose("events", v.Param("events", 2)+1); i < n; i++ {
		ev := trc.Event{What: v.Str("what", 1, ""), IsError: v.Bool("iserr"), When: at(int64(10 + i))}
		for j, m := 0, v.Choose("frames", 3); j < m; j++ {
			ev.Stack = append(ev.Stack, trc.Frame{Function: v.Str("fn", 1, ""), FileLine: "f:1"})
		}
		t.events = append(t.events, ev)
	}
	want := copyEvents(t.events)
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		t.category = category
		return trc.Put(ctx, t)
	}})
	c.NewTrace(bg, "cat")
	depth := v.Int("depth", -3, 4)
	res, err := c.Search(bg, &trc.SearchRequest{StackDepth: depth})
	v.Assert(err == nil && len(res.Traces) == 1, "the trace is returned")
	st := res.Traces[0]
	v.Assert(v.And(st.TraceID == t.id, st.TraceSource == t.source, st.TraceCategory == "cat", st.TraceStarted.Equal(t.started), st.TraceDuration == t.dur,
		st.TraceFinished == t.finished, st.TraceErrored == t.errored), "the snapshot has the trace's metadata")
	v.Assert(len(st.TraceEvents) == len(want), "the snapshot has every event")
	for i, ev := range st.TraceEvents {
		w := want[i]
		v.Assert(v.And(ev.What == w.What, ev.IsError == w.IsError, ev.When.Equal(w.When)), "the snapshot has the event's data")
		d := v.IteInt(depth == 0, len(w.Stack), v.IteInt(depth < 0, 0, v.IteInt(depth < len(w.Stack), depth, len(w.Stack))))
		v.Assert(len(ev.Stack) == d, "stacks are cut to the requested depth")
		for j := range ev.Stack {
			if j < len(w.Stack) {
				v.Assert(ev.Stack[j] == w.Stack[j], "the innermost frames are kept")
			}
		}
	}
	sameEvents(want, copyEvents(t.events), "the live trace is as before")
	v.Reach("end")
	v.Observe("n", len(st.TraceEvents))
}

// HC08Core: core traces with stacks and any clock; the search shows what the
// trace shows, twice the same.
//
// verif: prop=C08 reach=end
func HC08Core() {
	v.FrozenClock()
	c := trc.NewCollector(trc.CollectorConfig{Source: v.Str("source", 1, "")})
	var trs []trc.Trace
	for i := 0; i < 2; i++ {
		_, tr := c.NewTrace(bg, []string{"a", "b"}[v.Choose("cat", 2)])
		for j, n := 0, v.Choose("events", 3); j < n; j++ {
			note(tr, v.Choose("site", 3), v.Str("text", 1, ""))
		}
		if v.Bool("finish") {
			tr.Finish()
		}
		trs = append(trs, tr)
	}
	for k := 0; k < 2; k++ {
		res := searchAll(c)
		v.Assert(len(res.Traces) == 2 && res.TotalCount == 2, "both traces are returned")
		for i, st := range res.Traces {
			a, b := look(trs[1-i]), look(st)
			if !a.finished {
				v.Assert(b.dur >= 0, "an active trace has a duration")
				a.dur, b.dur = 0, 0
			}
			sameState(a, b, "the snapshot is the trace")
		}
	}
	v.Reach("end")
	v.Observe("id", trs[0].Errored())
}

// HC08Problem: an invalid query is a problem in the response, not a failure, and
// selects as if it were absent.
//
// verif: prop=C08 reach=end
func HC08Problem() {
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	c.NewTrace(bg, "a")
	c.NewTrace(bg, "b")
	all[0].errored, all[1].errored = v.Bool("e0"), v.Bool("e1")
	res, err := c.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Query: []string{"(", "[a", "*"}[v.Choose("bad", 3)], IsErrored: true}})
	v.Assert(err == nil && res != nil, "an invalid query does not fail the search")
	v.Assert(len(res.Problems) == 1, "an invalid query is one problem")
	v.Assert(len(res.Traces) == v.B2I(all[0].errored)+v.B2I(all[1].errored), "the other conditions hold")
	res, err = c.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Query: "a"}})
	v.Assert(err == nil && len(res.Problems) == 0, "a valid query is no problem")
	v.Assert(len(res.Sources) == 1 && res.Sources[0] == "src", "the response names the source")
	v.Reach("end")
}

// HC08Conc: a search while traces are being added returns only traces that were
// retained at some moment of the search, in order, and never a half-made one.
//
// verif: prop=C08 quick.preempt=2 thorough.preempt=3 reach=end
func HC08Conc() {
	trc.SetTraceStacks(false)
	v.FrozenClock()
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(2)
	_, first := c.NewTrace(bg, "a")
	v.Go("writer", func() {
		_, t := c.NewTrace(bg, "a")
		t.Tracef("x")
		_, u := c.NewTrace(bg, "b")
		u.Errorf("y")
		u.Finish()
	})
	var res *trc.SearchResponse
	v.Go("searcher", func() { res = searchAll(c) })
	v.Wait()
	v.Assert(len(res.Traces) == res.TotalCount, "everything retained is returned")
	v.Assert(len(res.Traces) >= 1 && len(res.Traces) <= 3, "what was there before is there")
	for i, st := range res.Traces {
		if i > 0 {
			v.Assert(st.TraceStarted.Before(res.Traces[i-1].TraceStarted), "newest first")
		}
		v.Assert(st.TraceSource == "src" && (st.TraceCategory == "a" || st.TraceCategory == "b"), "no half-made trace")
		v.Assert(len(st.TraceEvents) <= 1, "no half-made event")
	}
	v.Assert(res.Traces[len(res.Traces)-1].TraceID == first.ID(), "the oldest is last")
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// HC08Finish: a trace is finished while it is searched: a trace returned as
// finished has its final duration, state and events.
//
// verif: prop=C08 quick.preempt=2 thorough.preempt=4 reach=finished,active
func HC08Finish() {
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"})
	_, tr := c.NewTrace(bg, "a")
	v.Go("owner", func() {
		tr.Errorf("x")
		tr.Finish()
	})
	var res *trc.SearchResponse
	v.Go("searcher", func() { res = searchAll(c) })
	v.Wait()
	v.Assert(len(res.Traces) == 1, "the trace is found")
	st, s := res.Traces[0], look(tr)
	if st.TraceFinished {
		v.Reach("finished")
		sameState(s, look(st), "a finished trace is returned as it is")
	} else {
		v.Reach("active")
		v.Assert(st.TraceDuration <= s.dur, "the duration so far")
	}
	v.Observe("n", len(st.TraceEvents))
}

// anytime is a context canceled at any moment at which it is looked at, or
// never.
type anytime struct {
	context.Context
	gone bool
}

func (c *anytime) Err() error {
	if !c.gone && v.Bool("canceled by now") {
		c.gone = true
	}
	if c.gone {
		return context.Canceled
	}
	return nil
}

func (c *anytime) Done() <-chan struct{} {
	if c.Err() == nil {
		return nil
	}
	ch := make(chan struct{})
	close(ch)
	return ch
}

// HC08Canceled: whenever the caller's context ends, a search that answers
// answers in full.
//
// verif: prop=C08 preempt=0 reach=end
func HC08Canceled() {
	v.FrozenClock()
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	for i := 0; i < 4; i++ {
		c.NewTrace(bg, []string{"a", "b"}[v.Choose("cat", 2)])
	}
	ctx := &anytime{Context: bg}
	if v.Bool("before") {
		ctx.gone = true
	}
	limit := v.Int("limit", 1, 5)
	res, err := c.Search(ctx, &trc.SearchRequest{Limit: limit})
	if err != nil {
		v.Assert(ctx.gone, "a search fails for no other reason")
		v.Reach("end")
		return
	}
	v.Assert(res.TotalCount == 4, "the total count is what is retained")
	v.Assert(len(res.Traces) == v.IteInt(limit < 4, limit, 4), "as many as there are, or the limit")
	for i, st := range res.Traces {
		v.Assert(st.TraceID == all[3-i].id, "the newest of them, newest first")
	}
	sum := 0
	for _, name := range []string{"a", "b"} {
		if cs := res.Stats.Categories[name]; cs != nil {
			sum += cs.ActiveCount
		}
	}
	v.Assert(sum == 4, "the statistics cover every trace retained")
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// HC08IDs: any IDs asked for, more of them than the limit, some unknown or
// repeated: the newest of the traces that have them, up to the limit.
//
// verif: prop=C08 quick.K=2 thorough.K=3 preempt=0 reach=cut,all
func HC08IDs() {
	v.FrozenClock()
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	for i := 0; i < 4; i++ {
		c.NewTrace(bg, []string{"a", "b"}[i%2])
	}
	var ids []string
	for i, n := 0, 1+v.Choose("ids", v.Param("K", 2)); i < n; i++ {
		ids = append(ids, v.Str("id", 1, "ABCDE"))
	}
	limit := 1 + v.Choose("limit", 3)
	res, err := c.Search(bg, &trc.SearchRequest{Filter: trc.Filter{IDs: ids}, Limit: limit})
	v.Assert(err == nil, "a search does not fail")
	got := 0
	for i := 3; i >= 0; i-- {
		match := false
		for _, id := range ids {
			match = v.Or(match, id == all[i].id)
		}
		if v.Is(match) {
			if got < limit {
				v.Assert(got < len(res.Traces) && res.Traces[got].TraceID == all[i].id, "every newest match is returned")
			}
			got++
		}
	}
	if got > limit {
		got = limit
		v.Reach("cut")
	} else {
		v.Reach("all")
	}
	v.Assert(len(res.Traces) == got, "nothing else is returned")
	v.Observe("n", len(res.Traces))
}

// veiled is a trace that shows less than the one it wraps.
type veiled struct {
	trc.Trace
	freed *int
}

func (t veiled) Events() []trc.Event { return []trc.Event{{What: "veiled"}} }
func (t veiled) Free()               { *t.freed++ }

// HC08Decorated: what is searched, selected and returned is the trace as the
// collector's decorators made it.
//
// verif: prop=C08 preempt=0 reach=end
func HC08Decorated() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	freed := 0
	d := func(tr trc.Trace) trc.Trace { return veiled{tr, &freed} }
	var c *trc.Collector
	if v.Bool("set") {
		c = trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetDecorators(d)
	} else {
		c = trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: []trc.DecoratorFunc{d}})
	}
	c.SetCategorySize(1)
	ctx, tr := c.NewTrace(bg, "cat")
	emit(tr, v.Choose("method", 4), "secret")
	v.Assert(trc.Get(ctx) == tr, "the context has the trace returned")
	res, err := c.Search(bg, &trc.SearchRequest{})
	v.Assert(err == nil && len(res.Traces) == 1 && len(res.Traces[0].TraceEvents) == 1, "the trace is found")
	v.Assert(res.Traces[0].TraceEvents[0].What == "veiled", "as its decorator shows it")
	res, err = c.Search(bg, &trc.SearchRequest{Filter: trc.Filter{Query: "secret"}})
	v.Assert(err == nil && len(res.Traces) == 0, "and selected as its decorator shows it")
	c.NewTrace(bg, "cat")
	v.Assert(freed == 1, "what is evicted is the decorated trace")
	v.Reach("end")
}

// HC08Order: traces that were stored in another order than they started in
// (created by several goroutines, or by a constructor of the user's) are
// returned newest first all the same, from one category or from two.
//
// verif: prop=C08 quick.N=3 thorough.N=4 preempt=0 reach=end
func HC08Order() {
	v.FrozenClock()
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		t := &ft{id: string(rune('A' + len(all))), source: source, category: category, started: time.Unix(0, v.Int64("start", era, era+1<<12-1))}
		all = append(all, t)
		return trc.Put(ctx, t)
	}})
	n := v.Param("N", 3)
	two := v.Bool("two")
	for i := 0; i < n; i++ {
		cat := "a"
		if two && i%2 == 1 {
			cat = "b"
		}
		c.NewTrace(bg, cat)
	}
	res, err := c.Search(bg, &trc.SearchRequest{Limit: n + v.Choose("more", 2)})
	v.Assert(err == nil && len(res.Traces) == n, "every trace is returned")
	for i, st := range res.Traces {
		k := int(st.TraceID[0] - 'A')
		v.Assert(st.TraceStarted.Equal(all[k].started), "with its own start")
		if i > 0 {
			p := res.Traces[i-1]
			v.Assert(!p.TraceStarted.Before(st.TraceStarted), "newest first")
			v.Assert(v.Implies(p.TraceStarted.Equal(st.TraceStarted), p.TraceID > st.TraceID), "ties by ID")
		}
	}
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}
