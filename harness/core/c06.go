package core

import (
	"context"
	"fmt"
	"strings"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// note writes an event from one of several call sites, so that stacks differ.
func note(tr trc.Trace, site int, text string) {
	switch site {
	case 0:
		siteA(tr, text)
	case 1:
		siteB(tr, text)
	default:
		siteC(tr, text)
	}
}

func siteA(tr trc.Trace, text string) { tr.Tracef("%s", text) }
func siteB(tr trc.Trace, text string) { deeper(tr, text) }
func siteC(tr trc.Trace, text string) { tr.Errorf("%s", text) }
func deeper(tr trc.Trace, text string) {
	tr.LazyTracef("%s", text)
}

type snapshot struct {
	tr   trc.Trace // or nil
	evs  []trc.Event
	want state
}

func snap(tr trc.Trace) snapshot { return snapshot{tr: tr, want: look(tr)} }

func (s snapshot) check(label string) {
	if s.tr != nil {
		sameState(s.want, look(s.tr), label)
		return
	}
	sameEvents(s.want.events, copyEvents(s.evs), label)
}

// HC06Snap: snapshots of a finished trace taken in every way, then the trace is
// evicted and recycled by traces written from other places: the snapshots stay
// as they were and the new traces start empty.
//
// verif: prop=C06 quick.events=1 thorough.events=2 quick.next=2 thorough.next=3 reach=recycled
func HC06Snap() {
	v.FrozenClock()
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	_, tr := c.NewTrace(bg, "cat")
	for i, n := 0, v.Param("events", 1); i < n; i++ {
		note(tr, v.Choose("site", 3), v.Str("text", 1, ""))
	}
	var snaps []snapshot
	if v.Bool("midstream") {
		snaps = append(snaps, snap(trc.NewStreamTrace(tr)))
	}
	tr.Finish()
	switch v.Choose("snap", 4) {
	case 0:
		res := searchAll(c)
		snaps = append(snaps, snap(res.Traces[0]))
	case 1:
		evs := tr.Events()
		snaps = append(snaps, snapshot{evs: evs, want: state{events: copyEvents(evs)}})
	case 2:
		snaps = append(snaps, snap(trc.NewStreamTrace(tr)))
	case 3:
		res, _ := c.Search(bg, &trc.SearchRequest{StackDepth: v.Int("depth", -2, 9)})
		snaps = append(snaps, snap(res.Traces[0]))
	}
	first := tr.ID()
	tr = nil // from here on the trace belongs to the collector
	for i, n := 0, v.Param("next", 2); i < n; i++ {
		_, nt := c.NewTrace(bg, "cat")
		v.Assert(nt.ID() != first, "a new trace has its own ID")
		v.Assert(!nt.Finished(), "a new trace is active")
		v.Assert(!nt.Errored(), "a new trace has no error")
		v.Assert(len(nt.Events()) == 0, "a new trace has no events")
		site, text := v.Choose("nsite", 3), v.Str("ntext", 1, "")
		note(nt, site, text)
		evs := nt.Events()
		v.Assert(len(evs) == 1, "a trace holds its own events only")
		v.Assert(evs[0].What == text, "a trace holds its own text")
		v.Assert(evs[0].IsError == (site == 2), "a trace holds its own flag")
		v.Assert(nt.Errored() == (site == 2), "an error stays with its trace")
		want := []string{"siteA", "deeper", "siteC"}[site]
		v.Assert(len(evs[0].Stack) > 0 && hasSuffix(evs[0].Stack[0].Function, "."+want), "a trace holds its own stack")
		if i == 0 {
			nt.Finish()
		}
		for _, s := range snaps {
			s.check("a snapshot stays as it was")
		}
		v.Reach("recycled")
	}
	v.Observe("n", len(snaps))
}

func hasSuffix(s, suf string) bool { return len(s) >= len(suf) && s[len(s)-len(suf):] == suf }

type live struct {
	tr    trc.Trace
	texts []string
	errs  bool
	done  bool
	gone  bool
	held  bool // still in its category
}

// HC06Ops: any sequence of creating, writing, finishing and searching with a
// category of one or two traces; whatever is evicted or recycled, every handle
// its owner may still use and every snapshot taken shows its own data only.
// Handles of traces that were finished and then evicted are not used again.
//
// verif: prop=C06 quick.ops=6 thorough.ops=7 quick.handles=3 thorough.handles=4 reach=evicted,lost
func HC06Ops() {
	v.FrozenClock()
	trc.SetTraceStacks(v.Bool("stacks"))
	size := 1 + v.Choose("size", 2)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(size)
	var ls []*live
	var snaps []snapshot
	evict := func() {
		n := 0
		for i := len(ls) - 1; i >= 0; i-- {
			if !ls[i].held {
				continue
			}
			if n++; n > size {
				ls[i].held = false
				if ls[i].done {
					ls[i].gone = true
					v.Reach("evicted")
				} else {
					v.Reach("lost")
				}
			}
		}
	}
	check := func() {
		for _, l := range ls {
			if l.gone {
				continue
			}
			evs := l.tr.Events()
			v.Assert(len(evs) == len(l.texts), "a trace holds its own events only")
			for i := range evs {
				if i < len(l.texts) {
					v.Assert(evs[i].What == l.texts[i], "a trace holds its own text")
				}
			}
			v.Assert(l.tr.Errored() == l.errs, "an error stays with its trace")
			v.Assert(l.tr.Finished() == l.done, "a finish stays with its trace")
		}
		for _, s := range snaps {
			s.check("a snapshot stays as it was")
		}
	}
	max := v.Param("handles", 3)
	for i, n := 0, v.Param("ops", 5); i < n; i++ {
		var use []*live
		for _, l := range ls {
			if !l.gone {
				use = append(use, l)
			}
		}
		op := 0
		if len(ls) >= max {
			op = 1
		} else if len(ls) > 0 {
			op = v.Choose("op", 4)
		}
		if len(ls) >= max {
			op = 1 + v.Choose("op", 3)
		}
		switch op {
		case 0:
			_, tr := c.NewTrace(bg, "cat")
			ls = append(ls, &live{tr: tr, held: true})
			evict()
		case 1:
			l := use[v.Choose("who", len(use))]
			site, text := v.Choose("site", 3), v.Str("text", 1, "")
			note(l.tr, site, text)
			if !l.done {
				l.texts = append(l.texts, text)
				l.errs = l.errs || site == 2
			}
		case 2:
			l := use[v.Choose("who", len(use))]
			l.tr.Finish()
			l.done = true
			if !l.held {
				// evicted while active: stays its owner's
				l.gone = false
			}
		case 3:
			for _, st := range searchAll(c).Traces {
				snaps = append(snaps, snap(st))
			}
		}
		check()
	}
	v.Observe("n", len(ls))
}

// HC06Conc: one goroutine keeps replacing and recycling the only trace of a
// category while another searches; each snapshot belongs to one trace and stays
// as it was.
//
// verif: prop=C06 quick.preempt=2 thorough.preempt=3 quick.traces=3 thorough.traces=3 reach=end
func HC06Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	n := v.Param("traces", 3)
	v.Go("writer", func() {
		for i := 0; i < n; i++ {
			_, tr := c.NewTrace(bg, "cat")
			tr.Tracef("%d", i)
			tr.LazyErrorf("%d", i)
			tr.Finish()
		}
	})
	var snaps []snapshot
	v.Go("searcher", func() {
		for i := 0; i < 2; i++ {
			res := searchAll(c)
			for _, st := range res.Traces {
				s := snap(st)
				snaps = append(snaps, s)
				for _, ev := range st.TraceEvents {
					v.Assert(ev.What == st.TraceEvents[0].What, "a snapshot shows one trace only")
				}
				v.Assert(len(st.TraceEvents) <= 2, "a snapshot shows one trace only")
			}
		}
	})
	v.Wait()
	for _, s := range snaps {
		s.check("a snapshot stays as it was")
	}
	v.Reach("end")
	v.Observe("n", len(snaps))
}

// HC06Full: a trace with more events than its limit, a limit of its own, or
// another stack setting, is recycled; nothing of that is left in the traces
// that follow.
//
// verif: prop=C06 reach=over
func HC06Full() {
	v.FrozenClock()
	stacks := v.Bool("stacks")
	trc.SetTraceStacks(stacks)
	trc.SetTraceMaxEvents(11)
	var inner trc.Trace // the trace within its decorators
	c := trc.NewCollector(trc.CollectorConfig{
		Source: "one",
		NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			return trc.New(ctx, source, category, append([]trc.DecoratorFunc{func(tr trc.Trace) trc.Trace { inner = tr; return tr }}, ds...)...)
		},
	}).SetCategorySize(1)
	_, tr := c.NewTrace(bg, "cat")
	if v.Bool("own") {
		trc.SetMaxEvents(inner, 10)
	}
	n := 9 + v.Choose("n", 4)
	if n > 11 {
		v.Reach("over")
	}
	for i := 0; i < n; i++ {
		tr.LazyErrorf("e%d", i)
	}
	if v.Bool("read") {
		tr.Events()
	}
	tr.Finish()
	trc.SetTraceStacks(!stacks)
	c.SetSourceName("two")
	prev := tr.ID()
	for i := 0; i < 2; i++ {
		_, nt := c.NewTrace(bg, "cat")
		v.Assert(nt.Source() == "two" && nt.Category() == "cat", "a new trace has its own metadata")
		v.Assert(nt.ID() > prev, "a new trace has its own ID")
		prev = nt.ID()
		v.Assert(!nt.Finished() && !nt.Errored(), "a new trace is active and has no error")
		v.Assert(len(nt.Events()) == 0, "a new trace has no events")
		for j := 0; j < 11; j++ {
			nt.Tracef("n%d", j)
		}
		evs := nt.Events()
		v.Assert(len(evs) == 11, "a new trace has its own limit and its own events")
		for j, ev := range evs {
			v.Assert(ev.What == fmt.Sprintf("n%d", j) && !ev.IsError, "a trace holds its own events only")
			v.Assert((len(ev.Stack) == 0) == stacks, "a new trace has its own stack setting")
		}
		v.Assert(!nt.Errored(), "an error stays with its trace")
		nt.Finish()
	}
	v.Observe("n", n)
}

// HC06Active: a trace that is still in use is evicted; whatever it had recorded
// by then, and however often other traces are recycled after it, it keeps what
// its owner put into it and goes on recording.
//
// verif: prop=C06 reach=over
func HC06Active() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(10)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	_, tr := c.NewTrace(bg, "cat")
	id := tr.ID()
	n := 9 + v.Choose("n", 4)
	lazy := v.Bool("lazy")
	bad := -1
	if v.Bool("err") {
		bad = n - 1
	}
	for i := 0; i < n; i++ {
		switch {
		case i == bad:
			tr.Errorf("e%d", i)
		case lazy:
			tr.LazyTracef("e%d", i)
		default:
			tr.Tracef("e%d", i)
		}
	}
	if n > 10 {
		v.Reach("over")
	}
	check := func(n int) {
		v.Assert(tr.ID() == id && tr.Source() == "src" && tr.Category() == "cat", "an evicted trace in use keeps its metadata")
		v.Assert(!tr.Finished() && tr.Errored() == (bad >= 0), "an evicted trace in use keeps its state")
		evs := tr.Events()
		if n <= 10 {
			v.Assert(len(evs) == n, "an evicted trace in use keeps its events")
			for i := range evs {
				v.Assert(evs[i].What == fmt.Sprintf("e%d", i) && evs[i].IsError == (i == bad), "an evicted trace in use keeps each event")
			}
			return
		}
		// The marker takes the place of one of the events.
		v.Assert(len(evs) == 10, "an evicted trace in use keeps its events")
		for i, ev := range evs[:9] {
			v.Assert(ev.What == fmt.Sprintf("e%d", i+1) && ev.IsError == (i+1 == bad), "an evicted trace in use keeps each event")
		}
		v.Assert(strings.Contains(evs[9].What, fmt.Sprintf("%d", n-10)), "an evicted trace in use keeps count of its truncated events")
	}
	check(n)
	k := 1 + v.Choose("k", 2)
	for i := 0; i < k; i++ {
		_, nt := c.NewTrace(bg, "cat")
		nt.Errorf("other")
		nt.Finish()
	}
	check(n)
	tr.Tracef("e%d", n)
	check(n + 1)
	tr.Finish()
	v.Assert(tr.Finished(), "an evicted trace can be finished")
	v.Observe("n", n)
}

// HC06Inflight: a trace is finished by its owner; while that call is still on
// its way through the decorators, the trace is evicted and recycled. The owner
// did not use the trace after the call.
//
// verif: prop=C06 preempt=2 flags=norace
func HC06Inflight() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	s := newStream(10).start(c, trc.Filter{IsFinished: true})
	_, tr := c.NewTrace(bg, "cat")
	id := tr.ID()
	v.Go("owner", func() { tr.Finish() })
	v.Go("other", func() {
		for i := 0; i < 3; i++ {
			_, nt := c.NewTrace(bg, "cat")
			nt.Tracef("other")
		}
	})
	v.Settle()
	got := s.drain()
	v.Assert(len(got) == 1 && got[0].ID() == id, "the finish of a trace that is evicted at the same time is streamed as its own")
	s.cancel()
	v.Wait()
}

// HC06Args: the caller's own arguments, passed as a slice, are the caller's
// again once the trace is gone: later traces do not write to them, and what the
// caller does with them does not show in later traces.
//
// verif: prop=C06 preempt=0 reach=end
func HC06Args() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	_, a := c.NewTrace(bg, "cat")
	x := v.Str("x", 1, "abc")
	args := make([]any, 1+v.Choose("args", 2), 4)
	for i := range args {
		args[i] = x
	}
	emit(a, v.Choose("method", 4), "one %v", args...)
	if v.Bool("read") {
		a.Events()
	}
	a.Finish()
	_, b := c.NewTrace(bg, "cat") // evicts and recycles a
	y := v.Str("y", 1, "def")
	n := 1 + v.Choose("events", 2)
	for i := 0; i < n; i++ {
		emit(b, v.Choose("method", 4), "two %v %v", y, i)
	}
	for _, s := range args {
		v.Assert(s == any(x), "the caller's arguments are as the caller left them")
	}
	for _, s := range args[len(args):cap(args)] {
		v.Assert(s == nil, "nor is anything written behind them")
	}
	for i := range args {
		args[i] = "mine"
	}
	for i, ev := range b.Events() {
		v.Assert(ev.What == "two "+y+" "+string(rune('0'+i)), "a trace holds its own events only")
	}
	v.Assert(len(b.Events()) == n, "every event is there")
	v.Reach("end")
	v.Observe("n", len(b.Events()))
}
