package core

import (
	"context"
	"io"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// makeTrace returns a new trace of one of the ways traces are made.
func makeTrace(kind int) trc.Trace {
	switch kind {
	case 0:
		_, tr := trc.New(bg, "src", "cat")
		return tr
	case 1:
		_, tr := trc.NewCollector(trc.CollectorConfig{Source: "src"}).NewTrace(bg, "cat")
		return tr
	case 2: // the log line holds times and durations as text: one clock is enough
		v.FrozenClock()
		_, tr := trc.New(bg, "src", "cat", trc.LogDecorator(io.Discard))
		return tr
	default:
		ctx, _ := trc.NewCollector(trc.CollectorConfig{Source: "src"}).NewTrace(bg, "cat")
		_, tr := trc.Prefix(ctx, "pre")
		return tr
	}
}

// write performs one of the four event calls.
func write(tr trc.Trace, method int, text string) {
	switch method {
	case 0:
		tr.Tracef("%s", text)
	case 1:
		tr.LazyTracef("%s", text)
	case 2:
		tr.Errorf("%s", text)
	case 3:
		tr.LazyErrorf("%s", text)
	}
}

type state struct {
	source, id, category string
	started              time.Time
	finished, errored    bool
	dur                  time.Duration
	events               []trc.Event
}

// look takes a deep copy of everything a trace reports.
func look(tr trc.Trace) state {
	s := state{source: tr.Source(), id: tr.ID(), category: tr.Category(), started: tr.Started(), finished: tr.Finished(), errored: tr.Errored(), dur: tr.Duration()}
	s.events = copyEvents(tr.Events())
	return s
}

func copyEvents(evs []trc.Event) []trc.Event {
	var out []trc.Event
	for _, ev := range evs {
		c := ev
		c.Stack = append([]trc.Frame(nil), ev.Stack...)
		out = append(out, c)
	}
	return out
}

func sameEvents(a, b []trc.Event, label string) {
	v.Assert(len(a) == len(b), label+": number of events")
	for i := range a {
		if i >= len(b) {
			break
		}
		v.Assert(a[i].What == b[i].What, label+": event text")
		v.Assert(a[i].IsError == b[i].IsError, label+": event error flag")
		v.Assert(a[i].When.Equal(b[i].When), label+": event time")
		v.Assert(len(a[i].Stack) == len(b[i].Stack), label+": stack depth")
		for j := range a[i].Stack {
			if j < len(b[i].Stack) {
				v.Assert(a[i].Stack[j] == b[i].Stack[j], label+": stack frame")
			}
		}
	}
}

func sameState(a, b state, label string) {
	v.Assert(a.source == b.source, label+": source")
	v.Assert(a.id == b.id, label+": id")
	v.Assert(a.category == b.category, label+": category")
	v.Assert(a.started.Equal(b.started), label+": start")
	v.Assert(a.finished == b.finished, label+": finished")
	v.Assert(a.errored == b.errored, label+": errored")
	v.Assert(a.dur == b.dur, label+": duration")
	sameEvents(a.events, b.events, label)
}

// HC03Seq: any calls before the finish, any calls after it, any clock; what the
// trace reports after the finish never changes.
//
// verif: prop=C03 quick.before=1 thorough.before=2 quick.after=2 thorough.after=3 reach=end
func HC03Seq() {
	tr := makeTrace(v.Choose("kind", 4))
	for i, n := 0, v.Choose("nbefore", v.Param("before", 1)+1); i < n; i++ {
		write(tr, v.Choose("method", 4), v.Str("text", 1, ""))
	}
	tr.Finish()
	s := look(tr)
	v.Assert(s.finished, "finished after Finish")
	for i, n := 0, v.Param("after", 2); i < n; i++ {
		switch m := v.Choose("late", 6); m {
		case 4:
			tr.Finish()
		case 5:
			trc.SetMaxEvents(tr, v.Int("max", 0, 20))
		default:
			write(tr, m, "late")
		}
		sameState(s, look(tr), "after finish")
	}
	v.Reach("end")
	v.Observe("events", len(s.events))
	v.Observe("errored", s.errored)
}

// HC03Full: the same for a trace that has reached its event limit.
//
// verif: prop=C03 reach=end
func HC03Full() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	trc.SetTraceMaxEvents(10)
	tr := makeTrace(v.Choose("kind", 4))
	n := v.Choose("n", 13)
	for i := 0; i < n; i++ {
		tr.LazyTracef("e%d", i)
	}
	tr.Finish()
	s := look(tr)
	write(tr, v.Choose("late", 4), "late")
	trc.SetMaxEvents(tr, v.Int("max", 0, 20))
	write(tr, v.Choose("late", 4), "late")
	t := look(tr)
	if n > 10 { // the marker carries the time it was read
		v.Assert(len(s.events) == len(t.events), "after finish: number of events")
		for i := range s.events {
			v.Assert(s.events[i].What == t.events[i].What, "after finish: event text")
		}
		s.events, t.events = nil, nil
	}
	sameState(s, t, "after finish")
	v.Reach("end")
	v.Observe("n", n)
}

// HC03Conc: a finish against writers in other goroutines. Whatever the
// interleaving, what the finisher sees right after Finish is final, and a
// writer's call took effect entirely or not at all.
//
// verif: prop=C03 quick.preempt=2 thorough.preempt=3 quick.writers=1 thorough.writers=2 reach=in,out
func HC03Conc() {
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 2))
	var s state
	writers := v.Param("writers", 1)
	for w := 0; w < writers; w++ {
		m := v.Choose("method", 4)
		v.Go("writer", func() { write(tr, m, "x"); write(tr, m, "y") })
	}
	v.Go("finisher", func() {
		tr.Finish()
		s = look(tr)
	})
	v.Wait()
	t := look(tr)
	sameState(s, t, "after finish")
	v.Assert(s.finished, "finished after Finish")
	errs := 0
	for _, ev := range t.events {
		if ev.IsError {
			errs++
		}
	}
	v.Assert(t.errored == (errs > 0), "an error call takes effect entirely or not at all")
	if len(t.events) == 0 {
		v.Reach("out")
	} else {
		v.Reach("in")
	}
	v.Observe("n", len(t.events))
}

// HC03Two: concurrent finishes agree on one duration.
//
// verif: prop=C03 quick.preempt=2 thorough.preempt=4 reach=end
func HC03Two() {
	trc.SetTraceStacks(false)
	tr := makeTrace(0)
	var d [2]time.Duration
	for i := 0; i < 2; i++ {
		i := i
		v.Go("finisher", func() {
			tr.Finish()
			d[i] = tr.Duration()
		})
	}
	v.Wait()
	v.Assert(d[0] == d[1], "the duration is fixed by the first finish")
	v.Assert(d[0] == tr.Duration(), "the duration stays fixed")
	v.Reach("end")
}

// HC03Search: a search and a stream snapshot taken after the finish report the
// same whatever is called in between.
//
// verif: prop=C03 reach=end
func HC03Search() {
	c := trc.NewCollector(trc.CollectorConfig{})
	ctx, tr := c.NewTrace(context.Background(), "cat")
	write(tr, v.Choose("method", 4), v.Str("text", 1, ""))
	tr.Finish()
	a := searchAll(c)
	write(trc.Get(ctx), v.Choose("late", 4), "late")
	tr.Finish()
	b := searchAll(c)
	v.Assert(len(a.Traces) == 1 && len(b.Traces) == 1, "one trace")
	sameState(look(a.Traces[0]), look(b.Traces[0]), "searched after finish")
	v.Reach("end")
	v.Observe("d", len(b.Traces[0].TraceEvents))
}

// HC03Stale: the owner keeps using its handle of a trace that was finished and
// has since been evicted and recycled.
//
// verif: prop=C03
func HC03Stale() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(1)
	_, tr := c.NewTrace(bg, "cat")
	tr.Tracef("mine")
	tr.Finish()
	s := look(tr)
	_, nt := c.NewTrace(bg, "cat")
	_, nt2 := c.NewTrace(bg, "cat") // takes over the recycled trace
	nt.Tracef("other")
	nt2.Tracef("another")
	v.Assert(tr.ID() == s.id, "a finished trace keeps its data after it was evicted and recycled")
}
