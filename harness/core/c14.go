package core

import (
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// checkStream compares the streamed form with the trace.
func checkStream(st *trc.StaticTrace, s state) {
	v.Assert(st.TraceSource == s.source, "source")
	v.Assert(st.TraceID == s.id, "id")
	v.Assert(st.TraceCategory == s.category, "category")
	v.Assert(st.TraceStarted.Equal(s.started), "start")
	v.Assert(st.TraceFinished == s.finished, "finished")
	v.Assert(st.TraceErrored == s.errored, "errored")
	if v.Is(s.finished) {
		v.Assert(st.TraceDuration == s.dur, "duration")
		v.Assert(len(st.TraceEvents) == len(s.events), "a finished trace has all its events")
		for i := range st.TraceEvents {
			if i < len(s.events) {
				sameWithoutStack(st.TraceEvents[i], s.events[i])
			}
		}
		v.Reach("finished")
		return
	}
	v.Reach("active")
	if len(s.events) == 0 {
		v.Assert(len(st.TraceEvents) == 0, "an active trace without events has none")
		return
	}
	v.Assert(len(st.TraceEvents) == 1, "an active trace has only its latest event")
	if len(st.TraceEvents) == 1 {
		sameWithoutStack(st.TraceEvents[0], s.events[len(s.events)-1])
	}
}

func sameWithoutStack(got, want trc.Event) {
	v.Assert(got.What == want.What, "event text")
	v.Assert(got.When.Equal(want.When), "event time")
	v.Assert(got.IsError == want.IsError, "event error flag")
	v.Assert(len(got.Stack) == 0, "no stacks")
}

// HC14Fake: user-supplied and static traces in any state, with any events;
// their own data is not changed.
//
// verif: prop=C14 quick.N=2 thorough.N=3 reach=finished,active
func HC14Fake() {
	t := &ft{id: v.Str("id", 1, ""), source: v.Str("source", 1, ""), category: v.Str("category", 1, ""), started: at(0),
		dur: time.Duration(v.Int64("dur", 0, 1000)), finished: v.Bool("finished"), errored: v.Bool("errored")}
	for i, n := 0, v.Choose("n", v.Param("N", 2)+1); i < n; i++ {
		ev := trc.Event{When: at(v.Int64("when", 0, 1<<40)), What: v.Str("what", 1, ""), IsError: v.Bool("iserr")}
		if v.Bool("stack") {
			ev.Stack = []trc.Frame{{Function: v.Str("fn", 1, ""), FileLine: "f:1"}}
		}
		t.events = append(t.events, ev)
	}
	var tr trc.Trace = t
	if v.Bool("static") {
		tr = &trc.StaticTrace{TraceSource: t.source, TraceID: t.id, TraceCategory: t.category, TraceStarted: t.started, TraceDuration: t.dur,
			TraceFinished: t.finished, TraceErrored: t.errored, TraceEvents: t.events}
	}
	s := look(tr)
	st := trc.NewStreamTrace(tr)
	checkStream(st, s)
	v.Assert(st.TraceDuration == s.dur, "duration")
	v.Assert(st.TraceDurationStr == s.dur.String(), "duration text")
	v.Assert(st.TraceDurationSec == s.dur.Seconds(), "duration in seconds")
	sameState(s, look(tr), "the trace is not changed")
	// the streamed form is independent of the trace's own data
	for i := range t.events {
		t.events[i].What = "changed"
	}
	checkStream(st, s)
	v.Observe("n", len(st.TraceEvents))
}

// HC14Core: traces of the package, however made, after any calls, also beyond
// the event limit.
//
// verif: prop=C14 quick.N=2 thorough.N=3 reach=finished,active,over
func HC14Core() {
	v.FrozenClock()
	trc.SetTraceMaxEvents(10)
	trc.SetTraceStacks(v.Bool("stacks"))
	tr := makeTrace(v.Choose("kind", 4))
	n := v.Choose("n", v.Param("N", 2)+1)
	for i := 0; i < n; i++ {
		write(tr, v.Choose("method", 4), v.Str("what", 1, ""))
	}
	if n > 0 && v.Bool("over") {
		for i := 0; i < 10; i++ {
			tr.Tracef("more")
		}
		v.Reach("over")
		n += 10
	}
	if v.Bool("finish") {
		tr.Finish()
	}
	s := look(tr)
	st := trc.NewStreamTrace(tr)
	if n > 10 { // the last event is the marker, which is stamped when read
		last := len(s.events) - 1
		v.Assert(len(st.TraceEvents) > 0, "a trace with events has some")
		s.events[last].When = st.TraceEvents[len(st.TraceEvents)-1].When
	}
	checkStream(st, s)
	t := look(tr)
	if !s.finished {
		v.Assert(st.TraceDuration >= s.dur && st.TraceDuration <= t.dur, "the duration so far")
		s.dur = t.dur
	}
	if n > 10 {
		s.events, t.events = s.events[:9], t.events[:9]
	}
	sameState(s, t, "the trace is not changed")
	v.Observe("n", len(st.TraceEvents))
}

// HC14Conc: a trace is written and finished while it is streamed from another
// goroutine: the streamed form is that of an active or of a finished trace.
//
// verif: prop=C14 quick.preempt=2 thorough.preempt=4 reach=finished,active
func HC14Conc() {
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 2))
	tr.Tracef("one")
	var st *trc.StaticTrace
	v.Go("streamer", func() { st = trc.NewStreamTrace(tr) })
	v.Go("owner", func() {
		write(tr, v.Choose("method", 4), "two")
		tr.Finish()
	})
	v.Wait()
	s := look(tr)
	evs := st.TraceEvents
	v.Assert(st.TraceDurationSec == st.TraceDuration.Seconds(), "one duration")
	v.Assert(st.TraceDurationStr == st.TraceDuration.String(), "one duration")
	if st.TraceFinished {
		v.Reach("finished")
		v.Assert(len(evs) == 2 && evs[0].What == "one" && evs[1].What == "two", "a finished trace has all its events")
		v.Assert(st.TraceDuration == s.dur, "a finished trace has its final duration")
		v.Assert(st.TraceErrored == s.errored, "a finished trace has its final state")
	} else {
		v.Reach("active")
		v.Assert(len(evs) == 1 && (evs[0].What == "one" || evs[0].What == "two"), "an active trace has only its latest event")
		v.Assert(st.TraceDuration <= s.dur, "the duration so far")
		v.Assert(v.Implies(evs[0].IsError, st.TraceErrored), "an error event marks the trace")
	}
	v.Observe("n", len(evs))
}
