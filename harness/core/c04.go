package core

import (
	"fmt"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

type box struct{ s string }

func (b *box) String() string { return "<" + b.s + ">" }

// HC04Seq: any sequence of the four event calls with any text and number, on
// traces made in any of the ways; the events are exactly those calls.
//
// verif: prop=C04 quick.N=2 thorough.N=3 reach=end
func HC04Seq() {
	kind := v.Choose("kind", 4)
	tr := makeTrace(kind)
	n := v.Param("N", 2)
	var want []string
	var iserr []bool
	errored := false
	for i := 0; i < n; i++ {
		s, k := v.Str("text", 2, ""), v.Int("num", -5, 1<<40)
		var format string
		var args []any
		switch v.Choose("format", 8) {
		case 5:
			format, args = "100%% done", nil
		case 6:
			format, args = "%d and %%", nil // an argument is missing
		case 7:
			format, args = "%%", []any{s} // an argument too many
		case 0:
			format, args = "plain", nil
		case 1:
			format, args = "%s", []any{s}
		case 2:
			format, args = "k=%d s=%v", []any{k, s}
		case 3:
			format, args = "100%% %q", []any{"x"}
		case 4:
			format, args = "%s%d%d", []any{s, 1, k}
		}
		m := v.Choose("method", 4)
		text := fmt.Sprintf(format, args...)
		if kind == 3 {
			text = "pre " + text
		}
		want = append(want, text)
		iserr = append(iserr, m >= 2)
		errored = errored || m >= 2
		switch m {
		case 0:
			tr.Tracef(format, args...)
		case 1:
			tr.LazyTracef(format, args...)
		case 2:
			tr.Errorf(format, args...)
		case 3:
			tr.LazyErrorf(format, args...)
		}
		v.Assert(tr.Errored() == errored, "errored exactly when an error event was added")
	}
	evs := tr.Events()
	again := tr.Events()
	v.Assert(len(evs) == n && len(again) == n, "one event per call")
	prev := tr.Started()
	for i := range evs {
		v.Assert(evs[i].What == want[i], "event text, in order")
		v.Assert(evs[i].IsError == iserr[i], "event error flag")
		v.Assert(!evs[i].When.Before(prev), "event times do not decrease")
		prev = evs[i].When
	}
	sameEvents(evs, again, "reading again")
	v.Reach("end")
	v.Observe("last", evs[n-1].What)
}

// HC04Lazy: eager events capture their arguments at the call, lazy ones when
// first read, and keep that text.
//
// verif: prop=C04 reach=end
func HC04Lazy() {
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 4))
	b := &box{v.Str("a", 1, "")}
	m := v.Choose("method", 4)
	nargs := v.Choose("args", 4)
	format, args := []string{"%v", "%v %d", "%v %d %d", "%v%v%v%v"}[nargs], []any{b, 1, 2, 3}[:nargs+1]
	switch m {
	case 0:
		tr.Tracef(format, args...)
	case 1:
		tr.LazyTracef(format, args...)
	case 2:
		tr.Errorf(format, args...)
	case 3:
		tr.LazyErrorf(format, args...)
	}
	first := fmt.Sprintf(format, args...)
	b.s = v.Str("b", 1, "")
	second := fmt.Sprintf(format, args...)
	if m == 1 || m == 3 {
		first = second
	}
	get := func() string {
		w := tr.Events()[0].What
		if len(w) > 4 && w[:4] == "pre " {
			w = w[4:]
		}
		return w
	}
	v.Assert(get() == first, "arguments are captured when they should be")
	b.s = v.Str("c", 1, "")
	v.Assert(get() == first, "the text stays the same ever after")
	tr.Tracef("more")
	tr.Finish()
	v.Assert(get() == first, "the text stays the same ever after")
	v.Reach("end")
	v.Observe("text", first)
}

// HC04Format: any format and number of arguments, valid or not: the text is
// what formatting gives.
//
// verif: prop=C04 quick.L=3 thorough.L=4 preempt=0 reach=end
func HC04Format() {
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 3))
	format := v.Str("format", v.Param("L", 3), "%ds +")
	args := []any{v.Str("a", 1, ""), v.Int("b", -5, 1<<40)}[:v.Choose("args", 3)]
	m := v.Choose("method", 4)
	write(tr, 0, "before")
	switch m {
	case 0:
		tr.Tracef(format, args...)
	case 1:
		tr.LazyTracef(format, args...)
	case 2:
		tr.Errorf(format, args...)
	case 3:
		tr.LazyErrorf(format, args...)
	}
	evs := tr.Events()
	v.Assert(len(evs) == 2, "one event per call")
	v.Assert(evs[1].What == fmt.Sprintf(format, args...), "event text")
	v.Assert(evs[1].IsError == (m >= 2) && tr.Errored() == (m >= 2), "event error flag")
	v.Reach("end")
	v.Observe("text", evs[1].What)
}

// HC04Conc: concurrent writers; every event is there once, each writer's events
// in its order.
//
// verif: prop=C04 quick.preempt=2 thorough.preempt=3 quick.each=2 thorough.each=3 reach=mixed
func HC04Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 2))
	each := v.Param("each", 2)
	m0, m1 := v.Choose("m0", 4), v.Choose("m1", 4)
	v.Go("w0", func() {
		for i := 0; i < each; i++ {
			write(tr, m0, fmt.Sprintf("0.%d", i))
		}
	})
	v.Go("w1", func() {
		for i := 0; i < each; i++ {
			write(tr, m1, fmt.Sprintf("1.%d", i))
		}
	})
	v.Wait()
	evs := tr.Events()
	v.Assert(len(evs) == 2*each, "no event is lost or duplicated")
	next := [2]int{}
	for i, ev := range evs {
		w := 0
		if ev.What[0] == '1' {
			w = 1
		}
		v.Assert(ev.What == fmt.Sprintf("%d.%d", w, next[w]), "each writer's events are in its order")
		next[w]++
		v.Assert(ev.IsError == ([2]int{m0, m1}[w] >= 2), "event error flag")
		if i == 1 && w == 1 && next[0] == 1 {
			v.Reach("mixed")
		}
	}
	v.Assert(tr.Errored() == (m0 >= 2 || m1 >= 2), "errored exactly when an error event was added")
	v.Observe("n", len(evs))
}

// HC04Readers: concurrent readers of a lazy event agree on its text.
//
// verif: prop=C04 quick.preempt=2 thorough.preempt=4 reach=end
func HC04Readers() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{})
	_, tr := c.NewTrace(bg, "cat")
	tr.LazyTracef("%s", v.Str("text", 1, ""))
	var got [2]string
	v.Go("reader", func() { got[0] = tr.Events()[0].What })
	v.Go("searcher", func() {
		res := searchAll(c)
		if len(res.Traces) == 1 && len(res.Traces[0].TraceEvents) > 0 {
			got[1] = res.Traces[0].TraceEvents[0].What
		}
	})
	v.Go("writer", func() { tr.Tracef("more") })
	v.Wait()
	v.Assert(got[0] == got[1], "readers agree")
	v.Assert(got[0] == tr.Events()[0].What, "readers agree")
	v.Reach("end")
}
