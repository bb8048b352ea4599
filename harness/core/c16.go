package core

import (
	"context"
	"fmt"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// emit performs one of the four calls with a format and arguments.
func emit(tr trc.Trace, method int, format string, args ...any) {
	switch method {
	case 0:
		tr.Tracef(format, args...)
	case 1:
		tr.LazyTracef(format, args...)
	case 2:
		tr.Errorf(format, args...)
	case 3:
		tr.LazyErrorf(format, args...)
	}
}

// view is a context with the text its events are prefixed with.
type view struct {
	ctx  context.Context
	text string
}

// HC16Views: a tree of prefixed views of one trace, with any prefixes and
// arguments (in slices with spare room), used in any order; every event has its
// own prefixes and arguments, and stays so.
//
// verif: prop=C16 quick.V=2 thorough.V=3 quick.E=2 thorough.E=3 preempt=0 reach=nested,blank,same
func HC16Views() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(bg, "src", "cat")
	views := []view{{ctx, ""}}
	room := make([]any, 2, 8) // an argument slice of the caller, with room to spare
	room[0], room[1] = v.Str("r0", 1, ""), v.Int("r1", 0, 9)
	r0, r1 := room[0], room[1]
	for i := 0; i < v.Param("V", 2); i++ {
		p := views[v.Choose("parent", len(views))]
		if p.text != "" {
			v.Reach("nested")
		}
		var n view
		var nt trc.Trace
		switch v.Choose("prefix", 5) {
		case 0:
			n.ctx, nt = trc.Prefix(p.ctx, "pre")
			n.text = p.text + "pre "
		case 1:
			s := v.Str("arg", 1, "")
			n.ctx, nt = trc.Prefix(p.ctx, "<%s>", s)
			n.text = p.text + "<" + s + "> "
		case 2:
			n.ctx, nt = trc.Prefix(p.ctx, " %v-%v ", room...)
			n.text = p.text + fmt.Sprintf("%v-%v ", r0, r1)
		case 3:
			n.ctx, nt = trc.Prefix(p.ctx, []string{"", "  "}[i%2])
			n.text = p.text
			v.Reach("blank")
			v.Assert(nt == trc.Get(p.ctx) && n.ctx == p.ctx, "a blank prefix changes nothing")
		case 4:
			n.ctx, nt = trc.Prefix(p.ctx, "%v", room[:1]...)
			n.text = p.text + fmt.Sprintf("%v ", r0)
			v.Reach("same")
		}
		v.Assert(trc.Get(n.ctx) == nt, "the context has the prefixed trace")
		v.Assert(nt.ID() == tr.ID() && nt.Category() == "cat", "a prefixed trace is the same trace")
		views = append(views, n)
	}
	var want []string
	var errs []bool
	for i := 0; i < v.Param("E", 2); i++ {
		w := views[v.Choose("view", len(views))]
		m := v.Choose("method", 4)
		s := v.Str("text", 1, "")
		switch v.Choose("format", 3) {
		case 0:
			emit(trc.Get(w.ctx), m, "plain")
			want = append(want, w.text+"plain")
		case 1:
			emit(trc.Get(w.ctx), m, "%s=%d", s, i)
			want = append(want, w.text+s+"="+string(rune('0'+i)))
		case 2:
			args := make([]any, 1, 4)
			args[0] = s
			emit(trc.Get(w.ctx), m, "[%s]", args...)
			want = append(want, w.text+"["+s+"]")
			v.Assert(args[0] == any(s) && args[:2][1] == nil, "the caller's arguments are not changed")
		}
		errs = append(errs, m >= 2)
		v.Assert(room[0] == r0 && room[1] == r1, "the caller's arguments are not changed")
		for _, x := range room[2:cap(room)] {
			v.Assert(x == nil, "the caller's arguments are not changed")
		}
	}
	evs := tr.Events()
	v.Assert(len(evs) == len(want), "one event per call")
	for i := range evs {
		if i < len(want) {
			v.Assert(evs[i].What == want[i], "prefixes, then the event's text")
			v.Assert(evs[i].IsError == errs[i], "the event's own kind")
		}
	}
	v.Observe("n", len(evs))
	if len(want) > 0 {
		v.Observe("last", want[len(want)-1])
	}
}

// HC16Lazy: the arguments of lazy events through a prefix, and of the prefix
// itself, are formatted when first read.
//
// verif: prop=C16 preempt=0 reach=end
func HC16Lazy() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(bg, "src", "cat")
	p, a := &box{v.Str("p", 1, "")}, &box{v.Str("a", 1, "")}
	_, pt := trc.Prefix(ctx, "%v", p)
	m := v.Choose("method", 4)
	emit(pt, m, "%v", a)
	eager := p.String() + " " + a.String()
	p.s, a.s = v.Str("p2", 1, ""), v.Str("a2", 1, "")
	lazy := p.String() + " " + a.String()
	got := tr.Events()[0].What
	if m == 0 || m == 2 {
		v.Assert(got == eager, "eager events are formatted at the call")
	} else {
		v.Assert(got == lazy, "lazy events are formatted when first read")
	}
	v.Reach("end")
	v.Observe("text", got)
}

// HC16Region: regions with any name, nested, with events inside.
//
// verif: prop=C16 preempt=0 quick.name=2 thorough.name=3 reach=nested,single
func HC16Region() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(bg, "src", "cat")
	name := v.Str("name", v.Choose("len", v.Param("name", 2)+1), "a%d ")
	s := v.Str("text", 1, "")
	ctx1, tr1, finish := trc.Region(ctx, name)
	v.Assert(trc.Get(ctx1) == tr1, "the context has the region's trace")
	v.Assert(tr1.ID() == tr.ID(), "a region's trace is the same trace")
	emit(tr1, v.Choose("method", 4), "%s", s)
	want := []string{"→ " + name, "· " + s}
	inner := -1
	if v.Bool("nested") {
		v.Reach("nested")
		_, tr2, finish2 := trc.Region(ctx1, "in")
		tr2.Tracef("deep")
		finish2()
		want = append(want, "· → in", "· · deep", "· ← in [")
		inner = len(want) - 1
	} else {
		v.Reach("single")
	}
	tr1.LazyTracef("last")
	finish()
	tr.Tracef("outside")
	want = append(want, "· last", "← "+name+" [", "outside")
	leave := len(want) - 2
	evs := tr.Events()
	v.Assert(len(evs) == len(want), "one event entering and one leaving")
	for i := range evs {
		if i >= len(want) {
			break
		}
		w, g := want[i], evs[i].What
		if i == leave || i == inner { // then the time taken
			v.Assert(len(g) > len(w)+1 && g[:len(w)] == w && g[len(g)-1] == ']', "the leaving event")
			continue
		}
		v.Assert(g == w, "entering, nested events, leaving")
	}
	v.Observe("n", len(evs))
}

// HC16Same: a prefixed trace is otherwise the trace itself: state, finish and
// kind of events are those of any user-supplied or core trace.
//
// verif: prop=C16 preempt=0 quick.N=2 thorough.N=3 reach=end
func HC16Same() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var tr trc.Trace
	ctx := bg
	if v.Bool("core") {
		ctx, tr = trc.New(bg, "src", "cat")
	} else {
		t := &ft{id: "A", source: "src", category: "cat", started: at(v.Int64("start", 0, 1<<40)), dur: time.Duration(v.Int64("dur", 0, 2000)), finished: v.Bool("finished"), errored: v.Bool("errored"), events: []trc.Event{{What: v.Str("what", 1, "")}}}
		ctx, tr = trc.Put(bg, t)
	}
	region := v.Bool("region")
	var pt trc.Trace
	var leave func()
	if region {
		_, pt, leave = trc.Region(ctx, "r")
	} else {
		_, pt = trc.Prefix(ctx, "p")
	}
	same := func(label string) {
		a, b := look(tr), look(pt)
		if v.Is(!a.finished) {
			v.Assert(a.dur <= b.dur, label+": duration so far")
			b.dur = a.dur
		}
		sameState(a, b, label)
	}
	finished := false
	for i, n := 0, v.Param("N", 2); i < n; i++ {
		switch m := v.Choose("op", 5); m {
		case 4:
			pt.Finish()
			finished = true
		default:
			emit(pt, m, "%d", i)
		}
		same("as without the prefix")
	}
	v.Assert(!finished || tr.Finished(), "finishing the prefixed trace finishes the trace")
	if region {
		leave()
		same("as without the region")
		v.Assert(!v.Is(tr.Finished()) || finished || tr.ID() == "A", "leaving a region does not finish the trace")
	}
	v.Reach("end")
	v.Observe("n", len(tr.Events()))
}
