package core

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// lines is a writer that keeps what each call wrote.
type lines struct {
	got  []string
	fail bool
}

func (l *lines) Write(p []byte) (int, error) {
	l.got = append(l.got, string(p))
	if l.fail {
		return 0, errors.New("no room")
	}
	return len(p), nil
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// oneLine checks that s is one line, starting with the ID, and returns the rest.
func oneLine(s, id string) string {
	v.Assert(hasPrefix(s, id+" "), "a line starts with the trace ID")
	v.Assert(hasSuffix(s, "\n"), "a line ends with a newline")
	v.Assert(!contains(s[:len(s)-1], "\n"), "one line, with one trailing newline")
	return s[len(id)+1 : len(s)-1]
}

// HC17Lines: any calls on a user-supplied or core trace with the decorator.
//
// verif: prop=C17 quick.N=2 thorough.N=3 preempt=0 reach=error,normal,finish
func HC17Lines() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	w := &lines{fail: v.Bool("fail")}
	var d trc.DecoratorFunc
	if v.Bool("logger") {
		d = trc.LoggerDecorator(log.New(w, "", 0))
	} else {
		d = trc.LogDecorator(w)
	}
	var tr trc.Trace
	var t *ft
	switch v.Choose("kind", 3) {
	case 0:
		t = &ft{id: v.Str("id", 2, "A%d"), source: "src", category: "cat", started: at(0)}
		tr = d(t)
	case 1:
		_, tr = trc.New(bg, "src", "cat", d)
	case 2:
		_, tr = trc.NewCollector(trc.CollectorConfig{Source: "src", Decorators: []trc.DecoratorFunc{d}}).NewTrace(bg, "cat")
	}
	id := tr.ID()
	v.Assert(len(w.got) == 1, "one line when created")
	rest := oneLine(w.got[0], id)
	v.Assert(contains(rest, "src") && contains(rest, "cat"), "the first line has source and category")
	n := v.Param("N", 2)
	errored := false
	var calls []string
	for i := 0; i < n; i++ {
		s := v.Str("text", 1, "a%b ")
		m := v.Choose("method", 4)
		var text string
		switch v.Choose("format", 4) {
		case 0:
			emit(tr, m, "%s", s)
			text = s
		case 1:
			emit(tr, m, "plain\n")
			text = "plain"
		case 2:
			emit(tr, m, "%d:%s 100%%\n", i, s)
			text = string(rune('0'+i)) + ":" + s + " 100%"
		case 3:
			emit(tr, m, "")
		}
		errored = errored || m >= 2
		v.Assert(len(w.got) == 2+i, "one line per event")
		rest := oneLine(w.got[len(w.got)-1], id)
		if m >= 2 {
			v.Reach("error")
			v.Assert(hasPrefix(rest, "ERROR") && hasSuffix(rest, " "+text), "an error event is marked, with its text")
		} else {
			v.Reach("normal")
			v.Assert(rest == text, "the line has the event's text")
		}
		calls = append(calls, []string{"T", "LT", "E", "LE"}[m])
	}
	tr.Finish()
	v.Reach("finish")
	v.Assert(len(w.got) == 2+n, "one line when finished")
	rest = oneLine(w.got[len(w.got)-1], id)
	if t != nil {
		errored = t.errored
		v.Assert(len(t.calls) == n+1 && t.calls[n] == "F", "every call is passed on")
		for i, c := range calls {
			v.Assert(hasPrefix(t.calls[i], c+" "), "every call is passed on, as it is")
		}
	} else {
		v.Assert(tr.Errored() == errored && tr.Finished() && len(tr.Events()) == n, "the trace behaves as without the decorator")
	}
	v.Assert(contains(rest, "errored") == errored && contains(rest, "success") == !errored, "the last line gives the outcome")
	v.Observe("n", len(w.got))
	v.Observe("first", w.got[1][len(id):])
}

// HC17Format: any format and arguments, matching or not: the line has the text
// that the event has in the trace.
//
// verif: prop=C17 quick.L=2 thorough.L=3 preempt=0 reach=newline,bad
func HC17Format() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	w := &lines{}
	_, tr := trc.New(bg, "src", "cat", trc.LogDecorator(w))
	id := tr.ID()
	format := v.Str("format", v.Param("L", 2), "%d \n")
	args := []any{v.Str("a", 1, "x%\n"), v.Int("b", -5, 1<<40)}[:v.Choose("args", 3)]
	m := v.Choose("method", 4)
	emit(tr, m, format, args...)
	text := tr.Events()[0].What
	if hasSuffix(text, "\n") {
		text = text[:len(text)-1]
		v.Reach("newline")
	}
	v.Assume(!contains(text, "\n"))
	if contains(text, "%!") {
		v.Reach("bad")
	}
	v.Assert(len(w.got) == 2, "one line per event")
	rest := oneLine(w.got[1], id)
	if m >= 2 {
		v.Assert(hasPrefix(rest, "ERROR") && hasSuffix(rest, " "+text), "an error event is marked, with its text")
	} else {
		v.Assert(rest == text, "the line has the event's text")
	}
	v.Observe("line", w.got[1][len(id):])
}

// HC17Same: the decorated trace next to an undecorated one, under the same
// calls and any clock.
//
// verif: prop=C17 quick.N=2 thorough.N=3 preempt=0 reach=end
func HC17Same() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	t := &ft{id: "A", source: "src", category: "cat", started: at(v.Int64("start", 0, 1<<40)), dur: time.Duration(v.Int64("dur", 0, 2000)),
		finished: v.Bool("finished"), errored: v.Bool("errored"), events: []trc.Event{{What: v.Str("what", 1, "")}}}
	u := *t
	var plain trc.Trace = &u
	tr := trc.LogDecorator(io.Discard)(t)
	for i, n := 0, v.Param("N", 2); i < n; i++ {
		switch m := v.Choose("op", 6); m {
		case 4:
			tr.Finish()
			plain.Finish()
		case 5:
			tr.(interface{ Free() }).Free()
			u.Free()
		default:
			s := v.Str("text", 1, "")
			emit(tr, m, "%s-%d", s, i)
			emit(plain, m, "%s-%d", s, i)
		}
	}
	sameState(look(plain), look(tr), "as without the decorator")
	v.Assert(len(t.calls) == len(u.calls) && t.freed == u.freed, "every call is passed on once")
	for i := range t.calls {
		if i < len(u.calls) {
			v.Assert(t.calls[i] == u.calls[i], "every call is passed on unchanged")
		}
	}
	v.Reach("end")
	v.Observe("n", len(t.calls))
}

// HC17Reuse: the first line comes once, also when the context already had a trace.
//
// verif: prop=C17 preempt=0 reach=end
func HC17Reuse() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	w := &lines{}
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetDecorators(trc.LogDecorator(w))
	ctx, tr := c.NewTrace(context.Background(), "cat")
	cat := v.Str("cat", 1, "xy")
	_, again := c.NewTrace(ctx, cat)
	v.Assert(again == tr, "the trace is reused")
	v.Assert(len(w.got) == 2, "the note of the reuse is an event")
	v.Assert(oneLine(w.got[1], tr.ID()) == fmt.Sprintf("(+ %s)", cat), "the line has the event's text")
	tr.Finish()
	v.Assert(len(w.got) == 3, "one line when finished")
	v.Reach("end")
	v.Observe("n", len(w.got))
}

// HC17Conc: events from two goroutines: one line for each, none mixed.
//
// verif: prop=C17 quick.preempt=2 thorough.preempt=3 reach=end
func HC17Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var a, b lines // a writer each: the destination is the caller's to protect
	_, tr := trc.New(bg, "src", "cat")
	id := tr.ID()
	ta, tb := trc.LogDecorator(&a)(tr), trc.LogDecorator(&b)(tr)
	ma, mb := v.Choose("ma", 4), v.Choose("mb", 4)
	v.Go("a", func() { emit(ta, ma, "%s", "one"); emit(ta, ma, "%s", "two") })
	v.Go("b", func() { emit(tb, mb, "%s", "three"); tb.Finish() })
	v.Wait()
	v.Assert(len(a.got) == 3 && len(b.got) == 3, "one line per event and finish")
	for _, l := range append(a.got, b.got...) {
		oneLine(l, id)
	}
	v.Assert(hasSuffix(a.got[1], "one\n") && hasSuffix(a.got[2], "two\n") && hasSuffix(b.got[1], "three\n"), "the lines of a goroutine are its own")
	v.Assert(contains(b.got[2], "errored") == tr.Errored() && contains(b.got[2], "success") == !tr.Errored(), "the last line gives the outcome")
	v.Reach("end")
	v.Observe("n", len(tr.Events()) > 0)
}

// HC17First: whatever the source and the category are, the first line gives
// both as they are.
//
// verif: prop=C17 quick.L=2 thorough.L=3 preempt=0 reach=end
func HC17First() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	w := &lines{}
	source := v.Str("source", v.Choose("slen", v.Param("L", 2)+1), "a%sd'")
	category := v.Str("category", v.Choose("clen", v.Param("L", 2)+1), "b%vd'")
	var tr trc.Trace
	if v.Bool("collector") {
		c := trc.NewCollector(trc.CollectorConfig{Source: source, Decorators: []trc.DecoratorFunc{trc.LogDecorator(w)}})
		_, tr = c.NewTrace(bg, category)
		if source == "" {
			source = tr.Source() // a collector's default
		}
	} else {
		_, tr = trc.New(bg, source, category, trc.LogDecorator(w))
	}
	v.Assert(len(w.got) == 1, "one line when created")
	rest := oneLine(w.got[0], tr.ID())
	v.Assert(contains(rest, source) && contains(rest, category), "the first line has source and category")
	v.Assert(tr.Source() == source && tr.Category() == category, "the trace has source and category")
	v.Reach("end")
	v.Observe("line", w.got[0][len(tr.ID()):])
}
