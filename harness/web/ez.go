package web

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"runtime"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	v "github.com/peterbourgon/trc/internal/verif"
)

type box struct{ s string }

func (b *box) String() string { return "<" + b.s + ">" }

// HC04Easy: any sequence of the event helpers of package eztrc, on a context
// with a trace of the global collector or one of the caller's: the events are
// exactly those calls, each of its kind and with its arguments captured when
// they should be.
//
// verif: prop=C04 quick.N=2 thorough.N=3 preempt=0 reach=own,global
func HC04Easy() {
	trc.SetTraceStacks(false)
	var ctx context.Context
	var tr trc.Trace
	if v.Choose("own", 2) == 1 {
		ctx, tr = trc.New(bg, "src", "cat")
		v.Reach("own")
	} else {
		ctx, tr = eztrc.New(bg, "cat")
		v.Reach("global")
	}
	pre := ""
	if v.Choose("prefix", 2) == 1 {
		ctx, _ = eztrc.Prefix(ctx, "p%d", 1)
		pre = "p1 "
	}
	n := v.Param("N", 2)
	b := &box{"0"}
	var want []string
	var iserr []bool
	for i := 0; i < n; i++ {
		s, k := v.Str("text", 1, ""), v.Int("num", -5, 1<<40)
		lazy := false
		switch v.Choose("method", 4) {
		case 0:
			eztrc.Tracef(ctx, "%s %d %v", s, k, b)
			iserr = append(iserr, false)
		case 1:
			eztrc.LazyTracef(ctx, "%s %d %v", s, k, b)
			iserr = append(iserr, false)
			lazy = true
		case 2:
			eztrc.Errorf(ctx, "%s %d %v", s, k, b)
			iserr = append(iserr, true)
		case 3:
			eztrc.LazyErrorf(ctx, "%s %d %v", s, k, b)
			iserr = append(iserr, true)
			lazy = true
		}
		t := fmt.Sprintf("%s%s %d <%d>", pre, s, k, i)
		if lazy {
			t = fmt.Sprintf("%s%s %d <%d>", pre, s, k, n)
		}
		want = append(want, t)
		b.s = fmt.Sprint(i + 1)
	}
	evs := tr.Events()
	v.Assert(len(evs) == n, "one event per call")
	errored := false
	for i := range evs {
		v.Assert(evs[i].What == want[i], "event text, in order")
		v.Assert(evs[i].IsError == iserr[i], "event error flag")
		errored = errored || iserr[i]
	}
	v.Assert(tr.Errored() == errored, "errored exactly when an error event was added")
	// without a trace in the context, the helpers are usable too
	eztrc.Tracef(bg, "x")
	eztrc.LazyErrorf(bg, "x")
	v.Observe("last", evs[n-1].What)
}

// HC15Easy: the helpers of package eztrc: new traces are in the global
// collector and in the context that is returned, with the category asked for;
// a context that has a trace keeps it, and getting agrees with package trc.
//
// verif: prop=C15 preempt=0 reach=reused,created,middleware
func HC15Easy() {
	trc.SetTraceStacks(false)
	c := eztrc.Collector()
	cat := v.Str("cat", 1, "")
	count := func() (int, *trc.SearchResponse) {
		res, err := c.Search(bg, &trc.SearchRequest{Limit: 250})
		v.Assert(err == nil, "search")
		return res.TotalCount, res
	}
	before, _ := count()
	var ctx context.Context
	var tr trc.Trace
	if v.Choose("middleware", 2) == 1 {
		var got trc.Trace
		h := eztrc.Middleware(func(*http.Request) string { return cat })(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			ctx = r.Context()
			got = eztrc.Get(ctx)
		}))
		r, _ := http.NewRequest("GET", "http://h/p", nil)
		h.ServeHTTP(&nullWriter{}, r)
		tr = got
		v.Reach("middleware")
	} else {
		ctx, tr = eztrc.New(bg, cat)
		v.Reach("created")
	}
	after, res := count()
	v.Assert(after == before+1, "the new trace is in the collector")
	v.Assert(res.Traces[0].TraceID == tr.ID() && res.Traces[0].TraceCategory == cat && tr.Category() == cat, "the new trace has its category")
	v.Assert(tr.Source() == "default", "the new trace has the collector's source")
	got, ok := eztrc.MaybeGet(ctx)
	v.Assert(ok && got == tr && eztrc.Get(ctx) == tr && trc.Get(ctx) == tr, "the context has the new trace")
	_, ok = eztrc.MaybeGet(bg)
	v.Assert(!ok, "the parent context has no trace")
	if v.Choose("again", 2) == 1 {
		n := len(tr.Events())
		ctx2, tr2 := eztrc.New(ctx, "other")
		v.Assert(tr2 == tr && eztrc.Get(ctx2) == tr, "a trace in the context is reused")
		if !tr.Finished() {
			v.Assert(len(tr.Events()) == n+1, "and noted")
		}
		if k, _ := count(); k != after {
			v.Fail("reusing adds no trace")
		}
		v.Reach("reused")
	}
	// regions and prefixes are those of package trc
	n := len(tr.Events())
	if !tr.Finished() {
		rctx, rtr, finish := eztrc.Region(ctx, "r")
		rtr.Tracef("in")
		v.Assert(eztrc.Get(rctx) == rtr && eztrc.Get(ctx) == tr, "a region is in the derived context only")
		finish()
		evs := tr.Events()
		v.Assert(len(evs) == n+3 && evs[n].What == "→ r" && evs[n+1].What == "· in", "a region")
	}
	v.Observe("cat", cat)
}

type nullWriter struct{ h http.Header }

func (w *nullWriter) Header() http.Header {
	if w.h == nil {
		w.h = http.Header{}
	}
	return w.h
}
func (w *nullWriter) Write(p []byte) (int, error) { return len(p), nil }
func (w *nullWriter) WriteHeader(int)             {}

//go:noinline
func site(f func()) { f() }

// HC28Site: an event added in any of the ways, directly or through decorators,
// prefixes, regions and the helpers, at any depth of calls: its stack starts
// with the function and line that made the call, followed by its callers,
// without functions of the package.
//
// verif: prop=C28 quick.depth=3 thorough.depth=9 preempt=0 reach=direct,decorated,helper,region,deep
func HC28Site() {
	ctx, tr := trc.New(bg, "src", "cat")
	wrap := v.Choose("wrap", 6)
	switch wrap {
	case 0:
		v.Reach("direct")
	case 1:
		ctx, tr = trc.NewDefaultCollector().NewTrace(bg, "cat")
	case 2:
		c := trc.NewDefaultCollector().SetDecorators(trc.LogDecorator(io.Discard))
		ctx, tr = c.NewTrace(bg, "cat")
		v.Reach("decorated")
	case 3:
		ctx, _ = trc.Prefix(ctx, "pre")
	case 4:
		ctx, _, _ = trc.Region(ctx, "reg")
	case 5:
		ctx, _ = trc.Prefix(ctx, "a")
		ctx, _ = trc.Prefix(ctx, "b")
	}
	n0 := len(tr.Events())
	max := v.Param("depth", 3)
	depth := v.Choose("depth", max)
	how := v.Choose("how", 12)
	var line int
	call := func() {
		x := trc.Get(ctx)
		switch how {
		case 0:
			_, _, line, _ = runtime.Caller(0)
			x.Tracef("e %d", 1)
		case 1:
			_, _, line, _ = runtime.Caller(0)
			x.LazyTracef("e")
		case 2:
			_, _, line, _ = runtime.Caller(0)
			x.Errorf("e")
		case 3:
			_, _, line, _ = runtime.Caller(0)
			x.LazyErrorf("e")
		case 4:
			_, _, line, _ = runtime.Caller(0)
			eztrc.Tracef(ctx, "e")
		case 5:
			_, _, line, _ = runtime.Caller(0)
			eztrc.LazyTracef(ctx, "e")
		case 6:
			_, _, line, _ = runtime.Caller(0)
			eztrc.Errorf(ctx, "e")
		case 7:
			_, _, line, _ = runtime.Caller(0)
			eztrc.LazyErrorf(ctx, "e")
		case 8, 9: // the start of a region, or its end
			var finish func()
			_, _, line, _ = runtime.Caller(0)
			_, _, finish = trc.Region(ctx, "e")
			if how == 9 {
				n0++
				_, _, line, _ = runtime.Caller(0)
				finish()
			}
		case 10, 11:
			var finish func()
			_, _, line, _ = runtime.Caller(0)
			_, _, finish = eztrc.Region(ctx, "e")
			if how == 11 {
				n0++
				_, _, line, _ = runtime.Caller(0)
				finish()
			}
		}
	}
	if how >= 8 {
		v.Reach("region")
	} else if how >= 4 {
		v.Reach("helper")
	}
	var rec func(k int)
	rec = func(k int) {
		if k == 0 {
			call()
			return
		}
		rec(k - 1)
	}
	rec(depth)
	read := func() []trc.Frame {
		evs := tr.Events()
		v.Assert(len(evs) == n0+1, "one event")
		return evs[n0].Stack
	}
	st := read()
	const me = "github.com/peterbourgon/trc/internal/verifh/web.HC28Site"
	v.Assert(len(st) > 0, "an event has a stack")
	v.Assert(st[0].Function == me+".func1", "the stack starts with the function that made the call")
	v.Assert(suffix(st[0].FileLine, fmt.Sprintf("ez.go:%d", line+1)), "the stack starts with the line that made the call")
	callers := 3 // that there is room for behind every wrapper
	if how < 4 && wrap < 2 {
		callers = 5
	}
	if callers > depth+3 {
		callers = depth + 3
	}
	v.Assert(len(st) >= callers, "the callers follow")
	for i := 1; i < len(st) && i <= depth+1; i++ {
		v.Assert(st[i].Function == me+".func2", "the callers follow, innermost first")
	}
	if len(st) > depth+2 {
		v.Assert(st[depth+2].Function == me, "the callers follow, innermost first")
		v.Reach("deep")
	}
	again := read()
	v.Assert(len(again) == len(st) && again[0] == st[0], "reading again gives the same stack")
	tr.Finish()
	again = read()
	v.Assert(len(again) == len(st) && again[0] == st[0], "reading again gives the same stack")
	v.Observe("first", st[0].Function)
	v.Observe("depth", depth)
}

func suffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

// HC28Switch: whether the events of a trace have stacks is decided by the
// setting when it is created, also for recycled traces and events, and not by
// later changes.
//
// verif: prop=C28 quick.N=3 thorough.N=4 preempt=0 reach=with,without,recycled
func HC28Switch() {
	c := trc.NewDefaultCollector().SetCategorySize(1)
	on := true
	n := v.Param("N", 3)
	for i := 0; i < n; i++ {
		if v.Choose("set", 2) == 1 {
			on = v.Choose("stacks", 2) == 1
			trc.SetTraceStacks(on)
		}
		with := on
		_, tr := c.NewTrace(bg, "a") // replaces, and recycles, the one before
		if i > 0 {
			v.Reach("recycled")
		}
		ev := 1 + v.Choose("events", 2)
		for k := 0; k < ev; k++ {
			if v.Choose("change", 2) == 1 {
				on = !on
				trc.SetTraceStacks(on)
			}
			site(func() { tr.Tracef("e") })
		}
		for k := 0; k < 2; k++ {
			evs := tr.Events()
			v.Assert(len(evs) == ev, "the events are there")
			for _, e := range evs {
				v.Assert((len(e.Stack) > 0) == with, "stacks as they were set when the trace was created")
				if with {
					v.Assert(suffix(e.Stack[0].Function, "HC28Switch.func1") && suffix(e.Stack[1].Function, ".site"), "the stack is that of the event")
				}
			}
		}
		if with {
			v.Reach("with")
		} else {
			v.Reach("without")
		}
		if v.Choose("finish", 2) == 1 {
			tr.Finish()
		}
	}
	v.Observe("on", on)
}

// talker adds an event when it is formatted.
type talker struct{ tr trc.Trace }

func (t talker) String() string { t.tr.Tracef("formatted"); return "x" }

// HC28Names: functions of others are in the stack, whatever they are called.
//
// verif: prop=C28 preempt=0 reach=end
func HC28Names() {
	_, tr := trc.New(bg, "src", "cat")
	err := fmt.Errorf("%v", talker{tr})
	v.Assert(err.Error() == "x", "harness: the error")
	st := tr.Events()[0].Stack
	v.Assert(len(st) > 1 && suffix(st[0].Function, "talker.String"), "the stack starts with the function that made the call")
	found := false
	for _, f := range st {
		found = found || f.Function == "fmt.Errorf"
	}
	v.Assert(found, "the callers follow, whatever they are called")
	v.Reach("end")
}
