package core

import (
	"context"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

type ctxKey string

// HC15Tree: any tree of contexts derived by putting traces, prefixing, adding
// other values and canceling; every context keeps returning its own trace.
//
// verif: prop=C15 quick.N=3 thorough.N=4 preempt=0 reach=orphan,put,derived
func HC15Tree() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctxs := []context.Context{bg}
	owner := []trc.Trace{nil}
	for i, n := 0, v.Param("N", 3); i < n; i++ {
		p := v.Choose("parent", len(ctxs))
		var ctx context.Context
		var tr trc.Trace
		switch v.Choose("op", 5) {
		case 0:
			t := &ft{id: string(rune('A' + i)), started: at(0)}
			var got trc.Trace
			ctx, got = trc.Put(ctxs[p], t)
			v.Assert(got == trc.Trace(t), "put returns the trace")
			tr = t
			v.Reach("put")
		case 1:
			ctx, tr = trc.New(ctxs[p], "src", "cat")
			v.Assert(tr != owner[p], "a new trace shadows the one before")
		case 2:
			ctx, tr = context.WithValue(ctxs[p], ctxKey("k"), "x"), owner[p]
			v.Reach("derived")
		case 3:
			var cancel context.CancelFunc
			ctx, cancel = context.WithCancel(ctxs[p])
			cancel()
			tr = owner[p]
		case 4:
			if owner[p] == nil {
				continue // prefixing an orphan
			}
			ctx, tr = trc.Prefix(ctxs[p], "pre")
			v.Assert(tr.ID() == owner[p].ID(), "a prefixed trace is the same trace")
		}
		ctxs, owner = append(ctxs, ctx), append(owner, tr)
		for j, c := range ctxs {
			got, ok := trc.MaybeGet(c)
			if owner[j] == nil {
				v.Assert(!ok && got == nil, "a context without a trace has none")
				o := trc.Get(c)
				v.Assert(o != nil && !o.Finished(), "an orphan is usable")
				o.Tracef("x")
				v.Assert(len(o.Events()) == 1, "an orphan is usable")
				_, ok = trc.MaybeGet(c)
				v.Assert(!ok, "an orphan is not put into the context")
				v.Assert(trc.Get(c) != o && trc.Get(c).ID() != o.ID(), "an orphan is not put into the context")
				v.Reach("orphan")
				continue
			}
			v.Assert(ok && got == owner[j], "a context returns the trace most recently put there")
			v.Assert(trc.Get(c) == owner[j], "a context returns the trace most recently put there")
		}
	}
	v.Observe("n", len(ctxs))
}

// tag decorates a trace with a letter, and keeps the order of decoration.
type tag struct {
	trc.Trace
	letter string
}

func tags(tr trc.Trace) string {
	s := ""
	for {
		t, ok := tr.(tag)
		if !ok {
			return s
		}
		s = t.letter + s
		tr = t.Trace
	}
}

// HC15Create: creating a trace in a collector, for contexts with and without a
// trace.
//
// verif: prop=C15 preempt=0 reach=reused,created,foreign,finished
func HC15Create() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	source, cat := v.Str("source", v.Choose("len", 2), "pP q"), v.Str("cat", 1, "xX% ")
	decorate := func(l string) trc.DecoratorFunc {
		return func(tr trc.Trace) trc.Trace { return tag{tr, l} }
	}
	made := 0
	newTrace := func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		made++
		return trc.New(ctx, source, category, ds...)
	}
	cfg := trc.CollectorConfig{Source: source, NewTrace: newTrace, Decorators: []trc.DecoratorFunc{decorate("a"), decorate("b")}}
	want := "ab"
	var c *trc.Collector
	how := v.Choose("how", 4)
	if source == "" && how != 1 {
		source = "default" // in place of none
	}
	switch how {
	case 0:
		c = trc.NewCollector(cfg)
	case 1:
		c = trc.NewCollector(trc.CollectorConfig{Decorators: cfg.Decorators}).SetSourceName(source).SetNewTrace(newTrace)
	case 2:
		c = trc.NewCollector(cfg).SetDecorators(decorate("c"), decorate("d"))
		want = "cd"
	case 3:
		c = trc.NewDefaultCollector()
		source, want = "default", ""
		made = 1
	}
	ctx, tr := c.NewTrace(bg, cat)
	if made == 1 {
		v.Reach("created")
	}
	v.Assert(made <= 1, "one trace is made")
	v.Assert(tr.Source() == source && tr.Category() == cat, "source and category")
	v.Assert(tags(tr) == want, "all decorators apply, in order")
	v.Assert(trc.Get(ctx) == tr, "the context has the trace")
	_, ok := trc.MaybeGet(bg)
	v.Assert(!ok, "the parent context has none")
	v.Assert(len(tr.Events()) == 0, "a new trace is empty")
	tr.Tracef("one")

	// other collectors are not affected
	if want == "cd" {
		_, tr := trc.NewCollector(cfg).NewTrace(bg, cat)
		v.Assert(tags(tr) == "ab", "each collector has its own decorators")
	}

	// again, in the context of the trace or one with another trace
	other := trc.NewCollector(trc.CollectorConfig{Source: "other"})
	cat2 := v.Str("cat2", 1, "xX% ")
	useCtx, useTr := ctx, tr
	switch v.Choose("again", 3) {
	case 0:
		v.Reach("reused")
	case 1:
		useCtx, useTr = other.NewTrace(bg, "foreign")
		v.Reach("foreign")
	case 2:
		useCtx, useTr = trc.Prefix(ctx, "pre")
	}
	state := v.Choose("state", 3)
	switch state {
	case 1:
		useTr.Finish()
		v.Reach("finished")
	case 2:
		useTr.Errorf("bad")
	}
	before := len(useTr.Events())
	ctx2, tr2 := c.NewTrace(useCtx, cat2)
	v.Assert(tr2 == useTr && trc.Get(ctx2) == useTr, "the trace of the context is reused")
	evs := useTr.Events()
	if state != 1 { // a finished trace is frozen
		v.Assert(len(evs) == before+1, "the reuse is noted with an event")
		v.Assert(hasSuffix(evs[len(evs)-1].What, "(+ "+cat2+")") && !evs[len(evs)-1].IsError, "the note names the category")
	}
	v.Assert(useTr.Finished() == (state == 1) && useTr.Errored() == (state == 2), "the reused trace goes on")
	res := searchAll(c)
	v.Assert(res.TotalCount == 1 && res.Traces[0].TraceID == tr.ID(), "no new trace appears in the collector")
	v.Observe("n", len(evs))
}
