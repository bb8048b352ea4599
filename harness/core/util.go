// Package core holds the harnesses for package trc.
package core

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

var bg = context.Background()

// searchAll returns everything a collector retains, as far as search shows it.
func searchAll(c trc.Searcher) *trc.SearchResponse {
	res, err := c.Search(bg, &trc.SearchRequest{Limit: 250})
	if err != nil || res == nil {
		v.Fail("search failed")
	}
	return res
}

func byCategory(sts []*trc.StaticTrace, cat string) []*trc.StaticTrace {
	var out []*trc.StaticTrace
	for _, st := range sts {
		if st.TraceCategory == cat {
			out = append(out, st)
		}
	}
	return out
}

// rev returns the ids newest first, cut to n.
func newest(ids []string, n int) []string {
	var out []string
	for i := len(ids) - 1; i >= 0 && len(out) < n; i-- {
		out = append(out, ids[i])
	}
	return out
}

func sameIDs(sts []*trc.StaticTrace, ids []string, label string) {
	v.Assert(len(sts) == len(ids), label+": count")
	for i := range sts {
		v.Assert(sts[i].TraceID == ids[i], label+": order and identity")
	}
}

// ft is a user-supplied trace whose observable state is arbitrary.
type ft struct {
	id, source, category string
	started              time.Time
	dur                  time.Duration
	finished, errored    bool
	events               []trc.Event
	freed                int
	calls                []string
}

func (t *ft) ID() string                            { return t.id }
func (t *ft) Source() string                        { return t.source }
func (t *ft) Category() string                      { return t.category }
func (t *ft) Started() time.Time                    { return t.started }
func (t *ft) Duration() time.Duration               { return t.dur }
func (t *ft) Tracef(format string, args ...any)     { t.add("T", format, args) }
func (t *ft) LazyTracef(format string, args ...any) { t.add("LT", format, args) }
func (t *ft) Errorf(format string, args ...any)     { t.add("E", format, args) }
func (t *ft) LazyErrorf(format string, args ...any) { t.add("LE", format, args) }
func (t *ft) Finish()                               { t.finished = true; t.calls = append(t.calls, "F") }
func (t *ft) Finished() bool                        { return t.finished }
func (t *ft) Errored() bool                         { return t.errored }
func (t *ft) Events() []trc.Event                   { return t.events }
func (t *ft) Free()                                 { t.freed++ }
func (t *ft) add(kind, format string, args []any) {
	t.calls = append(t.calls, kind+" "+fmt.Sprintf(format, args...))
}

const era = 0x1798 << 48

// at is an instant of the model clock's era.
func at(ns int64) time.Time { return time.Unix(0, era+ns).UTC() }

// anyTime is any instant after the given one (nanoseconds), in nanoseconds.
func anyTime(name string, after int64) int64 {
	ns := v.Int64(name, era, era+1<<46-1)
	v.Assume(ns > after)
	return ns
}

// fake collector: a collector whose traces are ft, kept in *all in creation
// order, with arbitrary two-byte IDs and strictly increasing start times.
func fakeCollector(all *[]*ft) *trc.Collector {
	last := int64(0)
	return trc.NewCollector(trc.CollectorConfig{
		Source: "src",
		NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			last = anyTime("start", last)
			t := &ft{id: v.Str("id", 1, "ABCDEFGH"), source: source, category: category, started: time.Unix(0, last)}
			*all = append(*all, t)
			var tr trc.Trace = t
			for _, d := range ds {
				tr = d(tr)
			}
			return trc.Put(ctx, tr)
		},
	})
}

func lastN(ts []*ft, n int) []*ft {
	if len(ts) > n {
		ts = ts[len(ts)-n:]
	}
	return ts
}

// fakeNew makes ft traces from several goroutines, with distinct IDs.
func fakeNew(all *[]*ft) trc.NewTraceFunc {
	var mtx sync.Mutex
	return func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		mtx.Lock()
		n := len(*all)
		t := &ft{id: string(rune('A' + n)), source: source, category: category, started: at(int64(n))}
		*all = append(*all, t)
		mtx.Unlock()
		var tr trc.Trace = t
		for _, d := range ds {
			tr = d(tr)
		}
		return trc.Put(ctx, tr)
	}
}
