package web

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

const era = 0x1798 << 48

// at is an instant of the model clock's era.
func at(ns int64) time.Time { return time.Unix(0, era+ns).UTC() }

// ft is a user-supplied trace whose observable state is arbitrary.
type ft struct {
	id, source, category string
	started              time.Time
	dur                  time.Duration
	finished, errored    bool
	events               []trc.Event
}

func (t *ft) ID() string                            { return t.id }
func (t *ft) Source() string                        { return t.source }
func (t *ft) Category() string                      { return t.category }
func (t *ft) Started() time.Time                    { return t.started }
func (t *ft) Duration() time.Duration               { return t.dur }
func (t *ft) Tracef(format string, args ...any)     {}
func (t *ft) LazyTracef(format string, args ...any) {}
func (t *ft) Errorf(format string, args ...any)     {}
func (t *ft) LazyErrorf(format string, args ...any) {}
func (t *ft) Finish()                               {}
func (t *ft) Finished() bool                        { return t.finished }
func (t *ft) Errored() bool                         { return t.errored }
func (t *ft) Events() []trc.Event                   { return append([]trc.Event(nil), t.events...) }

// collectorOf is a collector with the given traces.
func collectorOf(ts []*ft) *trc.Collector {
	i := 0
	c := trc.NewCollector(trc.CollectorConfig{
		Source: "src",
		NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			ts[i].source = source
			return trc.Put(ctx, ts[i])
		},
	})
	for i = 0; i < len(ts); i++ {
		c.NewTrace(bg, ts[i].category)
	}
	return c
}

// body is a response body that ends, or fails, after its data.
type body struct {
	r      *bytes.Reader
	err    error
	closed int
}

func newBody(data []byte, err error) *body { return &body{r: bytes.NewReader(data), err: err} }

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func (b *body) Close() error { b.closed++; return nil }

// recorder is a response writer that keeps everything.
type recorder struct {
	h    http.Header
	code int
	data []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}
func (r *recorder) Write(p []byte) (int, error) {
	if r.code == 0 {
		r.code = 200
	}
	r.data = append(r.data, p...)
	return len(p), nil
}

// wire is an HTTP client that asks a handler directly. It stands for a working
// network: what arrives is what was sent.
type wire struct {
	h    http.Handler
	n    int
	edit func(*http.Response) (*http.Response, error) // faults
	last *body
	url  *url.URL
}

func (w *wire) Do(req *http.Request) (*http.Response, error) {
	w.n++
	w.url = req.URL
	rec := &recorder{h: http.Header{}}
	r := req.Clone(req.Context())
	if r.Body == nil {
		r.Body = http.NoBody
	}
	w.h.ServeHTTP(rec, r)
	if rec.code == 0 {
		rec.code = 200
	}
	w.last = newBody(rec.data, nil)
	res := &http.Response{StatusCode: rec.code, Status: http.StatusText(rec.code), Header: rec.h, Body: w.last, Request: req}
	if w.edit != nil {
		return w.edit(res)
	}
	return res, nil
}

func sameStrings(a, b []string, label string) {
	v.Assert(len(a) == len(b), label+": count")
	for i := range a {
		v.Assert(a[i] == b[i], label)
	}
}

func sameTrace(a, b *trc.StaticTrace, label string) {
	v.Assert(v.And(a.TraceSource == b.TraceSource, a.TraceID == b.TraceID, a.TraceCategory == b.TraceCategory), label+": identity")
	v.Assert(a.TraceStarted.Equal(b.TraceStarted), label+": start")
	v.Assert(a.TraceDuration == b.TraceDuration, label+": duration")
	v.Assert(v.And(a.TraceFinished == b.TraceFinished, a.TraceErrored == b.TraceErrored), label+": state")
	v.Assert(len(a.TraceEvents) == len(b.TraceEvents), label+": event count")
	for i := range a.TraceEvents {
		x, y := a.TraceEvents[i], b.TraceEvents[i]
		v.Assert(x.What == y.What, label+": event text")
		v.Assert(x.When.Equal(y.When), label+": event time")
		v.Assert(x.IsError == y.IsError, label+": event kind")
		v.Assert(len(x.Stack) == len(y.Stack), label+": stack depth")
		for j := range x.Stack {
			v.Assert(x.Stack[j] == y.Stack[j], label+": frame")
		}
	}
}

func sameStats(a, b *trc.SearchStats) {
	v.Assert((a == nil) == (b == nil), "stats: present")
	if a == nil || b == nil {
		return
	}
	v.Assert(len(a.Bucketing) == len(b.Bucketing), "stats: buckets")
	for i := range a.Bucketing {
		v.Assert(a.Bucketing[i] == b.Bucketing[i], "stats: buckets")
	}
	v.Assert(len(a.Categories) == len(b.Categories), "stats: categories")
	for k, x := range a.Categories {
		y := b.Categories[k]
		if y == nil {
			v.Fail("stats: a category is missing")
		}
		v.Assert(x.Category == y.Category, "stats: category")
		v.Assert(v.And(x.EventCount == y.EventCount, x.ActiveCount == y.ActiveCount, x.ErroredCount == y.ErroredCount), "stats: counts")
		v.Assert(len(x.BucketCounts) == len(y.BucketCounts), "stats: bucket counts")
		for i := range x.BucketCounts {
			v.Assert(x.BucketCounts[i] == y.BucketCounts[i], "stats: bucket counts")
		}
		v.Assert(v.And(x.Oldest.Equal(y.Oldest), x.Newest.Equal(y.Newest)), "stats: oldest and newest")
	}
}

func sameRequest(a, b *trc.SearchRequest) {
	v.Assert((a == nil) == (b == nil), "request: present")
	if a == nil || b == nil {
		return
	}
	v.Assert(a.Limit == b.Limit, "request: limit")
	v.Assert(a.StackDepth == b.StackDepth, "request: stack depth")
	v.Assert(len(a.Bucketing) == len(b.Bucketing), "request: bucketing")
	for i := range a.Bucketing {
		v.Assert(a.Bucketing[i] == b.Bucketing[i], "request: bucketing")
	}
	sameFilter(a.Filter, b.Filter, "request: filter")
}

func sameFilter(a, b trc.Filter, label string) {
	sameStrings(a.Sources, b.Sources, label+": sources")
	sameStrings(a.IDs, b.IDs, label+": IDs")
	v.Assert(a.Category == b.Category, label+": category")
	v.Assert(v.And(a.IsActive == b.IsActive, a.IsFinished == b.IsFinished, a.IsSuccess == b.IsSuccess, a.IsErrored == b.IsErrored), label+": state")
	v.Assert((a.MinDuration == nil) == (b.MinDuration == nil), label+": min duration")
	if a.MinDuration != nil && b.MinDuration != nil {
		v.Assert(*a.MinDuration == *b.MinDuration, label+": min duration")
	}
	v.Assert(a.Query == b.Query, label+": query")
}

func sameResponse(a, b *trc.SearchResponse) {
	v.Assert(a.TotalCount == b.TotalCount, "total count")
	v.Assert(a.MatchCount == b.MatchCount, "match count")
	sameStrings(a.Sources, b.Sources, "sources")
	sameStrings(a.Problems, b.Problems, "problems")
	v.Assert(len(a.Traces) == len(b.Traces), "number of traces")
	for i := range a.Traces {
		sameTrace(a.Traces[i], b.Traces[i], "trace")
	}
	sameStats(a.Stats, b.Stats)
	sameRequest(a.Request, b.Request)
}
