package web

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"sync"
	"sync/atomic"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// pipe carries a response body from a handler to a client.
type pipe struct {
	h      http.Header
	code   int
	ready  chan struct{}
	ch     chan []byte
	rest   []byte
	done   chan struct{}
	once   sync.Once
	closed func()
}

func newPipe(closed func()) *pipe {
	return &pipe{h: http.Header{}, ready: make(chan struct{}), ch: make(chan []byte, 64), done: make(chan struct{}), closed: closed}
}

func (p *pipe) Header() http.Header { return p.h }

func (p *pipe) WriteHeader(code int) {
	if p.code == 0 {
		p.code = code
		close(p.ready)
	}
}

func (p *pipe) Write(b []byte) (int, error) {
	select {
	case p.ch <- append([]byte(nil), b...):
		return len(b), nil
	case <-p.done:
		return 0, io.ErrClosedPipe
	}
}

func (p *pipe) Flush() {}

func (p *pipe) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		select {
		case x, ok := <-p.ch:
			if !ok {
				return 0, io.EOF
			}
			p.rest = x
		case <-p.done:
			return 0, io.ErrClosedPipe
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}

func (p *pipe) Close() error {
	p.once.Do(func() {
		close(p.done)
		p.closed()
	})
	return nil
}

// transport hands requests to a handler; closing the response body is seen by
// the handler as the end of its request's context.
type transport struct {
	u atomic.Pointer[url.URL]
	h http.Handler
	n atomic.Int32
}

func (t *transport) RoundTrip(req *http.Request) (*http.Response, error) {
	t.n.Add(1)
	t.u.Store(req.URL)
	ctx, cancel := context.WithCancel(bg)
	p := newPipe(cancel)
	r := req.Clone(ctx)
	r.Body = http.NoBody
	v.Go("serve", func() {
		t.h.ServeHTTP(p, r)
		close(p.ch)
	})
	<-p.ready
	return &http.Response{StatusCode: p.code, Status: "status", Header: p.h, Body: p, Request: req}, nil
}

// canned answers every request with the same status and body.
type canned struct {
	n    atomic.Int32
	code int
	typ  string
	data []byte
	last atomic.Pointer[held]
	hang bool
}

func (c *canned) RoundTrip(req *http.Request) (*http.Response, error) {
	c.n.Add(1)
	if c.hang { // the server never answers
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	h := &held{data: c.data, done: make(chan struct{})}
	c.last.Store(h)
	return &http.Response{StatusCode: c.code, Status: "status", Header: http.Header{"Content-Type": {c.typ}}, Body: h, Request: req}, nil
}

// held is a body that stays open after its data until it is closed.
type held struct {
	data []byte
	done chan struct{}
	once sync.Once
}

func (h *held) Read(b []byte) (int, error) {
	if len(h.data) > 0 {
		n := copy(b, h.data)
		h.data = h.data[n:]
		return n, nil
	}
	<-h.done
	return 0, io.ErrClosedPipe
}

func (h *held) Close() error { h.once.Do(func() { close(h.done) }); return nil }

// HC21Filter: any filter and send buffer reach the streamer behind the server,
// and what it sends arrives as it was.
//
// verif: prop=C21 preempt=0 flags=norace reach=end
func HC21Filter() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var f trc.Filter
	switch v.Choose("filter", 6) {
	case 1:
		f.Category = v.Str("category", 1, "aA &%")
	case 2:
		f.IsActive, f.IsFinished, f.IsSuccess, f.IsErrored = v.Bool("fa"), v.Bool("ff"), v.Bool("fs"), v.Bool("fe")
	case 3:
		d := time.Duration(v.Int64("min", 0, 1<<40-1))
		f.MinDuration = &d
	case 4:
		f.IDs = []string{"A", v.Str("fid", 1, "B=")}
		f.Sources = []string{v.Str("fsrc", 1, "s+"), "S"}
	case 5:
		f.Query = "a+ &b"
	}
	buf := v.Choose("buf", 3)
	want := f
	st := &trc.StaticTrace{TraceID: "A", TraceSource: "src", TraceCategory: v.Str("cat", 1, "x\n\""), TraceStarted: at(v.Int64("start", 0, 1<<40-1)), TraceFinished: true,
		TraceEvents: []trc.Event{{When: at(v.Int64("when", 0, 1<<40-1)), What: v.Str("what", 1, "y\n<")}}}
	l := &listener{send: []trc.Trace{st}}
	t := &transport{h: &trcweb.TraceServer{Searcher: &asked{}, Streamer: l}}
	http.DefaultClient = &http.Client{Transport: t}
	c := &trcweb.StreamClient{URI: "host/path?x=y", SendBuffer: []int{0, 7, 100000}[buf]}
	ctx, cancel := context.WithCancel(bg)
	ch := make(chan trc.Trace, 1)
	var err error
	var ended atomic.Bool
	v.Go("client", func() {
		err = c.Stream(ctx, f, ch)
		ended.Store(true)
	})
	got := <-ch
	v.Assert(!ended.Load(), "the stream goes on")
	cancel()
	v.Wait()
	v.Assert(err == nil, "the stream ends with its context, without error")
	v.Assert(l.n.Load() == 1, "one stream on the server")
	v.Assert(t.u.Load().Query().Get("x") == "y" && t.u.Load().Path == "/path", "the server is asked at its URI")
	v.Assert(l.ended.Load(), "the server's stream ends too")
	sameFilter(want, l.f, "filter on the server")
	v.Assert(l.size == []int{100, 7, 100000}[buf], "send buffer on the server")
	g, ok := got.(*trc.StaticTrace)
	if !ok {
		v.Fail("a static trace arrives")
	}
	sameTrace(st, g, "trace")
	v.Reach("end")
}

// HC21Events: any sequence of server-sent events: every trace arrives, in
// order, and malformed data ends the stream with an error.
//
// verif: prop=C21 quick.N=2 thorough.N=3 preempt=0 flags=norace reach=end,malformed
func HC21Events() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var (
		data []byte
		want []*trc.StaticTrace
		bad  bool
		seen []string
	)
	n := v.Param("N", 2)
	for i := 0; i < n && !bad; i++ {
		switch k := v.Choose("kind", 8); k {
		case 0, 1:
			st := &trc.StaticTrace{TraceID: string(rune('A' + i)), TraceSource: "src", TraceCategory: v.Str("cat", 1, "x\n\""), TraceStarted: at(v.Int64("start", 0, 1<<40-1)), TraceErrored: v.Bool("errored"), TraceDuration: time.Duration(v.Int64("dur", 0, 1<<40-1))}
			b, _ := json.Marshal(st)
			data = append(data, "event: trace\n"...)
			if k == 1 {
				data = append(data, "id: 7\n: comment\n"...)
			}
			data = append(data, "data: "...)
			data = append(data, b...)
			data = append(data, "\n\n"...)
			want = append(want, st)
			seen = append(seen, "trace")
		case 2:
			data = append(data, "event: stats\ndata: {\"sends\":1}\n\n"...)
			seen = append(seen, "stats")
		case 3:
			data = append(data, "event: init\ndata: anything\n\n"...)
			seen = append(seen, "init")
		case 4:
			data = append(data, "event: other\ndata: [1\n\n"...)
			seen = append(seen, "other")
		case 5:
			data = append(data, "event: trace\ndata: "+[]string{"x", "[]", `{"id":7}`, `{"id":"A"`, `{"started":"y"}`}[v.Choose("bad", 5)]+"\n\n"...)
			seen = append(seen, "trace")
			bad = true
		case 6:
			data = append(data, "event: stats\ndata: "+[]string{"x", "[]"}[v.Choose("bad", 2)]+"\n\n"...)
			seen = append(seen, "stats")
			bad = true
		case 7:
			data = append(data, "event: trace\n\n"...) // no data: not an event
		}
	}
	rt := &canned{code: 200, typ: "text/event-stream; charset=utf-8", data: data}
	http.DefaultClient = &http.Client{Transport: rt}
	var read []string
	c := &trcweb.StreamClient{URI: "http://host", OnRead: func(ctx context.Context, typ string, data []byte) { read = append(read, typ) }}
	ctx, cancel := context.WithCancel(bg)
	ch := make(chan trc.Trace, n)
	var err error
	v.Go("client", func() { err = c.Stream(ctx, trc.Filter{}, ch) })
	v.Settle()
	cancel()
	v.Wait()
	if bad {
		v.Reach("malformed")
		v.Assert(err != nil, "malformed data ends the stream with an error")
	} else {
		v.Reach("end")
		v.Assert(err == nil, "the stream ends with its context, without error")
	}
	v.Assert(len(ch) == len(want), "every trace arrives, once")
	for _, w := range want {
		g, ok := (<-ch).(*trc.StaticTrace)
		if !ok {
			v.Fail("a static trace arrives")
		}
		sameTrace(w, g, "trace")
	}
	sameStrings(seen, read, "events seen by the caller")
	v.Assert(rt.n.Load() == 1, "one connection")
}

// HC21End: the stream ends with its context wherever it is: connecting to a
// server that does not answer, waiting for events, or handing over a trace that
// nobody takes.
//
// verif: prop=C21 preempt=1 flags=norace reach=end
func HC21End() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	rt := &canned{code: 200, typ: "text/event-stream"}
	switch v.Choose("where", 3) {
	case 0:
		rt.hang = true
	case 1:
		rt.data = []byte("event: trace\ndata: {\"id\":\"A\"}\n\nevent: trace\ndata: {\"id\":\"B\"}\n\n")
	}
	http.DefaultClient = &http.Client{Transport: rt}
	c := trcweb.NewStreamClient("http://host")
	ctx, cancel := context.WithCancel(bg)
	var err error
	v.Go("client", func() { err = c.Stream(ctx, trc.Filter{}, make(chan trc.Trace)) })
	if v.Choose("when", 2) == 0 {
		v.Settle()
	}
	cancel()
	v.Wait()
	v.Assert(err == nil, "the stream ends with its context, without error")
	v.Reach("end")
}

// HC21Refused: an answer that is not a stream is an error.
//
// verif: prop=C21 preempt=0 flags=norace reach=refused,closed
func HC21Refused() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	rt := &canned{code: v.Int("code", 200, 499), typ: "text/html"}
	if v.Choose("type", 2) == 1 {
		rt.typ = "text/event-stream"
		v.Assume(rt.code != 200)
	}
	http.DefaultClient = &http.Client{Transport: rt}
	c := trcweb.NewStreamClient("http://host")
	err := c.Stream(bg, trc.Filter{}, make(chan trc.Trace))
	if rt.code == 204 { // a server's way of ending a stream
		v.Reach("closed")
		v.Assert(err == nil, "no content ends the stream")
	} else {
		v.Reach("refused")
		v.Assert(err != nil && !errors.Is(err, context.Canceled), "a refused stream is an error")
	}
}

// drops answers with one part of a stream per connection, and fails between
// them in any way.
type drops struct {
	n     int
	parts []string
	fails []int
	urls  []string
}

func (d *drops) RoundTrip(req *http.Request) (*http.Response, error) {
	d.urls = append(d.urls, req.URL.RawQuery+" "+req.Header.Get("Accept"))
	if len(d.fails) > 0 {
		f := d.fails[0]
		d.fails = d.fails[1:]
		switch f {
		case 0:
			return nil, errors.New("connection refused")
		case 1:
			return &http.Response{StatusCode: 503, Status: "status", Header: http.Header{}, Body: http.NoBody, Request: req}, nil
		}
	}
	p := ""
	if d.n < len(d.parts) {
		p = d.parts[d.n]
	}
	d.n++
	h := http.Header{"Content-Type": {"text/event-stream"}}
	if d.n >= len(d.parts) {
		return &http.Response{StatusCode: 200, Status: "status", Header: h, Body: &held{data: []byte(p), done: make(chan struct{})}, Request: req}, nil
	}
	return &http.Response{StatusCode: 200, Status: "status", Header: h, Body: newBody([]byte(p), nil), Request: req}, nil
}

// HC21Reconnect: a connection that fails or is cut short at any point is made
// again, with the same filter, and no complete event is lost or repeated.
//
// verif: prop=C21 preempt=0 flags=norace ticks=4 samples=2 reach=cut,failed
func HC21Reconnect() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var (
		one = "event: trace\ndata: {\"id\":\"A\"}\n\n"
		two = "event: trace\ndata: {\"id\":\"B\"}\n\n"
		d   = &drops{}
	)
	k := v.Choose("cut", len(two))
	d.parts = []string{one + two[:k], two}
	v.Reach("cut")
	if v.Choose("fail", 2) == 1 {
		d.fails = []int{v.Choose("how", 2), 2}
		v.Reach("failed")
	}
	http.DefaultClient = &http.Client{Transport: d}
	c := &trcweb.StreamClient{URI: "http://host", RetryInterval: time.Second}
	ctx, cancel := context.WithCancel(bg)
	ch := make(chan trc.Trace, 4)
	var err error
	v.Go("client", func() { err = c.Stream(ctx, trc.Filter{Category: "x"}, ch) })
	a, b := <-ch, <-ch
	cancel()
	v.Wait()
	v.Assert(err == nil, "the stream ends with its context, without error")
	v.Assert(a.ID() == "A" && b.ID() == "B" && len(ch) == 0, "every complete event arrives, once, in order")
	for _, u := range d.urls {
		v.Assert(u == d.urls[0], "every connection asks for the same stream")
	}
}

// HC21Hosts: whatever the server is called, it is asked for the stream.
//
// verif: prop=C21 preempt=0 flags=norace reach=end
func HC21Hosts() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	u := uris[v.Choose("uri", len(uris))]
	l := &listener{send: []trc.Trace{&trc.StaticTrace{TraceID: "A"}}}
	t := &transport{h: &trcweb.TraceServer{Searcher: &asked{}, Streamer: l}}
	http.DefaultClient = &http.Client{Transport: t}
	c := &trcweb.StreamClient{URI: u[0]}
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	ch := make(chan trc.Trace, 1)
	v.Go("client", func() {
		defer close(ch)
		c.Stream(ctx, trc.Filter{}, ch)
	})
	_, ok := <-ch
	v.Assert(ok, "the server is asked")
	got := t.u.Load()
	v.Assert(got.Scheme == u[1] && got.Host == u[2] && got.Path == "/path", "the server that is named is asked")
	cancel()
	v.Wait()
	v.Reach("end")
}

// HC21Slow: a caller that takes its time gets every trace all the same.
//
// verif: prop=C21 preempt=0 flags=norace ticks=2 reach=end
func HC21Slow() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	rt := &canned{code: 200, typ: "text/event-stream", data: []byte("event: trace\ndata: {\"id\":\"A\"}\n\nevent: stats\ndata: {}\n\nevent: trace\ndata: {\"id\":\"B\"}\n\n")}
	http.DefaultClient = &http.Client{Transport: rt}
	c := trcweb.NewStreamClient("http://host")
	ctx, cancel := context.WithCancel(bg)
	ch := make(chan trc.Trace, v.Choose("size", 2))
	v.Go("client", func() { c.Stream(ctx, trc.Filter{}, ch) })
	v.Go("slow", func() {
		for _, id := range []string{"A", "B"} {
			<-time.After(1500 * time.Millisecond)
			v.Assert((<-ch).ID() == id, "every trace arrives, in order")
		}
		cancel()
	})
	v.Wait()
	v.Reach("end")
}

// HC21Own: a server whose own requests are traced in the collector it serves
// sends every other trace, however similar to its own.
//
// verif: prop=C21 preempt=0 flags=norace reach=end
func HC21Own() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var own trc.Trace
	l := &likeOwn{started: make(chan struct{})}
	mid := trcweb.Middleware(func(ctx context.Context, category string) (context.Context, trc.Trace) {
		ctx, tr := trc.New(ctx, "src", category)
		own = tr
		return ctx, tr
	}, trcweb.Categorize)
	l.make = func() []trc.Trace {
		id := own.ID()
		mk := func(id, category string) *trc.StaticTrace {
			return &trc.StaticTrace{TraceID: id, TraceSource: own.Source(), TraceCategory: category, TraceStarted: own.Started()}
		}
		other := id[:len(id)-1] + "_"
		return []trc.Trace{mk(other, own.Category()), mk("", "x"), mk(id+"0", "stream"), mk("Z", own.Category())}[v.Choose("from", 4):]
	}
	http.DefaultClient = &http.Client{Transport: &transport{h: mid(&trcweb.TraceServer{Searcher: &asked{}, Streamer: l})}}
	c := trcweb.NewStreamClient("http://host")
	ctx, cancel := context.WithCancel(bg)
	ch := make(chan trc.Trace, 4)
	v.Go("client", func() { c.Stream(ctx, trc.Filter{}, ch) })
	<-l.started
	v.Settle()
	v.Assert(len(ch) == len(l.sent), "every trace that is not the server's own arrives")
	for _, w := range l.sent {
		g := <-ch
		v.Assert(g.ID() == w.ID() && g.Category() == w.Category(), "in order")
	}
	cancel()
	v.Wait()
	v.Reach("end")
}

// likeOwn streams traces that are made once the stream starts.
type likeOwn struct {
	make    func() []trc.Trace
	sent    []trc.Trace
	started chan struct{}
}

func (l *likeOwn) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	l.sent = l.make()
	close(l.started)
	for _, tr := range l.sent {
		ch <- tr
	}
	<-ctx.Done()
	return trc.StreamStats{}, ctx.Err()
}

func (l *likeOwn) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}
