package web

import (
	"context"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// asked is a searcher that keeps the request and gives a fixed answer.
type asked struct {
	n   int
	req trc.SearchRequest
	res *trc.SearchResponse
	err error
}

func (a *asked) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	a.n++
	a.req = *req
	a.req.Bucketing = append([]time.Duration(nil), req.Bucketing...)
	return a.res, a.err
}

func okResponse() *trc.SearchResponse {
	return &trc.SearchResponse{Stats: trc.NewSearchStats(trc.DefaultBucketing)}
}

// noStream is a streamer that must not be used.
type noStream struct{}

func (noStream) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	v.Fail("a search is not streamed")
	return trc.StreamStats{}, nil
}

func (noStream) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	v.Fail("a search is not streamed")
	return trc.StreamStats{}, nil
}

// ask serves one request with the given raw query.
func ask(a *asked, query string) *recorder {
	if a.res == nil && a.err == nil {
		a.res = okResponse()
	}
	s := &trcweb.TraceServer{Searcher: a, Streamer: noStream{}}
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: query}, Header: http.Header{}, Body: http.NoBody}).WithContext(bg)
	rec := &recorder{h: http.Header{}}
	s.ServeHTTP(rec, r)
	return rec
}

// HC20Conditions: any combination of filter parameters sets exactly its
// conditions.
//
// verif: prop=C20 preempt=0 reach=end
func HC20Conditions() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var q []string
	var want trc.Filter
	form := []string{"", "=", "=1", "=true", "=false", "=x&n="}[v.Choose("form", 6)]
	if v.Choose("source", 2) == 1 {
		s := v.Str("source", 1, "ab")
		q = append(q, "source="+s, "source=x")
		want.Sources = []string{s, "x"}
	}
	if v.Choose("id", 2) == 1 {
		s := v.Str("id", 1, "ab")
		q = append(q, "id="+s, "id=y")
		want.IDs = []string{s, "y"}
	}
	if v.Choose("category", 2) == 1 {
		want.Category = v.Str("category", 1, "ab")
		q = append(q, "category="+want.Category)
	}
	if v.Choose("active", 2) == 1 {
		want.IsActive = true
		q = append(q, "active"+form)
	}
	if v.Choose("finished", 2) == 1 {
		want.IsFinished = true
		q = append(q, "finished"+form)
	}
	if v.Choose("success", 2) == 1 {
		want.IsSuccess = true
		q = append(q, "success"+form)
	}
	if v.Choose("errored", 2) == 1 {
		want.IsErrored = true
		q = append(q, "errored"+form)
	}
	if v.Choose("min", 2) == 1 {
		d := time.Millisecond
		want.MinDuration = &d
		q = append(q, "min=1ms")
	}
	if v.Choose("q", 2) == 1 {
		want.Query = v.Str("q", 1, "ab")
		q = append(q, "q="+want.Query)
	}
	a := &asked{}
	rec := ask(a, strings.Join(q, "&"))
	v.Assert(a.n == 1 && rec.code == 200, "one search, and success")
	sameFilter(want, a.req.Filter, "filter")
	v.Assert(a.req.Limit == 10 && a.req.StackDepth == 0, "defaults")
	v.Reach("end")
}

// HC20Text: any text in a parameter arrives as it was.
//
// verif: prop=C20 quick.L=2 thorough.L=3 preempt=0 reach=end
func HC20Text() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	s := v.Str("text", v.Choose("len", v.Param("L", 2)+1), "aA &%+;,")
	name := []string{"category", "id", "source", "q"}[v.Choose("name", 4)]
	a := &asked{}
	ask(a, name+"="+url.QueryEscape(s))
	var want trc.Filter
	switch name {
	case "category":
		want.Category = s
	case "id":
		want.IDs = []string{s}
	case "source":
		want.Sources = []string{s}
	case "q":
		v.Assume(s != "+" && s != "++" && s != "+++")
		if len(s) > 0 {
			v.Assume(s[0] != '+') // not an expression
		}
		if len(s) > 1 {
			v.Assume(s[len(s)-2:] != "++")
		}
		want.Query = s
	}
	sameFilter(want, a.req.Filter, "filter")
	v.Reach("end")
}

// number is what a decimal number in s is, if it is one.
func number(s string) (n int, ok bool) {
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if v.Is(s[i] < '0') || v.Is(s[i] > '9') {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

// HC20Numbers: any text as the limit and as the stack depth.
//
// verif: prop=C20 quick.L=3 thorough.L=4 preempt=0 reach=number,text
func HC20Numbers() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	n := v.Choose("len", v.Param("L", 3)+1)
	s := v.Str("text", n, "0123456789-_.x")
	num, ok := number(s)
	a := &asked{}
	switch v.Choose("which", 3) {
	case 2:
		ask(a, "n=99999999999999999999&stack=-99999999999999999999")
		v.Assert(a.req.Limit == 10 && a.req.StackDepth == 0, "a number too large to parse is ignored")
	case 0:
		ask(a, "n="+s)
		want := 10
		if ok {
			want = v.IteInt(num < 1, 1, v.IteInt(num > 250, 250, num))
		}
		v.Assert(a.req.Limit == want, "the limit is in range, with a default")
	case 1:
		ask(a, "stack="+s)
		want := 0
		if ok {
			want = num
		}
		v.Assert(a.req.StackDepth == want, "the stack depth is the number, or none")
	}
	if ok {
		v.Reach("number")
	} else {
		v.Reach("text")
	}
}

var longDurations = []string{"1ns", "1500ns", "-1ns", "1.5us", "2.000001ms", "999999999ns", "1h0m0.000000001s", "2562047h47m16.854775807s", "2562047h47m16.854775808s", "1d", "1s "}

// HC20Durations: any text as the minimum duration.
//
// verif: prop=C20 quick.L=3 thorough.L=4 preempt=0 reach=valid,invalid
func HC20Durations() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var s string
	if which := v.Choose("which", len(longDurations)+1); which > 0 {
		s = longDurations[which-1]
	} else {
		s = v.Str("text", v.Choose("len", v.Param("L", 3)+1), "015.smh-")
	}
	d, err := time.ParseDuration(s)
	a := &asked{}
	ask(a, "min="+s)
	got := a.req.Filter.MinDuration
	v.Assert((got != nil) == (err == nil), "a duration is a condition, anything else is ignored")
	if err == nil {
		v.Assert(*got == d, "the condition is the duration")
		v.Reach("valid")
	} else {
		v.Reach("invalid")
	}
}

// HC20Buckets: any buckets: those that can be parsed, sorted, from zero up.
//
// verif: prop=C20 quick.B=2 thorough.B=3 preempt=0 reach=default,given
func HC20Buckets() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	n := v.Choose("n", v.Param("B", 2)+1)
	var q []string
	var ds []time.Duration
	for i := 0; i < n; i++ {
		s := v.Str("text", 2, "019s-")
		q = append(q, "b="+s)
		if d, err := time.ParseDuration(s); err == nil {
			ds = append(ds, d)
		}
	}
	a := &asked{}
	ask(a, strings.Join(q, "&"))
	got := a.req.Bucketing
	if len(ds) == 0 {
		v.Reach("default")
		v.Assert(len(got) == len(trc.DefaultBucketing), "the default buckets")
		for i := range got {
			v.Assert(got[i] == trc.DefaultBucketing[i], "the default buckets")
		}
		return
	}
	v.Reach("given")
	v.Assert(len(got) > 0 && got[0] == 0, "the first bucket is zero")
	for i := 1; i < len(got); i++ {
		v.Assert(got[i-1] <= got[i], "the buckets are sorted")
	}
	for _, d := range ds {
		found := d < 0
		for _, g := range got {
			found = v.Or(found, g == d)
		}
		v.Assert(found, "a given bucket is used")
	}
	for _, g := range got {
		found := g == 0
		for _, d := range ds {
			found = v.Or(found, g == d)
		}
		v.Assert(found, "a bucket is a given one")
	}
}

// HC20JSON: a JSON request is searched as it is, and anything else is refused.
//
// verif: prop=C20 preempt=0 reach=ok,refused
func HC20JSON() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	d := time.Duration(v.Int64("min", 0, 1<<40-1))
	want := trc.SearchRequest{
		Limit:      v.Int("limit", 1, 250),
		StackDepth: v.Int("depth", -1, 5),
		Bucketing:  []time.Duration{0, time.Duration(v.Int64("b", 1, 1<<40))},
		Filter:     trc.Filter{Category: v.Str("cat", 1, "a\"<"), IDs: []string{"x"}, IsErrored: v.Bool("e"), MinDuration: &d},
	}
	data, err := json.Marshal(want)
	v.Assert(err == nil, "harness: marshal")
	var fail error
	bad := true
	switch v.Choose("body", 5) {
	case 0:
		bad = false
	case 1:
		data = data[:v.Choose("cut", len(data))]
	case 2:
		data = []byte([]string{"", "x", "[]", `"a"`, "1", "true", `{"limit":"x"}`, `{"limit":1.5}`, `{"filter":[]}`, `{"filter":{"min_duration":"1s"}}`, `{"bucketing":{}}`, `{"limit":1,}`, `{'limit':1}`}[v.Choose("bad", 13)])
	case 3:
		data = data[:v.Choose("cut", len(data))]
		fail = errors.New("connection reset")
	case 4:
		data[v.Choose("at", 2)] = '!'
	}
	a := &asked{res: okResponse()}
	s := &trcweb.TraceServer{Searcher: a, Streamer: noStream{}}
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: "n=7&category=zzz"}, Header: http.Header{}, Body: newBody(data, fail)}).WithContext(bg)
	r.Header.Set("Content-Type", []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8"}[v.Choose("type", 3)])
	rec := &recorder{h: http.Header{}}
	s.ServeHTTP(rec, r)
	if bad {
		v.Reach("refused")
		v.Assert(rec.code == 400 && a.n == 0, "an undecodable request is refused")
		return
	}
	v.Reach("ok")
	v.Assert(rec.code == 200 && a.n == 1, "a request is searched")
	sameRequest(&want, &a.req)
}

// HC20Large: a long request is searched like a short one.
//
// verif: prop=C20 preempt=0 samples=1 steps=200000000 reach=end
func HC20Large() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	want := trc.SearchRequest{Limit: v.Int("limit", 1, 250), Bucketing: []time.Duration{0, time.Second}}
	long := strings.Repeat("0123456789abcdef", 1<<v.Choose("size", v.Param("sizes", 16)))
	switch v.Choose("what", 3) {
	case 0:
		want.Filter.Query = long
	case 1:
		want.Filter.Category = long
	default:
		for len(long) >= 1024 {
			want.Filter.IDs = append(want.Filter.IDs, long[:1024])
			long = long[1024:]
		}
	}
	data, err := json.Marshal(want)
	v.Assert(err == nil, "harness: marshal")
	a := &asked{res: okResponse()}
	s := &trcweb.TraceServer{Searcher: a, Streamer: noStream{}}
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}, Body: newBody(data, nil)}).WithContext(bg)
	r.Header.Set("Content-Type", "application/json")
	rec := &recorder{h: http.Header{}}
	s.ServeHTTP(rec, r)
	v.Assert(rec.code == 200 && a.n == 1, "a request is searched")
	sameRequest(&want, &a.req)
	v.Reach("end")
}

// HC20Failure: whatever the searcher answers, the handler answers too, and a
// failure is not hidden.
//
// verif: prop=C20 preempt=0 reach=failed,empty,ok
func HC20Failure() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	a := &asked{}
	if v.Choose("err", 2) == 1 {
		a.err = errors.New("backend down")
	}
	switch v.Choose("res", 3) {
	case 1:
		a.res = &trc.SearchResponse{TotalCount: 3}
	case 2:
		a.res = okResponse()
	}
	s := &trcweb.TraceServer{Searcher: a, Streamer: noStream{}}
	w := &wire{h: s}
	req := &trc.SearchRequest{}
	own := 0
	if v.Bool("invalid") { // a problem of the request itself
		req.Filter.Query = "("
		own = 1
	}
	if a.res != nil && a.err == nil && v.Bool("partial") {
		a.res.Problems = []string{"one of several"}
		own++
	}
	res, err := trcweb.NewSearchClient(w, "http://host").Search(bg, req)
	switch {
	case a.err != nil || a.res == nil:
		if a.err != nil {
			v.Reach("failed")
		} else {
			v.Reach("empty")
		}
		v.Assert(err != nil || len(res.Problems) > own, "a failure of the searcher is not hidden")
	default:
		v.Reach("ok")
		v.Assert(err == nil && res.TotalCount == a.res.TotalCount && len(res.Problems) == own, "an answer is passed on")
	}
}

// HC20Accept: requests that accept an event stream are streamed, all others are
// searched.
//
// verif: prop=C20 quick.N=3 thorough.N=4 preempt=0 reach=stream,search
func HC20Accept() {
	n := v.Choose("n", v.Param("N", 2)+1)
	var parts []string
	want := false
	for i := 0; i < n; i++ {
		k := v.Choose("type", 9)
		parts = append(parts, []string{"text/event-stream", " text/event-stream", "TEXT/Event-Stream;q=0.5", "text/event-stream ; a=b", "*/*", "text/*", "application/json", "text/event-streams", "garbage//"}[k])
		want = want || k < 4
	}
	r := &http.Request{Method: "GET", URL: &url.URL{Path: "/"}, Header: http.Header{}}
	if n > 0 {
		r.Header.Set("Accept", strings.Join(parts, ","))
	}
	got := trcweb.Categorize(r)
	v.Assert((got == "stream") == want, "an event stream is recognised")
	if want {
		v.Reach("stream")
	} else {
		v.Reach("search")
	}
}

// listener is a streamer that keeps what it was asked for, sends some traces,
// and goes on until its context ends.
type listener struct {
	n     atomic.Int32
	f     trc.Filter
	size  int
	send  []trc.Trace
	ended atomic.Bool
	stats int
	err   error
}

func (l *listener) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	l.f, l.size = f, cap(ch)
	l.n.Add(1)
	if l.err != nil {
		l.ended.Store(true)
		return trc.StreamStats{}, l.err
	}
	for _, tr := range l.send {
		select {
		case ch <- tr:
		case <-ctx.Done():
		}
	}
	<-ctx.Done()
	l.ended.Store(true)
	return trc.StreamStats{}, ctx.Err()
}

func (l *listener) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	l.stats++
	return trc.StreamStats{Sends: 1, Skips: 2, Drops: 3}, l.err
}

// HC20Stream: any parameters of a stream request, with a streamer that works or
// not, and a client that goes away: the handler returns, having asked for just
// the stream described.
//
// verif: prop=C20 preempt=0 ticks=1 reach=refused,streamed
func HC20Stream() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var (
		l    = &listener{}
		q    = []string{"category=a", "finished"}
		bad  = false
		want = 100
	)
	if v.Choose("err", 2) == 1 {
		l.err = errors.New("no stream")
	}
	every := 10 * time.Second
	if v.Choose("stats", 2) == 1 {
		s := v.Str("stats", v.Choose("len", 4), "019.sm-")
		q = append(q, "stats="+s)
		if d, err := time.ParseDuration(s); err == nil {
			switch {
			case v.Is(d < time.Second):
				d = time.Second
			case v.Is(d > time.Minute):
				d = time.Minute
			}
			every = d
		}
	}
	switch v.Choose("sendbuf", 3) {
	case 1:
		b := v.Str("sendbuf", v.Choose("len", 3), "07-x")
		q = append(q, "sendbuf="+b)
		if n, ok := number(b); ok {
			want = v.IteInt(n < 0, 0, n)
		}
	case 2:
		q = append(q, "sendbuf=100001")
		want = 100000
	}
	if v.Choose("q", 2) == 1 {
		q = append(q, "q=%28") // not a regular expression
		bad = true
	}
	ctx, cancel := context.WithCancel(bg)
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: strings.Join(q, "&")}, Header: http.Header{}, Body: http.NoBody}).WithContext(ctx)
	r.Header.Set("Accept", "text/event-stream")
	rec := &recorder{h: http.Header{}}
	a := &asked{}
	s := &trcweb.TraceServer{Searcher: a, Streamer: l}
	v.Go("serve", func() { s.ServeHTTP(rec, r) })
	v.Settle()
	cancel()
	v.Wait()
	v.Assert(a.n == 0, "a stream is not searched")
	if bad {
		v.Reach("refused")
		v.Assert(rec.code == 400 && l.n.Load() == 0, "an invalid filter is refused")
		return
	}
	v.Reach("streamed")
	v.Assert(rec.code == 200 && l.n.Load() == 1, "one stream")
	v.Assert(l.ended.Load(), "the stream has ended when the handler returns")
	v.Assert(l.size == want, "the send buffer is in range, with a default")
	if ds := v.Intervals(); len(ds) > 0 {
		found := false
		for _, d := range ds {
			found = found || v.Is(d == every)
		}
		v.Assert(found, "the statistics interval is in range, with a default")
	}
	sameFilter(trc.Filter{Category: "a", IsFinished: true}, l.f, "filter")
}
