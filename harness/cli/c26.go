package cli

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// The sources of the command are laid beside this file; hx keeps the names
// apart.

var hxBG = context.Background()

const hxEra = 0x1798 << 48

func hxAt(ns int64) time.Time { return time.Unix(0, hxEra+ns).UTC() }

// hxServer is one trace server.
type hxServer struct {
	n      int
	req    trc.SearchRequest
	res    *trc.SearchResponse
	err    error
	path   string
	query  string // parameter "own" of the URI
	scheme string
	accum  atomic.Int32
	bad    int // stream connections that are answered with something else first
	badly  []byte
	tries  int

	f     trc.Filter
	size  int
	send  []trc.Trace
	ended atomic.Bool
}

func (s *hxServer) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	s.n++
	s.req = *req
	return s.res, s.err
}

func (s *hxServer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.f, s.size = f, cap(ch)
	s.accum.Add(1)
	for _, tr := range s.send {
		select {
		case ch <- tr:
		case <-ctx.Done():
		}
	}
	<-ctx.Done()
	s.ended.Store(true)
	return trc.StreamStats{}, ctx.Err()
}

func (s *hxServer) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) {
	return trc.StreamStats{}, nil
}

// hxNet is the network: what is sent to a known host arrives there.
type hxNet map[string]*hxServer

var errHX = errors.New("no such host")

func (n hxNet) RoundTrip(req *http.Request) (*http.Response, error) {
	s, ok := n[req.URL.Host]
	if !ok {
		return nil, errHX
	}
	s.path, s.query, s.scheme = req.URL.Path, req.URL.Query().Get("own"), req.URL.Scheme
	srv := &trcweb.TraceServer{Searcher: s, Streamer: s}
	if req.Header.Get("accept") == "text/event-stream" {
		ctx, cancel := context.WithCancel(hxBG)
		s.tries++
		if s.tries <= s.bad {
			cancel()
			if s.badly == nil {
				return nil, errHX
			}
			return &http.Response{StatusCode: 200, Status: "status", Header: http.Header{"Content-Type": {"text/event-stream"}}, Body: io.NopCloser(bytes.NewReader(s.badly)), Request: req}, nil
		}
		p := &hxPipe{h: http.Header{}, ready: make(chan struct{}), ch: make(chan []byte, 64), done: make(chan struct{}), closed: cancel}
		r := req.Clone(ctx)
		r.Body = http.NoBody
		v.Go("serve", func() {
			srv.ServeHTTP(p, r)
			close(p.ch)
		})
		<-p.ready
		return &http.Response{StatusCode: p.code, Status: "status", Header: p.h, Body: p, Request: req}, nil
	}
	rec := &hxRecorder{h: http.Header{}}
	r := req.Clone(req.Context())
	if r.Body == nil {
		r.Body = http.NoBody
	}
	srv.ServeHTTP(rec, r)
	if rec.code == 0 {
		rec.code = 200
	}
	return &http.Response{StatusCode: rec.code, Status: "status", Header: rec.h, Body: io.NopCloser(bytes.NewReader(rec.data)), Request: req}, nil
}

type hxRecorder struct {
	h    http.Header
	code int
	data []byte
}

func (r *hxRecorder) Header() http.Header { return r.h }
func (r *hxRecorder) WriteHeader(code int) {
	if r.code == 0 {
		r.code = code
	}
}
func (r *hxRecorder) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	r.data = append(r.data, p...)
	return len(p), nil
}

type hxPipe struct {
	h      http.Header
	code   int
	ready  chan struct{}
	ch     chan []byte
	rest   []byte
	done   chan struct{}
	once   sync.Once
	closed func()
}

func (p *hxPipe) Header() http.Header { return p.h }
func (p *hxPipe) WriteHeader(code int) {
	if p.code == 0 {
		p.code = code
		close(p.ready)
	}
}
func (p *hxPipe) Write(b []byte) (int, error) {
	select {
	case p.ch <- append([]byte(nil), b...):
		return len(b), nil
	case <-p.done:
		return 0, io.ErrClosedPipe
	}
}
func (p *hxPipe) Flush() {}
func (p *hxPipe) Read(b []byte) (int, error) {
	for len(p.rest) == 0 {
		select {
		case x, ok := <-p.ch:
			if !ok {
				return 0, io.EOF
			}
			p.rest = x
		case <-p.done:
			return 0, io.ErrClosedPipe
		}
	}
	n := copy(b, p.rest)
	p.rest = p.rest[n:]
	return n, nil
}
func (p *hxPipe) Close() error {
	p.once.Do(func() {
		close(p.done)
		p.closed()
	})
	return nil
}

// hxArgs is a set of filter flags and the filter they describe.
func hxArgs() (args []string, f trc.Filter) {
	// flag adds one flag in one of its forms.
	flag := func(short, long, val string) {
		forms := 2
		if short != "" {
			forms = 4
		}
		switch v.Choose("form", forms) {
		case 0:
			args = append(args, "--"+long, val)
		case 1:
			args = append(args, "--"+long+"="+val)
		case 2:
			args = append(args, "-"+short, val)
		case 3:
			args = append(args, "-"+short+val)
		}
	}
	boolean := func(short, long string) bool {
		forms := 3
		if short != "" {
			forms = 4
		}
		switch v.Choose("bform", forms) {
		case 1:
			args = append(args, "--"+long)
			return true
		case 2:
			args = append(args, "--"+long+"=false")
		case 3:
			args = append(args, "-"+short)
			return true
		}
		return false
	}
	switch v.Choose("which", 9) {
	case 1:
		f.Category = v.Str("category", 2, "aA &")
		flag("c", "category", f.Category)
	case 2:
		f.Query = v.Str("query", 2, "ab. ")
		flag("q", "query", f.Query)
	case 3:
		f.IDs = []string{v.Str("id", 1, "AB"), "C"}
		flag("i", "id", f.IDs[0])
		flag("i", "id", f.IDs[1])
	case 4:
		f.Sources = []string{v.Str("source", 2, "s=")}
		flag("", "source", f.Sources[0])
	case 5:
		d := time.Duration(v.Int64("ms", 0, 3)) * time.Millisecond
		f.MinDuration = &d
		flag("d", "duration", []string{"0s", "1ms", "2ms", "3ms"}[v.Split(int(d/time.Millisecond))])
	case 6:
		f.IsActive = boolean("a", "active")
		f.IsFinished = boolean("f", "finished")
	case 7:
		f.IsSuccess = boolean("", "success")
		f.IsErrored = boolean("", "errored")
	case 8:
		f.Category, f.Query, f.IsErrored = "cat", "q+", true
		args = append(args, "-c", "cat", "--query", "q+", "--errored")
	}
	return args, f
}

func hxSameStrings(a, b []string, label string) {
	v.Assert(len(a) == len(b), label)
	for i := range a {
		v.Assert(a[i] == b[i], label)
	}
}

func hxSameFilter(a, b trc.Filter) {
	hxSameStrings(a.Sources, b.Sources, "the sources are those of the flags")
	hxSameStrings(a.IDs, b.IDs, "the IDs are those of the flags")
	v.Assert(a.Category == b.Category, "the category is that of the flag")
	v.Assert(a.Query == b.Query, "the query is that of the flag")
	v.Assert(v.And(a.IsActive == b.IsActive, a.IsFinished == b.IsFinished, a.IsSuccess == b.IsSuccess, a.IsErrored == b.IsErrored), "the states are those of the flags")
	v.Assert((a.MinDuration == nil) == (b.MinDuration == nil), "the minimum duration is set by its flag only")
	if a.MinDuration != nil && b.MinDuration != nil {
		v.Assert(*a.MinDuration == *b.MinDuration, "the minimum duration is that of the flag")
	}
}

// HC26Search: any filter flags, in any of their forms: the server gets the
// search they describe, and the answer is printed.
//
// verif: prop=C26 preempt=0 maporder=none reach=end
func HC26Search() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	st := &trc.StaticTrace{TraceID: "A", TraceSource: "src", TraceCategory: "cat", TraceStarted: hxAt(5), TraceDuration: 7, TraceFinished: true,
		TraceEvents: []trc.Event{{When: hxAt(6), What: v.Str("what", 1, "a\n<")}}}
	s := &hxServer{res: &trc.SearchResponse{Sources: []string{"src"}, TotalCount: 4, MatchCount: 3, Traces: []*trc.StaticTrace{st}, Stats: trc.NewSearchStats(trc.DefaultBucketing)}}
	http.DefaultClient = &http.Client{Transport: hxNet{"one": s}}
	args, want := hxArgs()
	args = append([]string{"search", "-u", "one/p"}, args...)
	var stdout, stderr bytes.Buffer
	err := entry(hxBG, nil, &stdout, &stderr, args)
	v.Assert(err == nil, "the search succeeds")
	v.Assert(s.n == 1, "the server is asked once")
	v.Assert(s.path == "/p", "the server is asked at its path")
	hxSameFilter(want, s.req.Filter)
	v.Assert(s.req.Limit == 10, "the default limit")
	v.Assert(s.req.StackDepth == -1, "no stacks unless asked for")
	var res trc.SearchResponse
	v.Assert(json.Unmarshal(stdout.Bytes(), &res) == nil, "the answer is printed as JSON")
	v.Assert(res.TotalCount == 4 && res.MatchCount == 3, "the counts are printed")
	v.Assert(len(res.Traces) == 1 && res.Traces[0].TraceID == "A" && res.Traces[0].TraceEvents[0].What == st.TraceEvents[0].What, "the traces are printed")
	v.Assert(res.Request == nil && res.Stats == nil, "request and statistics are printed when asked for")
	v.Reach("end")
}

// hxAnswer is an answer with one trace.
func hxAnswer(id string, start int64) *trc.SearchResponse {
	st := &trc.StaticTrace{TraceID: id, TraceSource: "src" + id, TraceCategory: "cat", TraceStarted: hxAt(start), TraceFinished: true,
		TraceEvents: []trc.Event{{When: hxAt(start), What: "event"}}}
	return &trc.SearchResponse{Sources: []string{"src" + id}, TotalCount: 4, MatchCount: 3, Traces: []*trc.StaticTrace{st}, Stats: trc.NewSearchStats(trc.DefaultBucketing)}
}

// HC26Options: any limit, stack depth, output and URIs: every server is asked
// once, and the answers are printed as one, with what was asked for.
//
// verif: prop=C26 preempt=0 maporder=none reach=both,one,path,blank
func HC26Options() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	one, two := &hxServer{res: hxAnswer("A", 5)}, &hxServer{res: hxAnswer("B", 6)}
	net := hxNet{"one": one, "httpd": one, "https:81": one, "two:80": two}
	args := []string{"search", "--log=none"}
	limit, depth, n := 10, -1, 0
	withReq, withStats := false, false
	path, path2, own, scheme, blank := "/a/b", "/a/b", "", "http", false
	uri := []string{"-u", "one/a/b"}
	switch v.Choose("what", 5) {
	case 0:
		limit = []int{1, 9, 25, 250, 10, 10}[v.Choose("limit", 6)]
		switch limit {
		case 250:
			args = append(args, "--limit", "1000")
		case 25:
			args = append(args, "--limit=25")
		case 10:
			args = append(args, "-n0")
		default:
			args = append(args, "-n", strconv.Itoa(limit))
		}
		n = 2
	case 1:
		switch v.Choose("depth", 3) {
		case 0:
			depth = 1 + v.Choose("d", 3)
			args = append(args, "--stack-depth", strconv.Itoa(depth))
		case 1:
			args = append(args, "--stack-depth", "0")
		case 2:
			args = append(args, "--stack-depth=-1")
		}
		n = 2
	case 2:
		withReq, withStats = v.Bool("req"), v.Bool("stats")
		if withReq {
			args = append(args, "--include-request")
		}
		if withStats {
			args = append(args, "--include-stats")
		}
		n = 2
	case 3:
		switch v.Choose("output", 3) {
		case 0:
			args = append(args, "-o", "ndjson")
		case 1:
			args = append(args, "--output", "prettyjson")
		case 2:
			args = append(args, "-oprettyjson")
		}
		n = 2
	case 4:
		uri[1] = []string{"one/a/b", "http://one/a/b", " one/a/b", "httpd/a/b", "https:81/a/b", "one/a/b/", "http://one/a/b?own=x", "one", "one/A/b%20c", "https://one/a/b?z=1&own=X%26"}[v.Choose("uri1", 10)]
		switch uri[1] {
		case "one/a/b/":
			path = "/a/b/"
		case "http://one/a/b?own=x":
			own = "x"
		case "https://one/a/b?z=1&own=X%26":
			own, scheme = "X&", "https"
		case "one/A/b%20c":
			path = "/A/b c"
		case "one":
			path = ""
		}
		if v.Bool("uripath") {
			path = []string{"/c", "/c/d/"}[v.Choose("newpath", 2)]
			args = append(args, "--uri-path", path)
			path2 = path
			v.Reach("path")
		}
		if v.Bool("blank") { // names no server; the others are asked all the same
			blank = true
			args = append(args, "-u", []string{"", " "}[v.Choose("empty", 2)])
			v.Reach("blank")
		}
		n = v.Choose("uris", 4)
	}
	args = append(args, uri...)
	switch n {
	case 1: // the same again
		args = append(args, uri...)
	case 2:
		args = append(args, "--uri", "two:80/a/b")
	case 3:
		args = append(args, "--uri=http://two:80/a/b")
		delete(net, "two:80") // cannot be reached
	}
	http.DefaultClient = &http.Client{Transport: net}
	var stdout, stderr bytes.Buffer
	err := entry(hxBG, nil, &stdout, &stderr, args)
	if blank && err != nil { // could as well be refused
		v.Assert(one.n+two.n == 0 && stdout.Len() == 0, "no server is asked, no answer is printed")
		return
	}
	v.Assert(err == nil, "the search succeeds")
	v.Assert(one.n == 1, "each server is asked once")
	v.Assert(one.path == path || (path == "" && one.path == "/"), "each server is asked at its path")
	v.Assert(one.query == own && one.scheme == scheme, "each server is asked at its URI")
	v.Assert(one.req.Limit == limit && one.req.StackDepth == depth, "limit and stack depth are those of the flags")
	asked := 1
	if n == 2 {
		asked = 2
		v.Assert(two.n == 1 && two.path == path2, "each server is asked once")
		v.Assert(two.req.Limit == limit && two.req.StackDepth == depth, "limit and stack depth are those of the flags")
	} else {
		v.Assert(two.n == 0, "only the given servers are asked")
	}
	var res trc.SearchResponse
	v.Assert(json.Unmarshal(stdout.Bytes(), &res) == nil, "the answer is printed as JSON")
	v.Assert(res.TotalCount == 4*asked && res.MatchCount == 3*asked, "the counts are printed")
	v.Assert((res.Request != nil) == withReq && (res.Stats != nil) == withStats, "request and statistics are printed when asked for")
	if withReq {
		v.Assert(res.Request.Limit == limit, "the request is printed as it was made")
	}
	if !blank {
		v.Assert((len(res.Problems) > 0) == (n == 3), "a server that fails is a problem of the answer")
	}
	ids := ""
	for _, tr := range res.Traces {
		ids += tr.TraceID
	}
	want := "A"
	if n == 2 {
		want = "BA"
		if limit == 1 {
			want = "B"
		}
		v.Reach("both")
	} else {
		v.Reach("one")
	}
	v.Assert(ids == want, "the newest traces are printed, newest first")
}

// HC26Refused: arguments that describe no search or stream are refused, and no
// server is asked.
//
// verif: prop=C26 preempt=0 maporder=none reach=end
func HC26Refused() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	one := &hxServer{res: hxAnswer("A", 5)}
	http.DefaultClient = &http.Client{Transport: hxNet{"one": one}}
	cmd := []string{"search", "stream"}[v.Choose("cmd", 2)]
	var args []string
	help := false
	switch v.Choose("how", 9) {
	case 0:
		args = []string{cmd}
	case 1:
		args = []string{cmd, "-u", "one", "--nonesuch"}
	case 2:
		args = []string{cmd, "-u", "one", "--log", "loud"}
	case 3:
		args = []string{cmd, "-u", "one", "--duration", "soon"}
	case 4:
		args = []string{cmd, "-u", "one", "--output=xml"}
	case 5:
		args = []string{cmd, "-u", "o ne"}
	case 6:
		args = []string{cmd, "-u"}
	case 7:
		args = []string{cmd, "-u", "one", "-h"}
		help = true
	case 8:
		args = []string{"-u", "one"}
		help = true
	}
	var stdout, stderr bytes.Buffer
	err := entry(hxBG, nil, &stdout, &stderr, args)
	v.Assert((err == nil) == help, "what cannot be understood is an error, asking for help is none")
	v.Assert(one.n == 0 && one.accum.Load() == 0, "no server is asked")
	v.Assert(stdout.Len() == 0, "no answer is printed")
	v.Reach("end")
}

// hxLines collects what is printed.
type hxLines struct {
	mu    sync.Mutex
	data  []byte
	wrote chan struct{}
}

func (l *hxLines) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.data = append(l.data, p...)
	l.mu.Unlock()
	select {
	case l.wrote <- struct{}{}:
	default:
	}
	return len(p), nil
}

// HC26Filter: any filter flags: the server is asked for the stream they
// describe.
//
// verif: prop=C26 preempt=0 delays=0 maporder=none flags=norace reach=events,traces
func HC26Filter() { hxStream(true) }

// HC26Stream: any buffers, output and servers: every trace received is printed
// once, those of one server in order, and the command ends with its context.
//
// verif: prop=C26 preempt=0 quick.delays=1 thorough.delays=2 maporder=none flags=norace reach=events,traces,two
func HC26Stream() { hxStream(false) }

func hxStream(filter bool) {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	st := func(id string) *trc.StaticTrace {
		return &trc.StaticTrace{TraceID: id, TraceSource: "src", TraceCategory: "cat", TraceStarted: hxAt(5), TraceFinished: true,
			TraceEvents: []trc.Event{{When: hxAt(6), What: "event " + id}}}
	}
	one := &hxServer{send: []trc.Trace{st("A"), st("B")}}
	two := &hxServer{}
	http.DefaultClient = &http.Client{Transport: hxNet{"one": one, "two:80": two}}
	args := []string{"stream", "--log", "n", "-u", "one/p"}
	var want trc.Filter
	size, n := 100, 1
	what := 0
	if !filter {
		what = 1 + v.Choose("what", 3)
	}
	switch what {
	case 0:
		var more []string
		more, want = hxArgs()
		args = append(args, more...)
	case 1:
		size = 1 + v.Choose("size", 2)
		args = append(args, "--send-buffer", strconv.Itoa(size), "--recv-buffer", strconv.Itoa(v.Choose("recv", 2)))
	case 2:
		args = append(args, "-o", []string{"ndjson", "prettyjson"}[v.Choose("output", 2)])
	case 3:
		n = 2
		args = append(args, "-u", "http://two:80/p")
		v.Reach("two")
	}
	want.IsActive, want.IsFinished = false, true
	events := v.Choose("events", 3)
	switch events {
	case 1:
		args = append(args, "-e")
		want.IsFinished = false
		v.Reach("events")
	case 2:
		args = append(args, "--events")
		want.IsFinished = false
	default:
		v.Reach("traces")
	}
	ctx, cancel := context.WithCancel(hxBG)
	stdout := &hxLines{wrote: make(chan struct{}, 64)}
	var stderr hxLines
	var err error
	v.Go("command", func() { err = entry(ctx, nil, stdout, &stderr, args) })
	printed := func() []*trc.StaticTrace {
		stdout.mu.Lock()
		defer stdout.mu.Unlock()
		var out []*trc.StaticTrace
		dec := json.NewDecoder(bytes.NewReader(stdout.data))
		for {
			var tr trc.StaticTrace
			if dec.Decode(&tr) != nil {
				return out
			}
			out = append(out, &tr)
		}
	}
	for len(printed()) < 2 {
		<-stdout.wrote
	}
	v.Settle()
	for i, s := range []*hxServer{one, two}[:n] {
		v.Assert(s.accum.Load() == 1, "each server is asked for one stream")
		v.Assert(s.path == "/p", "each server is asked at its path")
		v.Assert(s.size == size, "the send buffer is that of the flag")
		hxSameFilter(want, s.f)
		v.Assert(!s.ended.Load(), "the streams go on")
		_ = i
	}
	v.Assert(two.accum.Load() == int32(n-1), "only the given servers are asked")
	cancel()
	v.Wait()
	v.Assert(errors.Is(err, context.Canceled) || err == nil, "the command ends with its context")
	v.Assert(one.ended.Load(), "the streams end with it")
	trs := printed()
	v.Assert(len(trs) == 2, "every trace is printed once")
	v.Assert(trs[0].TraceID == "A" && trs[1].TraceID == "B", "traces are printed in order")
	v.Assert(trs[0].TraceEvents[0].What == "event A" && trs[0].TraceFinished, "traces are printed as they are")
}

// HC26Retry: a server that cannot be reached, or sends nonsense, at first is
// asked again; its traces are printed, as are those of the others.
//
// verif: prop=C26 preempt=0 quick.delays=1 thorough.delays=2 maporder=none flags=norace reach=end
func HC26Retry() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	st := func(id string) *trc.StaticTrace {
		return &trc.StaticTrace{TraceID: id, TraceSource: "src", TraceCategory: "cat", TraceStarted: hxAt(5), TraceFinished: true}
	}
	one := &hxServer{send: []trc.Trace{st("A"), st("B")}, bad: 1 + v.Choose("bad", 2)}
	switch v.Choose("badly", 4) {
	case 1:
		one.badly = []byte("event: trace\ndata: {\n\n")
	case 2:
		one.badly = []byte("event: stats\ndata: 1\n\n")
	case 3:
		one.badly = []byte("event: trace\ndata: {\"id\":\"Z\"}\n\n")
	}
	two := &hxServer{send: []trc.Trace{st("C")}}
	http.DefaultClient = &http.Client{Transport: hxNet{"one": one, "two": two}}
	want := 3
	if bytes.Contains(one.badly, []byte("Z")) {
		want += one.bad // complete events of a connection that broke count
	}
	ctx, cancel := context.WithCancel(hxBG)
	stdout := &hxLines{wrote: make(chan struct{}, 64)}
	var err error
	v.Go("command", func() {
		err = entry(ctx, nil, stdout, &hxLines{}, []string{"stream", "--log=n", "-u", "one", "-u", "two"})
	})
	for i := 0; i < want; i++ {
		<-stdout.wrote
	}
	v.Settle()
	cancel()
	v.Wait()
	v.Assert(errors.Is(err, context.Canceled) || err == nil, "the command ends with its context")
	ids, n := "", 0
	dec := json.NewDecoder(bytes.NewReader(stdout.data))
	for {
		var tr trc.StaticTrace
		if dec.Decode(&tr) != nil {
			break
		}
		n++
		if tr.TraceID != "C" && tr.TraceID != "Z" {
			ids += tr.TraceID
		}
	}
	v.Assert(n == want, "every trace is printed once")
	v.Assert(ids == "AB", "traces are printed in order")
	v.Assert(one.accum.Load() == 1 && two.accum.Load() == 1, "a stream that works is not started again")
	v.Reach("end")
}

// HC26Many: any number of servers: every one is asked, and what they answer is
// printed.
//
// verif: prop=C26 K=150 steps=60000000 preempt=0 delays=0 maporder=none flags=norace reach=search,stream
func HC26Many() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	k := v.Param("K", 150)
	net := hxNet{}
	stream := v.Choose("stream", 2) == 1
	args := []string{"search", "--log=n", "-n", "200"}
	if stream {
		args = []string{"stream", "--log=n"}
	}
	id := func(i int) string { return "T" + strconv.Itoa(i) }
	for i := 0; i < k; i++ {
		host := "h" + strconv.Itoa(i)
		s := &hxServer{res: hxAnswer(id(i), int64(i))}
		s.send = []trc.Trace{s.res.Traces[0]}
		net[host] = s
		args = append(args, "-u", host+"/p")
	}
	http.DefaultClient = &http.Client{Transport: net}
	if !stream {
		var stdout, stderr bytes.Buffer
		err := entry(hxBG, nil, &stdout, &stderr, args)
		v.Assert(err == nil, "the search succeeds")
		for i := 0; i < k; i++ {
			s := net["h"+strconv.Itoa(i)]
			v.Assert(s.n == 1 && s.path == "/p", "each server is asked once")
		}
		var res trc.SearchResponse
		v.Assert(json.Unmarshal(stdout.Bytes(), &res) == nil, "the answer is printed as JSON")
		v.Assert(res.TotalCount == 4*k && res.MatchCount == 3*k && len(res.Problems) == 0, "the counts are printed")
		v.Assert(len(res.Traces) == k && len(res.Sources) == k, "the traces are printed")
		for i, tr := range res.Traces {
			v.Assert(tr.TraceID == id(k-1-i), "the newest traces are printed, newest first")
		}
		v.Reach("search")
		return
	}
	ctx, cancel := context.WithCancel(hxBG)
	stdout := &hxLines{wrote: make(chan struct{}, 4*k)}
	var err error
	v.Go("command", func() { err = entry(ctx, nil, stdout, &hxLines{}, args) })
	for i := 0; i < k; i++ {
		<-stdout.wrote
	}
	v.Settle()
	cancel()
	v.Wait()
	v.Assert(errors.Is(err, context.Canceled) || err == nil, "the command ends with its context")
	seen := map[string]int{}
	dec := json.NewDecoder(bytes.NewReader(stdout.data))
	for {
		var tr trc.StaticTrace
		if dec.Decode(&tr) != nil {
			break
		}
		seen[tr.TraceID]++
	}
	v.Assert(len(seen) == k, "every trace is printed once")
	for i := 0; i < k; i++ {
		v.Assert(seen[id(i)] == 1, "every trace is printed once")
		v.Assert(net["h"+strconv.Itoa(i)].accum.Load() == 1, "each server is asked for one stream")
	}
	v.Reach("stream")
}
