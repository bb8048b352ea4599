package web

import (
	"errors"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// anyTraces is a population of n traces in arbitrary states.
func anyTraces(n int) []*ft {
	var ts []*ft
	last := int64(0)
	for i := 0; i < n; i++ {
		off := v.Int64("start", 0, 1<<40-1)
		v.Assume(off > last)
		last = off
		t := &ft{
			id:       string(rune('A' + i)),
			category: []string{"a", "b"}[v.Choose("cat", 2)],
			started:  at(off),
			dur:      time.Duration(v.Int64("dur", 0, 1<<40-1)),
			finished: v.Bool("finished"),
			errored:  v.Bool("errored"),
		}
		for j := 0; j <= i%2; j++ {
			t.events = append(t.events, trc.Event{
				When:    at(v.Int64("when", 0, 1<<40-1)),
				What:    v.Str("what", 2, "ab\"\n<"),
				IsError: v.Bool("iserror"),
				Stack:   []trc.Frame{{Function: "f", FileLine: "g.go:1"}, {Function: "h", FileLine: v.Str("file", 1, "xy") + ".go:2"}},
			})
		}
		ts = append(ts, t)
	}
	return ts
}

// anyRequest is a request, twice.
func anyRequest() (a, b *trc.SearchRequest) {
	var f trc.Filter
	switch v.Choose("filter", 7) {
	case 1:
		f.Category = []string{"a", "b", "c"}[v.Choose("fcat", 3)]
	case 2:
		f.IsActive, f.IsFinished, f.IsSuccess, f.IsErrored = v.Bool("fa"), v.Bool("ff"), v.Bool("fs"), v.Bool("fe")
	case 3:
		d := time.Duration(v.Int64("min", 0, 1<<40-1))
		f.MinDuration = &d
	case 4:
		f.IDs = []string{"A", v.Str("fid", 1, "BZ")}
	case 5:
		f.Sources = []string{[]string{"src", "other"}[v.Choose("fsrc", 2)]}
	case 6:
		f.Query = []string{"a", "(", "^b+$"}[v.Choose("query", 3)]
	}
	limit, depth := v.Int("limit", -1, 300), v.Int("depth", -1, 3)
	var bucketing []time.Duration
	if v.Choose("buckets", 2) == 1 {
		bucketing = []time.Duration{time.Duration(v.Int64("b", 1, 1<<40)), 0}
	}
	mk := func() *trc.SearchRequest {
		g := f
		if f.MinDuration != nil {
			d := *f.MinDuration
			g.MinDuration = &d
		}
		return &trc.SearchRequest{Filter: g, Limit: limit, StackDepth: depth, Bucketing: append([]time.Duration(nil), bucketing...)}
	}
	return mk(), mk()
}

// compare searches directly and through the server.
func compare(c *trc.Collector, r1, r2 *trc.SearchRequest) *trc.SearchResponse {
	local, err := c.Search(bg, r1)
	v.Assert(err == nil, "a local search does not fail")
	w := &wire{h: trcweb.NewTraceServer(c)}
	remote, err := trcweb.NewSearchClient(w, "host/path").Search(bg, r2)
	v.Assert(err == nil && remote != nil, "the remote search succeeds")
	sameResponse(local, remote)
	v.Assert(w.n == 1, "one request")
	return local
}

// HC19Traces: traces in any state come through the server as they are.
//
// verif: prop=C19 quick.N=1 thorough.N=2 preempt=0 maporder=none reach=end
func HC19Traces() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := collectorOf(anyTraces(v.Param("N", 2)))
	depth := v.Int("depth", -1, 3)
	compare(c, &trc.SearchRequest{StackDepth: depth}, &trc.SearchRequest{StackDepth: depth})
	v.Reach("end")
}

// HC19Request: any request is answered through the server as it is directly.
//
// verif: prop=C19 preempt=0 maporder=none reach=none,some,problem
func HC19Request() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var (
		stack = []trc.Frame{{Function: "f", FileLine: "g.go:1"}, {Function: "h", FileLine: "i.go:2"}}
		e     = trc.Event{When: at(7), What: "a", Stack: stack}
		ee    = trc.Event{When: at(8), What: "bb", Stack: stack, IsError: true}
		d     = time.Duration(v.Int64("dur", 0, 1<<40-1))
	)
	c := collectorOf([]*ft{
		{id: "A", category: "a", started: at(1), dur: d, finished: true, events: []trc.Event{e}},
		{id: "B", category: "b", started: at(2), dur: d + 1, finished: true, errored: true, events: []trc.Event{e, ee}},
		{id: "C", category: "a", started: at(3), dur: 5},
	})
	r1, r2 := anyRequest()
	local := compare(c, r1, r2)
	if len(local.Traces) == 0 {
		v.Reach("none")
	} else {
		v.Reach("some")
	}
	if len(local.Problems) > 0 {
		v.Reach("problem")
	}
}

// HC19Fault: an exchange that fails, in any way, is an error.
//
// verif: prop=C19 preempt=0 reach=transport,status,cut,broken,garbage
func HC19Fault() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := collectorOf([]*ft{{id: "A", category: "a", started: at(1), finished: true, dur: time.Second}})
	w := &wire{h: trcweb.NewTraceServer(c)}
	fault := errors.New("connection reset")
	var is error
	w.edit = func(res *http.Response) (*http.Response, error) {
		data := make([]byte, w.last.r.Len())
		w.last.r.Read(data)
		give := func(data []byte, err error) {
			w.last = newBody(data, err)
			res.Body = w.last
		}
		switch v.Choose("fault", 5) {
		case 0:
			v.Reach("transport")
			w.last = nil
			is = fault
			return nil, fault
		case 1:
			v.Reach("status")
			res.StatusCode = v.Int("status", 100, 599)
			v.Assume(res.StatusCode != 200)
			give(data, nil)
		case 2: // the last bytes are a brace and a newline
			v.Reach("cut")
			give(data[:v.Choose("cut", len(data)-1)], nil)
		case 3:
			v.Reach("broken")
			is = fault
			give(data[:v.Choose("cut", len(data)-1)], fault)
		case 4:
			v.Reach("garbage")
			give([]byte([]string{"<html>", "[]", "1", `"x"`, `{"response":[]}`, `{"response":{"traces":{}}}`, `{"response":{"total_count":"x"}}`, `{"response":{"traces":[{"started":"x"}]}}`}[v.Choose("garbage", 8)]), nil)
		}
		return res, nil
	}
	res, err := trcweb.NewSearchClient(w, "http://host").Search(bg, &trc.SearchRequest{})
	v.Assert(err != nil && res == nil, "a failed exchange is an error")
	if is != nil {
		v.Assert(errors.Is(err, is), "the error tells the cause")
	}
	if w.last != nil {
		v.Assert(w.last.closed > 0, "the response body is closed")
	}
}

// uris are ways of naming a server, with the scheme and host they mean.
var uris = [][3]string{
	{"host/path", "http", "host"}, {"http://host/path", "http", "host"}, {"https://host/path", "https", "host"},
	{"httpd/path", "http", "httpd"}, {"http:81/path", "http", "http:81"}, {"https-in:443/path", "http", "https-in:443"}, {"h:1/path", "http", "h:1"},
}

// HC19Hosts: whatever the server is called, the search goes there.
//
// verif: prop=C19 preempt=0 maporder=none reach=end
func HC19Hosts() {
	u := uris[v.Choose("uri", len(uris))]
	w := &wire{h: trcweb.NewTraceServer(trc.NewDefaultCollector())}
	_, err := trcweb.NewSearchClient(w, u[0]).Search(bg, &trc.SearchRequest{})
	v.Assert(err == nil, "the server is asked")
	v.Assert(w.url.Scheme == u[1] && w.url.Host == u[2] && w.url.Path == "/path", "the server that is named is asked")
	v.Reach("end")
}

// HC19Large: answers with many categories, and with much text, come through.
//
// verif: prop=C19 preempt=0 maporder=none samples=1 steps=200000000 reach=many,long
func HC19Large() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var ts []*ft
	if v.Choose("which", 2) == 0 {
		v.Reach("many")
		for i := 0; i < 120; i++ {
			ts = append(ts, &ft{id: "A", category: "c" + strconv.Itoa(i), started: at(int64(i + 1)), finished: i%2 == 0, dur: 7})
		}
	} else {
		v.Reach("long")
		text := strings.Repeat("0123456789abcdef", 1<<v.Param("long", 13))
		for i := 0; i < 17; i++ {
			ts = append(ts, &ft{id: "A", category: "a", started: at(int64(i + 1)), events: []trc.Event{{When: at(7), What: text}}})
		}
	}
	local := compare(collectorOf(ts), &trc.SearchRequest{Limit: 250}, &trc.SearchRequest{Limit: 250})
	v.Assert(len(local.Traces) == len(ts) && len(local.Stats.Categories) > 0, "everything is returned")
}

// HC19Servers: however the server was made, it answers for its collector.
//
// verif: prop=C19 preempt=0 maporder=none reach=end
func HC19Servers() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c, h := server(v.Choose("server", 6))
	for i := v.Choose("traces", 3); i > 0; i-- {
		_, tr := c.NewTrace(bg, []string{"a", "b"}[v.Choose("category", 2)])
		tr.Tracef("event")
		if v.Bool("errored") {
			tr.Errorf("error")
		}
		tr.Finish()
	}
	mk := func() *trc.SearchRequest {
		return &trc.SearchRequest{Filter: trc.Filter{Category: "a"}, Limit: 1}
	}
	want, err := c.Search(bg, mk())
	v.Assert(err == nil, "the local search succeeds")
	got, err := trcweb.NewSearchClient(&wire{h: h}, "host").Search(bg, mk())
	v.Assert(err == nil, "the remote search succeeds")
	without := func(r *trc.SearchResponse) { // the middleware's own trace
		delete(r.Stats.Categories, "traces")
		r.TotalCount = 0
		for _, cs := range r.Stats.Categories {
			r.TotalCount += cs.TotalCount()
		}
	}
	without(want)
	without(got)
	sameResponse(want, got)
	v.Reach("end")
}
