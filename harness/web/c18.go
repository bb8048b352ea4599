package web

import (
	"net/http"
	"net/url"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/eztrc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// servers are the ways to make a trace server.
func server(kind int) (*trc.Collector, http.Handler) {
	c := trc.NewDefaultCollector()
	switch kind {
	case 0:
		return c, trcweb.NewTraceServer(c)
	case 1:
		return c, &trcweb.TraceServer{Collector: c}
	case 2:
		return c, &trcweb.TraceServer{Collector: c, Searcher: trc.MultiSearcher{c}}
	case 3:
		return c, &trcweb.TraceServer{Searcher: c, Streamer: c}
	case 4:
		return c, trcweb.Middleware(c.NewTrace, trcweb.Categorize)(&trcweb.TraceServer{Collector: c})
	default:
		return eztrc.Collector(), eztrc.Handler()
	}
}

// HC18Server: requests to one trace server at once, however it was made, while
// traces are written.
//
// verif: prop=C18 quick.preempt=0 thorough.preempt=1 maporder=none reach=end
func HC18Server() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c, h := server(v.Choose("server", 6))
	ctx, tr := c.NewTrace(bg, "cat")
	tr.LazyTracef("one %d", 1)
	request := func() {
		r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: "q=one"}, Header: http.Header{"Accept": {"application/json"}}, Body: http.NoBody}).WithContext(bg)
		rec := &recorder{h: http.Header{}}
		h.ServeHTTP(rec, r)
		v.Assert(rec.code == 200, "the search is answered")
	}
	v.Go("one", request)
	switch v.Choose("other", 3) {
	case 0:
		v.Go("two", request)
	case 1:
		v.Go("two", func() { eztrc.Tracef(ctx, "two"); tr.Finish() })
	case 2:
		v.Go("two", func() {
			res, err := trcweb.NewSearchClient(&wire{h: h}, "host").Search(bg, &trc.SearchRequest{})
			v.Assert(err == nil && res.TotalCount >= 1, "the search is answered")
		})
	}
	v.Wait()
	v.Reach("end")
}
