// Package web holds the harnesses for package trcweb.
package web

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/peterbourgon/trc"
	"github.com/peterbourgon/trc/internal/trcutil"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

var bg = context.Background()

// wcall is one call on a response writer.
type wcall struct {
	op   string
	code int
	data string
	n    int
	err  error
}

// writer records calls, and answers writes as it is told.
type writer struct {
	h     http.Header
	calls []wcall
	n     int
	err   error
}

func (w *writer) Header() http.Header { return w.h }
func (w *writer) WriteHeader(code int) {
	w.calls = append(w.calls, wcall{op: "header", code: code})
}
func (w *writer) Write(p []byte) (int, error) {
	w.calls = append(w.calls, wcall{op: "write", data: string(p), n: w.n, err: w.err})
	return w.n, w.err
}

// flusher is a writer that can flush.
type flusher struct{ writer }

func (w *flusher) Flush() { w.calls = append(w.calls, wcall{op: "flush"}) }

var errWrite = errors.New("broken pipe")

func request(method, target string) *http.Request {
	u, err := url.Parse(target)
	if err != nil {
		v.Fail("harness: bad URL")
	}
	return (&http.Request{Method: method, URL: u, Header: http.Header{}, RemoteAddr: "1.2.3.4:5"}).WithContext(bg)
}

type ctxKey struct{}

// HC22Transparent: whatever the handler does with its response writer.
//
// verif: prop=C22 quick.N=2 thorough.N=4 preempt=0 reach=panicked,returned,flushed,flushless,code,default
func HC22Transparent() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var (
		fw       = &flusher{writer{h: http.Header{}}}
		rec      = &fw.writer
		canFlush = v.Choose("can flush", 2) == 1
		category = v.Str("category", 1, "aA b")
		c        = trc.NewDefaultCollector()
		tr       trc.Trace
		made     int
		orig     = request("GET", "/some/path?x=y")
		handled  int
		seen     *http.Request
		want     []wcall
		first    int
		sent     int
		boom     = []any{nil, "boom", http.ErrAbortHandler}[v.Choose("panic", 3)]
	)
	orig.Header.Set("User-Agent", "agent")
	orig.Host, orig.ContentLength, orig.RequestURI, orig.Form = "host", 3, "/some/path?x=y", url.Values{"k": {"v"}}
	orig.Body = &body{}
	rctx, cancel := context.WithCancel(context.WithValue(bg, ctxKey{}, "value"))
	defer cancel()
	orig = orig.WithContext(rctx)
	gone := v.Bool("the client goes away")
	var w http.ResponseWriter = rec
	if canFlush {
		w = fw
	}
	mid := trcweb.Middleware(
		func(ctx context.Context, cat string) (context.Context, trc.Trace) {
			v.Assert(cat == category, "the category is the one chosen for the request")
			made++
			ctx, tr = c.NewTrace(ctx, cat)
			return ctx, tr
		},
		func(r *http.Request) string {
			v.Assert(r.URL.String() == orig.URL.String(), "the category is chosen from the request")
			return category
		},
	)
	next := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		handled++
		seen = r
		v.Assert(trc.Get(r.Context()).ID() == tr.ID(), "the handler's context carries the new trace")
		v.Assert(!tr.Finished(), "the trace is active while the handler runs")
		n := v.Param("N", 2)
		for i := 0; i < n; i++ {
			switch v.Choose("op", 5) {
			case 0:
				i = n
			case 1:
				code := v.Int("code", 100, 999)
				if first == 0 {
					first = code
				}
				want = append(want, wcall{op: "header", code: code})
				w.WriteHeader(code)
			case 2:
				data := []byte(v.Str("data", v.Choose("len", 3), "ab"))
				rec.n = v.Int("n", 0, 1<<41) // beyond the data's length: the middleware must not care
				rec.err = nil
				if v.Bool("fails") {
					rec.err = errWrite
				}
				sent += rec.n
				want = append(want, wcall{op: "write", data: string(data), n: rec.n, err: rec.err})
				n, err := w.Write(data)
				v.Assert(n == rec.n && err == rec.err, "the result of a write is passed through")
			case 3:
				if f, ok := w.(http.Flusher); ok {
					f.Flush()
				} else {
					v.Assert(!canFlush, "a writer that can flush still can")
				}
				if canFlush {
					v.Reach("flushed")
					want = append(want, wcall{op: "flush"})
				} else {
					v.Reach("flushless")
				}
			case 4:
				w.Header().Set("X-Thing", "value")
				v.Assert(rec.h.Get("X-Thing") == "value", "headers are passed through")
			}
		}
		v.Assert(r.Context().Value(ctxKey{}) == "value", "the handler's context has the values of the request's context")
		v.Assert(r.Context().Err() == nil, "the handler's context is not done before the request's context is")
		if gone {
			cancel()
			v.Assert(r.Context().Err() == context.Canceled, "the handler's context is done when the request's context is")
		}
		if boom != nil {
			panic(boom)
		}
	})
	func() {
		defer func() {
			x := recover()
			v.Assert((x != nil) == (boom != nil), "a panic of the handler goes on, and there is no other")
			v.Assert(x == boom, "the panic is unchanged")
		}()
		mid(next).ServeHTTP(w, orig)
	}()
	v.Assert(made == 1 && handled == 1, "one trace and one call of the handler")
	v.Assert(seen.Method == "GET" && seen.URL.String() == orig.URL.String() && seen.Header.Get("User-Agent") == "agent", "the handler sees the request")
	v.Assert(seen.Host == "host" && seen.ContentLength == 3 && seen.RequestURI == "/some/path?x=y" && seen.Form.Get("k") == "v" && seen.Body == orig.Body && seen.RemoteAddr == "1.2.3.4:5", "the handler sees the request as it is")
	v.Assert(len(rec.calls) == len(want), "no call on the writer is lost or added")
	for i := range want {
		v.Assert(rec.calls[i] == want[i], "calls on the writer are passed through unchanged, in order")
	}
	if boom != nil {
		v.Reach("panicked")
	} else {
		v.Reach("returned")
	}
	v.Assert(tr.Finished(), "the trace is finished")
	if first == 0 {
		first = 200
		v.Reach("default")
	} else {
		v.Reach("code")
	}
	events := tr.Events()
	if len(events) == 0 {
		v.Fail("the trace has no event")
	}
	last := events[len(events)-1].What
	v.Assert(strings.HasPrefix(last, fmt.Sprintf("HTTP %d, %s", first, trcutil.HumanizeBytes(sent))), "the last event has the first status code and the bytes written")
	v.Assert(trc.Get(orig.Context()).ID() != tr.ID(), "the caller's request keeps its context")
}
