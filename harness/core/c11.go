package core

import (
	"context"
	"errors"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// answer is a searcher with a given answer.
type answer struct {
	res *trc.SearchResponse
	err error
	req *trc.SearchRequest
	n   int
}

func (a *answer) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	v.Yield()
	a.req = req
	a.n++
	return a.res, a.err
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func countOf(ss []string, s string) int {
	n := 0
	for _, x := range ss {
		if x == s {
			n++
		}
	}
	return n
}

// HC11Gather: searchers that answer, fail, answer nothing or both, arriving in
// any order.
//
// verif: prop=C11 quick.S=2 thorough.S=3 preempt=0 reach=all,partial
func HC11Gather() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	s := v.Choose("searchers", v.Param("S", 2)+1)
	var ms trc.MultiSearcher
	var as []*answer
	total, match, ntraces := 0, 0, 0
	var want []string // expected IDs of traces
	var problems []string
	var kinds []int
	events := 0
	for i := 0; i < s; i++ {
		a := &answer{}
		k := v.Choose("kind", 5)
		kinds = append(kinds, k)
		if k == 1 || k == 3 {
			a.err = errors.New("failure " + string(rune('0'+i)))
		}
		if k == 0 || k == 3 || k == 4 {
			t := &trc.StaticTrace{TraceID: string(rune('A' + i)), TraceCategory: "cat", TraceStarted: at(int64(i)), TraceEvents: make([]trc.Event, i+1)}
			tc, mc := v.Int("total", 0, 1<<40-1), v.Int("match", 0, 1<<40)
			total, match, ntraces = total+tc, match+mc, ntraces+1
			a.res = &trc.SearchResponse{Sources: []string{"z", string(rune('s' - i))}, TotalCount: tc, MatchCount: mc, Traces: []*trc.StaticTrace{t}, Problems: []string{"own " + string(rune('0'+i))}}
			if k != 4 {
				a.res.Stats = trc.NewSearchStats(trc.DefaultBucketing)
				a.res.Stats.Observe(t)
				events += i + 1
			}
			want = append([]string{t.TraceID}, want...)
			problems = append(problems, "own "+string(rune('0'+i)))
		}
		ms, as = append(ms, a), append(as, a)
	}
	req := &trc.SearchRequest{Limit: 1 + v.Choose("limit", s+1)}
	res, err := ms.Search(bg, req)
	v.Assert(err == nil && res != nil, "the search as a whole does not fail")
	for _, a := range as {
		v.Assert(a.n == 1, "every searcher is asked once")
	}
	v.Assert(res.TotalCount == total, "total counts are summed")
	v.Assert(res.MatchCount == match, "match counts are summed")
	if len(want) > req.Limit {
		want = want[:req.Limit]
	}
	sameIDs(res.Traces, want, "newest of all answers")
	nok := 0
	var sources []string
	for i, a := range as {
		if a.res != nil {
			nok++
			for _, src := range a.res.Sources {
				v.Assert(countOf(res.Sources, src) == 1, "every source is listed once")
				if !has(sources, src) {
					sources = append(sources, src)
				}
			}
		}
		if a.err != nil {
			found := false
			for _, p := range res.Problems {
				found = found || contains(p, a.err.Error())
			}
			v.Assert(found, "a failure is a problem")
			if a.res == nil {
				problems = append(problems, "")
			} else {
				problems = append(problems, "")
			}
		}
		if kinds[i] == 2 {
			problems = append(problems, "")
		}
	}
	v.Assert(len(res.Sources) == len(sources), "only sources that answered are listed")
	for i := 1; i < len(res.Sources); i++ {
		v.Assert(res.Sources[i-1] < res.Sources[i], "sources are in order")
	}
	v.Assert(len(res.Problems) == len(problems), "one problem for each failure, empty answer and reported problem")
	for _, p := range problems {
		if p != "" {
			v.Assert(countOf(res.Problems, p) == 1, "problems of the answers are carried over")
		}
	}
	sum, ev := 0, 0
	if cs := res.Stats.Categories["cat"]; cs != nil {
		sum, ev = cs.TotalCount(), cs.EventCount
	}
	stats := 0
	for i := range as {
		if kinds[i] == 0 || kinds[i] == 3 {
			stats++
		}
	}
	v.Assert(sum == stats && ev == events, "the statistics are merged")
	if nok == s {
		v.Reach("all")
	} else {
		v.Reach("partial")
	}
	v.Observe("n", len(res.Traces))
}

// HC11Select: any start times and IDs, any limit.
//
// verif: prop=C11 quick.T=2 thorough.T=3 preempt=0 reach=end
func HC11Select() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	type item struct {
		id string
		ns int64
	}
	var items []item
	var ms trc.MultiSearcher
	for s, n := 0, v.Param("T", 2); s < 2; s++ {
		res := &trc.SearchResponse{Sources: []string{"s"}}
		last := int64(1 << 62)
		for i := 0; i < n; i++ {
			ns := v.Int64("start", era, era+1<<12-1)
			v.Assume(ns < last)
			last = ns
			id := string(rune('A' + len(items)))
			items = append(items, item{id, ns})
			res.Traces = append(res.Traces, &trc.StaticTrace{TraceID: id, TraceStarted: time.Unix(0, ns)})
		}
		ms = append(ms, &answer{res: res})
	}
	limit := v.Choose("limit", len(items)+1)
	res, _ := ms.Search(bg, &trc.SearchRequest{Limit: limit})
	if limit == 0 {
		limit = 10
	}
	if limit > len(items) {
		limit = len(items)
	}
	v.Assert(len(res.Traces) == limit, "as many as the limit allows")
	// newest first, and nothing left out is newer
	for i, st := range res.Traces {
		if i > 0 {
			p := res.Traces[i-1]
			v.Assert(!p.TraceStarted.Before(st.TraceStarted), "newest first")
			v.Assert(v.Implies(p.TraceStarted.Equal(st.TraceStarted), p.TraceID > st.TraceID), "ties by ID")
		}
	}
	for _, it := range items {
		found := false
		for _, st := range res.Traces {
			if st.TraceID == it.id {
				found = true
				v.Assert(st.TraceStarted.Equal(time.Unix(0, it.ns)), "traces are passed through")
			}
		}
		if !found {
			v.Assert(!time.Unix(0, it.ns).After(res.Traces[len(res.Traces)-1].TraceStarted), "nothing newer is left out")
		}
	}
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// collectors searches two collectors as one.
func collectors(req *trc.SearchRequest, q int, nested bool) {
	a, b := trc.NewCollector(trc.CollectorConfig{Source: "A"}), trc.NewCollector(trc.CollectorConfig{Source: "B"})
	_, t1 := a.NewTrace(bg, "x")
	_, t2 := b.NewTrace(bg, "x")
	_, t3 := a.NewTrace(bg, "y")
	t2.Errorf("boom")
	t2.Finish()
	t3.Tracef("hello")
	req.Filter.Query = []string{"", "hello", "("}[q]
	want := []trc.Trace{t3, t2, t1}
	if q == 1 {
		want = want[:1]
	}
	ms := trc.MultiSearcher{a, b}
	if nested {
		ms = trc.MultiSearcher{trc.MultiSearcher{a}, b}
	}
	limit := req.Limit
	if limit == 0 {
		limit = 10
	}
	res, err := ms.Search(bg, req)
	v.Assert(err == nil, "the search does not fail")
	v.Assert(res.TotalCount == 3, "everything is counted")
	if limit < len(want) {
		want = want[:limit]
	}
	v.Assert(len(res.Traces) == len(want), "the newest of all")
	for i, st := range res.Traces {
		if i < len(want) {
			v.Assert(st.TraceID == want[i].ID() && st.TraceSource == want[i].Source(), "the newest of all, in order")
		}
	}
	v.Assert(len(res.Sources) == 2 && res.Sources[0] == "A" && res.Sources[1] == "B", "both sources are listed")
	o := res.Stats.Overall()
	v.Assert(o.ActiveCount == 2 && o.ErroredCount == 1 && o.EventCount == 2, "the statistics cover both")
	v.Assert((len(res.Problems) > 0) == (q == 2), "only an invalid query is a problem")
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// HC11Collectors: two collectors searched as one, with any buckets, limit and
// query, give what one collector holding everything would.
//
// verif: prop=C11 preempt=0 maporder=none quick.B=1 thorough.B=2 reach=end
func HC11Collectors() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	req := &trc.SearchRequest{Limit: v.Choose("limit", 4)}
	for i, n := 0, v.Choose("buckets", v.Param("B", 1)+1); i < n; i++ {
		req.Bucketing = append(req.Bucketing, time.Duration(v.Int64("bucket", -5, 5)))
	}
	collectors(req, v.Choose("query", 3), v.Bool("nested"))
}

// HC11Shared: the searchers share the request, and normalize it at the same
// time.
//
// verif: prop=C11 preempt=1 maporder=none reach=end
func HC11Shared() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	req := &trc.SearchRequest{Limit: 2}
	switch v.Choose("buckets", 4) {
	case 1:
		req.Bucketing = []time.Duration{-5}
	case 2:
		req.Bucketing = []time.Duration{7, 3}
	case 3:
		req.Bucketing = []time.Duration{0, 5}
	}
	collectors(req, 0, false)
}

// HC11Texts: sources are told apart as they are; failures and traces count as
// often as they come, also when they look alike.
//
// verif: prop=C11 preempt=0 quick.L=2 thorough.L=3 maporder=none reach=same,different
func HC11Texts() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	l := v.Param("L", 2)
	x, y := v.Str("source", v.Choose("len", l+1), "aA \x00"), "A"
	st := func(src string) *trc.StaticTrace {
		return &trc.StaticTrace{TraceID: "same", TraceSource: src, TraceStarted: at(0)}
	}
	ms := trc.MultiSearcher{
		&answer{res: &trc.SearchResponse{Sources: []string{x, y}, TotalCount: 2, MatchCount: 2, Problems: []string{"p", "p"}, Traces: []*trc.StaticTrace{st(x), st(y)}}},
		&answer{err: errors.New("e")}, &answer{err: errors.New("e")},
	}
	res, err := ms.Search(bg, &trc.SearchRequest{})
	v.Assert(err == nil, "the search does not fail")
	want := 2
	if v.Is(x == y) {
		want = 1
		v.Reach("same")
	} else {
		v.Reach("different")
	}
	v.Assert(len(res.Sources) == want, "distinct sources are listed once")
	v.Assert(has(res.Sources, x) && has(res.Sources, y), "sources are listed as they are")
	v.Assert(len(res.Traces) == 2 && res.TotalCount == 2 && res.MatchCount == 2, "every trace of the answers is there")
	v.Assert(len(res.Problems) == 4, "every problem is there")
	v.Observe("n", len(res.Sources))
}

// HC11Late: the caller gives up, before or while the searchers work: what they
// answer all the same is not lost.
//
// verif: prop=C11 preempt=0 reach=end
func HC11Late() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctx, cancel := context.WithCancel(bg)
	when := v.Choose("cancelled", 2)
	if when == 0 {
		cancel()
	}
	mk := func(i int) *answer {
		return &answer{res: &trc.SearchResponse{Sources: []string{string(rune('a' + i))}, TotalCount: 1, MatchCount: 1,
			Traces: []*trc.StaticTrace{{TraceID: string(rune('A' + i)), TraceStarted: at(int64(i))}}}}
	}
	first := searchFunc(func(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
		cancel()
		return nil, ctx.Err()
	})
	ms := trc.MultiSearcher{mk(0), mk(1)}
	if when == 1 {
		ms = append(trc.MultiSearcher{first}, ms...)
	}
	res, err := ms.Search(ctx, &trc.SearchRequest{})
	v.Assert(err == nil && res != nil, "the search as a whole does not fail")
	v.Assert(res.TotalCount == 2 && res.MatchCount == 2 && len(res.Sources) == 2, "every answer counts")
	sameIDs(res.Traces, []string{"B", "A"}, "every answer's traces are there")
	v.Assert(len(res.Problems) == when, "only the failure is a problem")
	cancel()
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

type searchFunc func(context.Context, *trc.SearchRequest) (*trc.SearchResponse, error)

func (f searchFunc) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return f(ctx, req)
}

// HC11Many: many more traces than the limit, the newest of them anywhere.
//
// verif: prop=C11 preempt=0 maporder=none quick.K=24 thorough.K=200 reach=end
func HC11Many() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	k := v.Param("K", 24)
	pattern := v.Choose("pattern", 3) // first newer, second newer, interleaved
	var rs [2]*trc.SearchResponse
	var want []string
	for i := 0; i < k; i++ {
		want = append(want, string(rune('a'+i/26))+string(rune('a'+i%26)))
	}
	for s := range rs {
		rs[s] = &trc.SearchResponse{Sources: []string{"s"}, TotalCount: k / 2, MatchCount: k / 2}
	}
	for i, id := range want { // want[0] is the newest
		s := i % 2
		switch pattern {
		case 0:
			s = i / ((k + 1) / 2)
		case 1:
			s = 1 - i/((k+1)/2)
		}
		rs[s].Traces = append(rs[s].Traces, &trc.StaticTrace{TraceID: id, TraceStarted: at(int64(k - i))})
	}
	limit := []int{1, 2, 10, k - 1, k, k + 1}[v.Choose("limit", 6)]
	res, err := trc.MultiSearcher{&answer{res: rs[0]}, &answer{res: rs[1]}}.Search(bg, &trc.SearchRequest{Limit: limit})
	v.Assert(err == nil, "the search does not fail")
	if limit < k {
		want = want[:limit]
	}
	sameIDs(res.Traces, want, "the newest of all")
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}
