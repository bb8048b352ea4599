package core

import (
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// tally is what the statistics of a set of traces have to be.
type tally struct {
	active, errored, events int
	buckets                 []int
	oldest, newest          int64 // 0: none
}

// count is the specification; start times are nanoseconds, kept in ns.
func count(ts []*ft, ns []int64, category string, buckets []time.Duration) tally {
	c := tally{buckets: make([]int, len(buckets))}
	for i, t := range ts {
		if category != "" && t.category != category {
			continue
		}
		c.events += len(t.events)
		c.active += v.B2I(!t.finished)
		c.errored += v.B2I(v.And(t.finished, t.errored))
		for j, b := range buckets {
			c.buckets[j] += v.B2I(v.And(t.finished, !t.errored, t.dur >= b))
		}
		if c.oldest == 0 || v.Is(ns[i] < c.oldest) {
			c.oldest = ns[i]
		}
		if c.newest == 0 || v.Is(ns[i] > c.newest) {
			c.newest = ns[i]
		}
	}
	return c
}

func sameStats(cs *trc.CategoryStats, c tally, label string) {
	v.Assert(cs.ActiveCount == c.active, label+": active")
	v.Assert(cs.ErroredCount == c.errored, label+": errored")
	v.Assert(cs.EventCount == c.events, label+": events")
	v.Assert(len(cs.BucketCounts) == len(c.buckets), label+": buckets")
	for i := range c.buckets {
		if i < len(cs.BucketCounts) {
			v.Assert(cs.BucketCounts[i] == c.buckets[i], label+": bucket counts")
		}
	}
	if c.oldest != 0 {
		v.Assert(cs.Oldest.Equal(time.Unix(0, c.oldest)), label+": oldest")
		v.Assert(cs.Newest.Equal(time.Unix(0, c.newest)), label+": newest")
	} else {
		v.Assert(cs.Oldest.IsZero() && cs.Newest.IsZero(), label+": no times")
	}
}

// population makes n traces of any state, duration and category, starting at
// consecutive instants.
func population(n int) (ts []*ft, ns []int64) {
	for i := 0; i < n; i++ {
		t := &ft{id: string(rune('A' + i)), category: []string{"a", "b"}[v.Choose("cat", 2)], events: make([]trc.Event, 1<<i)}
		anyState(t)
		ns = append(ns, era-int64(100-i))
		t.started = time.Unix(0, ns[i])
		ts = append(ts, t)
	}
	return ts, ns
}

// anyState is any of the four states, with any duration.
func anyState(t *ft) {
	k := v.Choose("state", 4)
	t.finished, t.errored = k&1 != 0, k&2 != 0
	t.dur = time.Duration(v.Int64("dur", 0, 1<<40-1))
}

// anyBuckets is a valid bucketing: zero, then increasing bounds.
func anyBuckets(n int) []time.Duration {
	bs := []time.Duration{0}
	for i := 1; i < n; i++ {
		b := time.Duration(v.Int64("bucket", 0, 1<<40-1))
		v.Assume(b > bs[i-1])
		bs = append(bs, b)
	}
	return bs
}

// HC09Observe: any traces observed into statistics with any buckets.
//
// verif: prop=C09 quick.N=2 thorough.N=3 quick.B=3 thorough.B=3 reach=end
func HC09Observe() {
	v.FrozenClock()
	bs := anyBuckets(v.Param("B", 3))
	ts, ns := population(v.Param("N", 2))
	ss := trc.NewSearchStats(bs)
	if v.Bool("together") {
		var trs []trc.Trace
		for _, t := range ts {
			trs = append(trs, t)
		}
		ss.Observe(trs...)
	} else {
		for _, t := range ts {
			ss.Observe(t)
		}
	}
	checkStats(ss, ts, ns, bs)
	v.Reach("end")
	v.Observe("n", len(ss.Categories))
}

func checkStats(ss *trc.SearchStats, ts []*ft, ns []int64, bs []time.Duration) {
	sum := 0
	for _, cat := range []string{"a", "b"} {
		n := 0
		for _, t := range ts {
			if t.category == cat {
				n++
			}
		}
		cs := ss.Categories[cat]
		v.Assert((cs != nil) == (n > 0), "a category is listed when it has traces")
		if cs == nil {
			continue
		}
		v.Assert(cs.Category == cat, "a category has its name")
		sameStats(cs, count(ts, ns, cat, bs), "category")
		v.Assert(cs.TotalCount() == n, "active, errored and the zero bucket make the total")
		sum += n
	}
	all := count(ts, ns, "", bs)
	sameStats(ss.Overall(), all, "overall")
	v.Assert(ss.Overall().TotalCount() == sum, "overall total")
	list := ss.AllCategories()
	v.Assert(len(list) == len(ss.Categories)+1, "every category and the overall line are listed")
	for i := 1; i < len(list)-1; i++ {
		v.Assert(list[i-1].Category < list[i].Category, "categories are listed in order")
	}
	sameStats(list[len(list)-1], all, "listed overall")
}

// HC09Times: any start times, in any order.
//
// verif: prop=C09 quick.N=2 thorough.N=3 reach=end timeout=600
func HC09Times() {
	v.FrozenClock()
	bs := []time.Duration{0, 1}
	ts, ns := anyStarts(v.Param("N", 3))
	ss := trc.NewSearchStats(bs)
	for _, t := range ts {
		ss.Observe(t)
	}
	for _, cat := range []string{"a", "b"} {
		if cs := ss.Categories[cat]; cs != nil {
			sameStats(cs, count(ts, ns, cat, bs), "category")
		}
	}
	sameStats(ss.Overall(), count(ts, ns, "", bs), "overall")
	v.Reach("end")
	v.Observe("n", len(ss.Categories))
}

// anyStarts makes n traces that started at any time.
func anyStarts(n int) (ts []*ft, ns []int64) {
	for i := 0; i < n; i++ {
		s := v.Int64("start", era-1<<46, era-1)
		t := &ft{id: string(rune('A' + i)), category: []string{"a", "b"}[v.Choose("cat", 2)], events: make([]trc.Event, 1<<i)}
		t.started = time.Unix(0, s)
		ts, ns = append(ts, t), append(ns, s)
	}
	return ts, ns
}

// HC09Search: the statistics of a search cover every retained trace, matched,
// cut by the limit, or neither.
//
// verif: prop=C09 quick.N=2 thorough.N=3 reach=end timeout=600
func HC09Search() {
	v.FrozenClock()
	bs := anyBuckets(2)
	var all []*ft
	var ns []int64
	c := trc.NewCollector(trc.CollectorConfig{Source: "src", NewTrace: fakeNew(&all)})
	n := v.Param("N", 3)
	for i := 0; i < n; i++ {
		c.NewTrace(bg, []string{"a", "b"}[v.Choose("cat", 2)])
		t := all[i]
		anyState(t)
		t.events = make([]trc.Event, 1<<i)
		ns = append(ns, era+int64(i))
	}
	req := &trc.SearchRequest{Bucketing: append([]time.Duration(nil), bs...), Limit: 1 + v.Choose("limit", 2), Filter: trc.Filter{IsErrored: v.Bool("ferrored")}}
	if v.Bool("fcat") {
		req.Filter.Category = "b"
	}
	res, err := c.Search(bg, req)
	v.Assert(err == nil && res.Stats != nil, "a search has statistics")
	checkStats(res.Stats, all, ns, bs)
	v.Reach("end")
	v.Observe("n", len(res.Traces))
}

// HC09Core: core traces: the event counts and classes of real traces.
//
// verif: prop=C09 reach=end
func HC09Core() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"}).SetCategorySize(2)
	active, errored, events, done := 0, 0, 0, 0
	for i := 0; i < 3; i++ {
		_, tr := c.NewTrace(bg, "cat")
		n, e, f := v.Choose("events", 3), v.Bool("error"), v.Bool("finish")
		for j := 0; j < n; j++ {
			tr.Tracef("x")
		}
		if e {
			tr.LazyErrorf("y")
			n++
		}
		if f {
			tr.Finish()
		}
		if i == 0 {
			continue // evicted by the third
		}
		events += n
		active += v.B2I(!f)
		errored += v.B2I(f && e)
		done += v.B2I(f && !e)
	}
	cs := searchAll(c).Stats.Categories["cat"]
	v.Assert(cs.ActiveCount == active, "active traces are counted")
	v.Assert(cs.ErroredCount == errored, "errored traces are counted")
	v.Assert(cs.EventCount == events, "events are counted")
	v.Assert(cs.BucketCounts[0] == done, "finished traces are counted")
	v.Assert(cs.TotalCount() == 2, "every retained trace is counted once")
	v.Reach("end")
	v.Observe("events", events)
}

// HC09Conc: a trace changes while it is searched: it is counted once, in a
// class it was in at some moment of the search.
//
// verif: prop=C09 quick.preempt=2 thorough.preempt=4 reach=active,errored,done
func HC09Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"})
	_, tr := c.NewTrace(bg, "cat")
	e := v.Bool("error")
	v.Go("owner", func() {
		if e {
			tr.Errorf("x")
		} else {
			tr.Tracef("x")
		}
		tr.Finish()
	})
	var res *trc.SearchResponse
	v.Go("searcher", func() { res = searchAll(c) })
	v.Wait()
	cs := res.Stats.Categories["cat"]
	v.Assert(cs.TotalCount() == 1, "every retained trace is counted once")
	v.Assert(cs.EventCount <= 1, "events are counted once")
	switch {
	case cs.ActiveCount == 1:
		v.Reach("active")
		v.Assert(cs.ErroredCount == 0 && cs.BucketCounts[0] == 0, "an active trace is in no other class")
	case e:
		v.Reach("errored")
		v.Assert(cs.ErroredCount == 1 && cs.BucketCounts[0] == 0, "a trace that had an error when it was finished is no success")
	default:
		v.Reach("done")
		v.Assert(cs.ErroredCount == 0 && cs.BucketCounts[0] == 1, "a finished trace without an error is a success")
	}
	v.Observe("active", cs.ActiveCount)
}

// HC09Names: categories are told apart by their names as they are.
//
// verif: prop=C09 quick.L=2 thorough.L=3 reach=same,different
func HC09Names() { names(false) }
