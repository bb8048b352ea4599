package core

import (
	"bytes"
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// The harnesses in this file take sizes that are far above those of the others,
// for limits that the code may have: long texts (that end in symbolic
// characters, so that all of them counts), and many categories, events,
// subscribers, prefixes and buckets.

// long is a long text that ends in any character.
func long() string {
	return strings.Repeat("0123456789abcdef", v.Param("K", 4500)) + v.Str("end", 1, "xyz\n ")
}

// HC01Cats: many categories, with long names that differ in their last
// character only.
//
// verif: prop=C01 quick.K=3000 thorough.K=20000 steps=400000000 samples=1 timeout=200 maporder=none reach=end
func HC01Cats() {
	v.FrozenClock()
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)}).SetCategorySize(1)
	k := v.Param("K", 3000)
	for i := 0; i < k; i++ {
		c.NewTrace(bg, fmt.Sprintf("category %d", i))
	}
	name := strings.Repeat("category", 40)
	c.NewTrace(bg, name+"0")
	c.NewTrace(bg, name+"1")
	freed := 0
	for _, t := range all {
		freed += t.freed
	}
	v.Assert(freed == 0 && len(all) == k+2, "one category never affects another")
	res, err := c.Search(bg, &trc.SearchRequest{Limit: 250})
	v.Assert(err == nil && res.TotalCount == k+2, "every category keeps its traces")
	v.Assert(len(res.Stats.Categories) == k+2, "every category has statistics")
	c.NewTrace(bg, "category 7")
	v.Assert(all[7].freed == 1 && all[6].freed == 0 && all[k+1].freed == 0, "the category alone loses its oldest trace")
	v.Reach("end")
}

// HC04Long: long texts are kept as they are.
//
// verif: prop=C04 preempt=0 steps=100000000 samples=1 reach=end
func HC04Long() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	_, tr := trc.New(bg, "src", "cat")
	s := long()
	kind := v.Choose("kind", 4)
	put(tr, kind, "%s", s)
	put(tr, kind, strings.ReplaceAll(s, "f", "%%"))
	put(tr, kind, strings.Repeat("%d ", 300), ints(300)...)
	evs := tr.Events()
	v.Assert(len(evs) == 3, "three events")
	v.Assert(evs[0].What == s, "a long argument is kept")
	v.Assert(evs[1].What == strings.ReplaceAll(s, "f", "%"), "a long format is kept")
	v.Assert(strings.HasSuffix(evs[2].What, " 298 299 "), "many arguments are kept")
	v.Reach("end")
}

func put(tr trc.Trace, kind int, format string, args ...any) {
	switch kind {
	case 0:
		tr.Tracef(format, args...)
	case 1:
		tr.LazyTracef(format, args...)
	case 2:
		tr.Errorf(format, args...)
	case 3:
		tr.LazyErrorf(format, args...)
	}
}

func ints(n int) []any {
	var out []any
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

// HC07Long: a query finds the end of a long text, and the last of many events.
//
// verif: prop=C07 preempt=0 steps=100000000 samples=1 reach=yes,no
func HC07Long() {
	t := &ft{id: "A", category: "a", started: at(1)}
	end := v.Str("end", 1, "xyz")
	switch v.Choose("which", 3) {
	case 0:
		t.events = append(t.events, trc.Event{What: strings.Repeat("0123456789abcdef", 4500) + end})
	case 1:
		for i := 0; i < 2000; i++ {
			t.events = append(t.events, trc.Event{What: "a"})
		}
		t.events = append(t.events, trc.Event{What: end})
	case 2:
		var st []trc.Frame
		for i := 0; i < 60; i++ {
			st = append(st, trc.Frame{Function: "a", FileLine: "b.go:1"})
		}
		t.events = append(t.events, trc.Event{What: "a", Stack: append(st, trc.Frame{Function: end, FileLine: "b.go:1"})})
	}
	f := trc.Filter{Query: "y"}
	f.Normalize()
	got := f.Allow(t)
	v.Assert(got == (end == "y"), "the expression is found wherever it is")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	ids := make([]string, 500)
	for i := range ids {
		ids[i] = fmt.Sprint(i)
	}
	f = trc.Filter{IDs: append(ids, "A"), Sources: append(ids, "")}
	v.Assert(f.Allow(t), "the last of many IDs and sources counts")
	f = trc.Filter{IDs: ids}
	v.Assert(!f.Allow(t), "an ID that is not listed")
}

// HC08Long: a trace with many events and long texts is returned with all of
// them, and with its whole stacks.
//
// verif: prop=C08 preempt=0 steps=100000000 samples=1 reach=end
func HC08Long() {
	v.FrozenClock()
	s := long()
	var st []trc.Frame
	for i := 0; i < 40; i++ {
		st = append(st, trc.Frame{Function: "f", FileLine: fmt.Sprintf("b.go:%d", i)})
	}
	t := &ft{id: "A", category: s, source: s, started: at(1)}
	for i := 0; i < 3000; i++ {
		t.events = append(t.events, trc.Event{What: "a", Stack: st})
	}
	t.events = append(t.events, trc.Event{What: s, Stack: st})
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
		return trc.Put(ctx, t)
	}})
	c.NewTrace(bg, s)
	res := searchAll(c)
	v.Assert(len(res.Traces) == 1, "one trace")
	g := res.Traces[0]
	v.Assert(g.TraceCategory == s && g.TraceSource == s, "category and source are kept")
	v.Assert(len(g.TraceEvents) == 3001 && g.TraceEvents[3000].What == s, "every event is kept")
	v.Assert(len(g.TraceEvents[3000].Stack) == 40 && g.TraceEvents[0].Stack[39] == st[39], "the stacks are kept")
	v.Reach("end")
}

// HC09Cats: statistics of many categories, with many traces.
//
// verif: prop=C09 preempt=0 steps=100000000 samples=1 maporder=none reach=end
func HC09Cats() {
	v.FrozenClock()
	ss := trc.NewSearchStats([]time.Duration{0, 10})
	d := time.Duration(v.Int64("dur", 0, 20))
	for i := 0; i < 300; i++ {
		ss.Observe(&ft{category: fmt.Sprint(i), finished: true, dur: d, started: at(int64(i + 1)), events: make([]trc.Event, i)})
	}
	for i := 0; i < 300; i++ {
		ss.Observe(&ft{category: "0", started: at(int64(i + 1))})
	}
	v.Assert(len(ss.Categories) == 300 && len(ss.AllCategories()) == 301, "every category has statistics")
	o := ss.Overall()
	v.Assert(o.TotalCount() == 600 && o.ActiveCount == 300 && o.BucketCounts[0] == 300 && o.EventCount == 299*150, "overall is the sum")
	v.Assert(o.BucketCounts[1] == v.IteInt(d >= 10, 300, 0), "overall is the sum")
	v.Assert(o.Oldest.Equal(at(1)) && o.Newest.Equal(at(300)), "oldest and newest overall")
	v.Reach("end")
}

// HC10Cats: merging statistics of many categories.
//
// verif: prop=C10 preempt=0 steps=100000000 samples=1 maporder=none reach=end
func HC10Cats() {
	v.FrozenClock()
	b := []time.Duration{0, 10}
	sum := trc.NewSearchStats(b)
	n := v.Int("n", 0, 1<<30)
	for part := 0; part < 3; part++ {
		ss := trc.NewSearchStats(b)
		for i := 0; i < 300; i++ {
			name := fmt.Sprint(i)
			if part == 2 {
				name = fmt.Sprint(-i)
			}
			cs := trc.NewCategoryStats(name, b)
			cs.ActiveCount, cs.EventCount = n+i, n
			cs.BucketCounts[1] = i
			ss.Categories[name] = cs
		}
		sum.Merge(ss)
	}
	v.Assert(len(sum.Categories) == 599, "every category is there")
	for i := 1; i < 300; i++ {
		cs, neg := sum.Categories[fmt.Sprint(i)], sum.Categories[fmt.Sprint(-i)]
		v.Assert(cs.ActiveCount == 2*(n+i) && cs.EventCount == 2*n && cs.BucketCounts[1] == 2*i, "counts are added")
		v.Assert(neg.ActiveCount == n+i && neg.EventCount == n && neg.BucketCounts[1] == i, "counts are taken over")
	}
	v.Assert(sum.Categories["0"].ActiveCount == 3*n, "counts are added")
	v.Reach("end")
}

// HC11Large: full answers: as many traces, sources, problems and categories as
// a searcher can give.
//
// verif: prop=C11 preempt=0 steps=400000000 samples=1 maporder=none reach=end
func HC11Large() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	const k = 250
	var ms trc.MultiSearcher
	total := v.Int("total", 0, 1<<40)
	for s := 0; s < 3; s++ {
		r := &trc.SearchResponse{TotalCount: total, MatchCount: 1 << 34, Stats: trc.NewSearchStats(trc.DefaultBucketing)}
		for i := 0; i < k; i++ {
			n := s*k + i
			r.Traces = append(r.Traces, &trc.StaticTrace{TraceID: fmt.Sprint(n), TraceStarted: at(int64(3*k - i*3 - s))})
			r.Sources = append(r.Sources, fmt.Sprintf("%05d", n))
			r.Problems = append(r.Problems, fmt.Sprint("problem ", n))
			r.Stats.Categories[fmt.Sprint(n)] = trc.NewCategoryStats(fmt.Sprint(n), trc.DefaultBucketing)
		}
		ms = append(ms, &answer{res: r})
	}
	res, err := ms.Search(bg, &trc.SearchRequest{Limit: 250})
	v.Assert(err == nil && len(res.Traces) == 250, "as many traces as asked for")
	for i, tr := range res.Traces {
		v.Assert(tr.TraceID == fmt.Sprint(i%3*k+i/3), "the newest, in order")
	}
	v.Assert(res.TotalCount == 3*total && res.MatchCount == 3<<34, "counts are added")
	v.Assert(len(res.Problems) == 3*k && len(res.Sources) == 3*k && len(res.Stats.Categories) == 3*k, "every problem, source and category is there")
	for i, s := range res.Sources {
		v.Assert(s == fmt.Sprintf("%05d", i), "sources in order")
	}
	v.Reach("end")
}

// HC12Many: many buckets are all kept.
//
// verif: prop=C12 preempt=0 steps=100000000 samples=1 reach=end
func HC12Many() {
	var b []time.Duration
	off := v.Int64("off", 1, 1<<30)
	for i := 0; i < 100; i++ {
		b = append(b, time.Duration(off+int64(i*37%100)))
	}
	req := &trc.SearchRequest{Bucketing: b}
	v.Assert(len(req.Normalize()) == 0 && len(req.Bucketing) == 101, "every bucket is kept")
	for i, d := range req.Bucketing[1:] {
		v.Assert(d == time.Duration(off+int64(i)), "in order")
	}
	v.Reach("end")
}

// HC13Many: many subscribers, and a channel with much room.
//
// verif: prop=C13 preempt=0 delays=0 steps=400000000 samples=1 maporder=none flags=norace reach=end
func HC13Many() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	const subs, room = 40, 3000
	b := trc.NewBroker()
	ctx, cancel := context.WithCancel(bg)
	big := make(chan trc.Trace, room)
	chs := []chan trc.Trace{big}
	for i := 0; i < subs; i++ {
		chs = append(chs, make(chan trc.Trace, 2))
	}
	stats := make([]trc.StreamStats, len(chs))
	for i, ch := range chs {
		i, ch := i, ch
		v.Go("stream", func() { stats[i], _ = b.Stream(ctx, trc.Filter{}, ch) })
	}
	v.Settle()
	st := &trc.StaticTrace{TraceID: "A", TraceCategory: v.Str("cat", 1, "ab")}
	for i := 0; i < room+1; i++ {
		b.Publish(bg, st)
	}
	cancel()
	v.Wait()
	v.Assert(len(big) == room && stats[0] == trc.StreamStats{Sends: room, Drops: 1}, "a channel with room gets everything")
	for i := 1; i < len(chs); i++ {
		v.Assert(len(chs[i]) == 2 && stats[i] == trc.StreamStats{Sends: 2, Drops: room - 1}, "every subscriber gets what it has room for")
	}
	v.Reach("end")
}

// HC14Long: a finished trace is streamed with all of its events, however many
// and however long.
//
// verif: prop=C14 preempt=0 steps=100000000 samples=1 reach=end
func HC14Long() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	s := long()
	_, tr := trc.New(bg, s, s)
	trc.SetMaxEvents(tr, 10000)
	for i := 0; i < 3000; i++ {
		tr.Tracef("a")
	}
	tr.Tracef("%s", s)
	var all trc.Trace = tr
	if v.Choose("kind", 2) == 1 {
		all = &ft{category: s, source: s, finished: true, events: append(make([]trc.Event, 3000), trc.Event{What: s})}
	} else {
		g := trc.NewStreamTrace(tr)
		v.Assert(len(g.TraceEvents) == 1 && g.TraceEvents[0].What == s, "the most recent event")
		tr.Finish()
	}
	g := trc.NewStreamTrace(all)
	v.Assert(g.TraceCategory == s && g.TraceSource == s, "category and source are kept")
	v.Assert(len(g.TraceEvents) == 3001 && g.TraceEvents[3000].What == s, "every event is there")
	v.Reach("end")
}

// HC16Deep: many prefixes, each with an argument, and one with many arguments.
//
// verif: prop=C16 preempt=0 steps=100000000 samples=1 reach=end
func HC16Deep() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	ctx, tr := trc.New(bg, "src", "cat")
	want := ""
	for i := 0; i < 40; i++ {
		ctx, _ = trc.Prefix(ctx, "<%d>", i)
		want += fmt.Sprintf("<%d> ", i)
	}
	s := long()
	ctx, _ = trc.Prefix(ctx, strings.TrimSpace(strings.Repeat("%d ", 100)), ints(100)...)
	want += fmt.Sprintf(strings.Repeat("%d ", 100), ints(100)...)
	put(trc.Get(ctx), v.Choose("kind", 4), "%s", s)
	v.Assert(tr.Events()[0].What == want+s, "every prefix is there, in order")
	v.Reach("end")
}

// HC17Long: long events are one whole line.
//
// verif: prop=C17 preempt=0 steps=100000000 samples=1 reach=end
func HC17Long() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	var buf bytes.Buffer
	_, tr := trc.New(bg, "src", "cat")
	ltr := trc.LogDecorator(&buf)(tr)
	buf.Reset()
	s := long()
	kind := v.Choose("kind", 4)
	put(ltr, kind, "%s", s)
	want := tr.ID() + " "
	if kind >= 2 {
		want += "ERROR: "
	}
	want += strings.TrimSuffix(s, "\n") + "\n"
	v.Assert(buf.String() == want, "one line with the whole text")
	v.Assert(len(tr.Events()) == 1 && tr.Events()[0].What == s, "the event is as without the decorator")
	v.Reach("end")
}

// HC23Many: many traces created at one moment have distinct IDs, in order.
//
// verif: prop=C23 preempt=0 steps=400000000 samples=1 reach=end
func HC23Many() {
	v.FrozenClock()
	last := ""
	for i := 0; i < 3000; i++ {
		_, tr := trc.New(bg, "src", "cat")
		id := tr.ID()
		v.Assert(id > last, "IDs are distinct, and sort in creation order")
		last = id
	}
	v.Reach("end")
}
