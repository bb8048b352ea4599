package core

import (
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// statsCopy is a deep copy of the exported fields.
func statsCopy(ss *trc.SearchStats) *trc.SearchStats {
	c := &trc.SearchStats{Bucketing: append([]time.Duration(nil), ss.Bucketing...), Categories: map[string]*trc.CategoryStats{}}
	for k, cs := range ss.Categories {
		c.Categories[k] = catCopy(cs)
	}
	return c
}

func catCopy(cs *trc.CategoryStats) *trc.CategoryStats {
	return &trc.CategoryStats{Category: cs.Category, EventCount: cs.EventCount, ActiveCount: cs.ActiveCount, ErroredCount: cs.ErroredCount,
		BucketCounts: append([]int(nil), cs.BucketCounts...), Oldest: cs.Oldest, Newest: cs.Newest}
}

func sameCat(a, b *trc.CategoryStats, label string) {
	v.Assert(a.Category == b.Category, label+": category")
	v.Assert(a.EventCount == b.EventCount, label+": events")
	v.Assert(a.ActiveCount == b.ActiveCount, label+": active")
	v.Assert(a.ErroredCount == b.ErroredCount, label+": errored")
	v.Assert(len(a.BucketCounts) == len(b.BucketCounts), label+": buckets")
	for i := range a.BucketCounts {
		if i < len(b.BucketCounts) {
			v.Assert(a.BucketCounts[i] == b.BucketCounts[i], label+": bucket counts")
		}
	}
	v.Assert(a.Oldest.Equal(b.Oldest), label+": oldest")
	v.Assert(a.Newest.Equal(b.Newest), label+": newest")
}

func sameSearchStats(a, b *trc.SearchStats, label string) {
	v.Assert(len(a.Bucketing) == len(b.Bucketing), label+": bucketing")
	for i := range a.Bucketing {
		if i < len(b.Bucketing) {
			v.Assert(a.Bucketing[i] == b.Bucketing[i], label+": bucketing")
		}
	}
	v.Assert(len(a.Categories) == len(b.Categories), label+": categories")
	for _, k := range []string{"a", "b"} {
		x, y := a.Categories[k], b.Categories[k]
		v.Assert((x == nil) == (y == nil), label+": categories")
		if x != nil && y != nil {
			sameCat(x, y, label)
		}
	}
}

// small makes a trace with few symbolic parts: the sums are what matters.
func small(i int, started int64) *ft {
	t := &ft{id: string(rune('A' + i)), category: []string{"a", "b"}[v.Choose("cat", 2)], events: make([]trc.Event, 1<<i)}
	anyState(t)
	t.started = time.Unix(0, started)
	return t
}

// HC10Merge: any traces split over parts in any way, with empty and missing
// parts, merged in any order and grouping.
//
// verif: prop=C10 quick.N=2 thorough.N=3 quick.parts=2 thorough.parts=3 reach=end
func HC10Merge() {
	v.FrozenClock()
	bs := anyBuckets(2)
	n, k := v.Param("N", 2), v.Param("parts", 2)
	var ts []*ft
	var ns []int64
	parts := make([]*trc.SearchStats, k)
	for i := range parts {
		parts[i] = trc.NewSearchStats(bs)
	}
	for i := 0; i < n; i++ {
		s := era - int64(1+(i*7)%5)
		t := small(i, s)
		ts, ns = append(ts, t), append(ns, s)
		parts[v.Choose("part", k)].Observe(t)
	}
	var before []*trc.SearchStats
	for _, p := range parts {
		before = append(before, statsCopy(p))
	}
	var sum *trc.SearchStats
	switch v.Choose("grouping", 3) {
	case 0: // into fresh statistics, one after the other
		sum = trc.NewSearchStats(bs)
		for i := range parts {
			sum.Merge(parts[i])
		}
	case 1: // the other way round, into statistics without buckets
		sum = &trc.SearchStats{}
		for i := range parts {
			sum.Merge(parts[k-1-i])
			if v.Bool("noise") {
				sum.Merge(nil)
				sum.Merge(&trc.SearchStats{})
				sum.Merge(trc.NewSearchStats(bs))
			}
		}
	case 2: // grouped
		x := trc.NewSearchStats(bs)
		for i := 1; i < k; i++ {
			x.Merge(parts[i])
		}
		sum = trc.NewSearchStats(bs)
		sum.Merge(parts[0])
		sum.Merge(x)
	}
	one := trc.NewSearchStats(bs)
	for _, t := range ts {
		one.Observe(t)
	}
	sameSearchStats(sum, one, "merged equals observed together")
	checkStats(sum, ts, ns, bs)
	for i, p := range parts {
		sameSearchStats(p, before[i], "what was merged in is as before")
	}
	v.Reach("end")
	v.Observe("n", len(sum.Categories))
}

// HC10Into: merging into one of the parts leaves the other as it was, also when
// the result is added to afterwards.
//
// verif: prop=C10 maporder=none reach=end
func HC10Into() {
	v.FrozenClock()
	bs := []time.Duration{0, time.Second}
	a, b := trc.NewSearchStats(bs), trc.NewSearchStats(bs)
	if v.Bool("zero") {
		a = &trc.SearchStats{}
	}
	var ts []*ft
	var ns []int64
	add := func(ss *trc.SearchStats) {
		i := len(ts)
		t := &ft{id: string(rune('A' + i)), category: []string{"a", "b"}[v.Choose("cat", 2)], events: make([]trc.Event, 1<<i), dur: 2 * time.Second, started: at(int64(i - 100))}
		k := v.Choose("state", 3)
		t.finished, t.errored = k > 0, k > 1
		ts, ns = append(ts, t), append(ns, era-int64(100-i))
		ss.Observe(t)
	}
	if !a.IsZero() && v.Bool("ina") {
		add(a)
	}
	add(b)
	want := statsCopy(b)
	a.Merge(b)
	sameSearchStats(b, want, "what was merged in is as before")
	add(a)
	checkStats(a, ts, ns, bs)
	sameSearchStats(b, want, "what was merged in is independent of the result")
	o := a.Overall()
	o2 := catCopy(o)
	a.Overall()
	sameCat(a.Overall(), o2, "the overall line is the same again")
	checkStats(a, ts, ns, bs)
	v.Reach("end")
	v.Observe("n", len(ts))
}

// HC10Cat: categories merge alike.
//
// verif: prop=C10 reach=end
func HC10Cat() {
	v.FrozenClock()
	bs := []time.Duration{0, 5}
	var cs [2]*trc.CategoryStats
	var ts []*ft
	var ns []int64
	for i := range cs {
		ss := trc.NewSearchStats(bs)
		s := v.Int64("start", era-1<<46, era-1)
		t := &ft{id: string(rune('A' + i)), category: "a", events: make([]trc.Event, 1<<i), started: time.Unix(0, s)}
		anyState(t)
		ss.Observe(t)
		ts, ns = append(ts, t), append(ns, s)
		cs[i] = ss.Categories["a"]
	}
	dst := trc.NewCategoryStats([]string{"", "a"}[v.Choose("dst", 2)], bs)
	before := [2]*trc.CategoryStats{catCopy(cs[0]), catCopy(cs[1])}
	empty := v.Choose("empty", 4) // where a category without traces is merged
	noise := func(at int) {
		if at == empty {
			dst.Merge(nil)
			dst.Merge(trc.NewCategoryStats("", bs))
			dst.Merge(trc.NewCategoryStats("a", bs))
		}
	}
	noise(0)
	dst.Merge(cs[0])
	noise(1)
	dst.Merge(cs[1])
	noise(2)
	sameStats(dst, count(ts, ns, "a", bs), "merged category")
	for i := range cs {
		sameCat(cs[i], before[i], "what was merged in is as before")
	}
	v.Reach("end")
}

// HC10Times: any start times, merged in any order.
//
// verif: prop=C10 reach=end
func HC10Times() {
	v.FrozenClock()
	bs := []time.Duration{0, 1}
	ts, ns := anyStarts(2)
	a, b := trc.NewSearchStats(bs), trc.NewSearchStats(bs)
	a.Observe(ts[0])
	b.Observe(ts[1])
	sum := trc.NewSearchStats(bs)
	if v.Bool("swap") {
		a, b = b, a
	}
	sum.Merge(a)
	sum.Merge(b)
	for _, cat := range []string{"a", "b"} {
		if cs := sum.Categories[cat]; cs != nil {
			sameStats(cs, count(ts, ns, cat, bs), "category")
		}
	}
	sameStats(sum.Overall(), count(ts, ns, "", bs), "overall")
	v.Reach("end")
}

// HC10Names: categories are told apart by their names as they are, when
// merged and listed.
//
// verif: prop=C10 quick.L=2 thorough.L=3 reach=same,different
func HC10Names() { names(true) }

func names(merged bool) {
	v.FrozenClock()
	bs := []time.Duration{0}
	l := v.Param("L", 2)
	text := func() string { return v.Str("name", v.Choose("len", l+1), "aA \x00") }
	x, y := text(), text()
	mk := func(c string) *ft { return &ft{id: "I", category: c, started: at(-1), finished: true} }
	a, b := trc.NewSearchStats(bs), trc.NewSearchStats(bs)
	a.Observe(mk(x))
	if merged {
		b.Observe(mk(y))
		a.Merge(b)
	} else {
		a.Observe(mk(y))
	}
	want := 2
	if v.Is(x == y) {
		want = 1
		v.Reach("same")
	} else {
		v.Reach("different")
	}
	v.Assert(len(a.Categories) == want, "one entry for each name")
	v.Assert(len(a.AllCategories()) == want+1, "one line for each name, and the overall line")
	for _, n := range []string{x, y} {
		cs := a.Categories[n]
		v.Assert(cs != nil && cs.Category == n, "an entry has its name")
		if cs != nil {
			v.Assert(cs.TotalCount() == 3-want, "an entry counts the traces with its name")
		}
	}
	v.Assert(a.Overall().TotalCount() == 2, "the overall line counts every trace")
	v.Observe("n", len(a.Categories))
}
