package core

import (
	"io"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// retention drives a collector with any sequence of creations (any category of
// two, any IDs, any strictly increasing start times) and size changes, next to
// a list model.
type retention struct {
	c    *trc.Collector
	all  []*ft
	kept [2][]*ft // oldest first
	size int
	max  int
}

func newRetention(max int) *retention {
	r := &retention{max: max}
	r.c = fakeCollector(&r.all)
	r.size = v.Split(v.Int("size0", 1, max))
	r.c.SetCategorySize(r.size)
	return r
}

func (r *retention) step() {
	switch v.Choose("op", 2) {
	case 0:
		cat := v.Str("cat", 1, "ab")
		r.c.NewTrace(bg, cat)
		j := 0
		if v.Is(cat == "b") {
			j = 1
		}
		if len(r.kept[j]) == r.size {
			v.Reach("evict")
		}
		r.kept[j] = lastN(append(r.kept[j], r.all[len(r.all)-1]), r.size)
	case 1:
		k := v.Split(v.Int("size", -1, r.max))
		r.c.SetCategorySize(k)
		if k > 0 {
			if k > r.size {
				v.Reach("grow")
			}
			r.size = k
			for j := range r.kept {
				if len(r.kept[j]) > k {
					v.Reach("shrink")
				}
				r.kept[j] = lastN(r.kept[j], k)
			}
		} else {
			v.Reach("ignored")
		}
	}
}

// HC01Ops runs any sequence of trace creations in two categories and category
// size changes, and compares what a search of the collector shows with a list
// model.
//
// verif: prop=C01 quick.N=4 thorough.N=6 quick.max=3 thorough.max=4 maporder=two reach=grow,shrink,evict,ignored
func HC01Ops() {
	r := newRetention(v.Param("max", 3))
	n := v.Param("N", 4)
	for i := 0; i < n; i++ {
		r.step()
	}
	res := searchAll(r.c)
	for j, cat := range []string{"a", "b"} {
		got := byCategory(res.Traces, cat)
		kept := r.kept[j]
		v.Assert(len(got) == len(kept), "a category holds as many traces as it should")
		for i := range got {
			want := kept[len(kept)-1-i]
			v.Assert(got[i].TraceID == want.id, "a category holds the most recent traces, newest first")
			v.Assert(got[i].TraceStarted.Equal(want.started), "a category holds the most recent traces, newest first")
		}
	}
	v.Assert(res.TotalCount == len(r.kept[0])+len(r.kept[1]), "total count")
	v.Observe("total", res.TotalCount)
	v.Observe("size", r.size)
}

// HC01Wrap fills one category of any size beyond its size, changes the size
// (twice in the thorough tier) and adds more, so that every alignment of the
// storage with the size change is met.
//
// verif: prop=C01 quick.max=4 thorough.max=6 quick.more=3 thorough.more=4 quick.rounds=1 thorough.rounds=2 reach=shrink,grow
func HC01Wrap() {
	max, more, rounds := v.Param("max", 4), v.Param("more", 3), v.Param("rounds", 1)
	var all []*ft
	c := fakeCollector(&all)
	size := v.Split(v.Int("size0", 1, max))
	c.SetCategorySize(size)
	var kept []*ft
	add := func(n int) {
		for i := 0; i < n; i++ {
			c.NewTrace(bg, "a")
			kept = lastN(append(kept, all[len(all)-1]), size)
		}
	}
	add(v.Choose("fill", 2*max))
	for r := 0; r < rounds; r++ {
		k := v.Split(v.Int("size", 1, max+1))
		if k < size {
			v.Reach("shrink")
		}
		if k > size {
			v.Reach("grow")
		}
		size = k
		c.SetCategorySize(k)
		kept = lastN(kept, k)
		add(v.Choose("more", more+1))
	}
	res := searchAll(c)
	v.Assert(len(res.Traces) == len(kept), "as many traces as the size allows")
	for i := range res.Traces {
		v.Assert(res.Traces[i].TraceID == kept[len(kept)-1-i].id, "the most recent traces, newest first")
	}
	v.Observe("n", len(kept))
}

// HC02Ops: after any such sequence, every trace that is no longer retained was
// released exactly once and no retained trace was, with and without a further
// decorator around the traces.
//
// verif: prop=C02 quick.N=4 thorough.N=6 max=3 maporder=two reach=shrink,evict,decorated
func HC02Ops() {
	r := newRetention(v.Param("max", 3))
	if v.Choose("decorate", 2) == 1 {
		r.c.SetDecorators(trc.LogDecorator(io.Discard), trc.LogDecorator(io.Discard))
		v.Reach("decorated")
	}
	n := v.Param("N", 4)
	for i := 0; i < n; i++ {
		r.step()
		for _, t := range r.all {
			kept := false
			for j := range r.kept {
				for _, k := range r.kept[j] {
					kept = kept || k == t
				}
			}
			if kept {
				v.Assert(t.freed == 0, "a retained trace is not released")
			} else {
				v.Assert(t.freed == 1, "an evicted trace is released exactly once")
			}
		}
	}
	v.Observe("n", len(r.all))
}

// HC02Conc: goroutines creating traces in the same category while it is made
// smaller; in every interleaving each trace is either retained and unreleased,
// or gone and released once.
//
// verif: prop=C02 quick.preempt=2 thorough.preempt=3 quick.each=1 thorough.each=2 reach=end
func HC02Conc() {
	v.FrozenClock()
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)})
	c.SetCategorySize(2)
	each := v.Param("each", 1)
	for i, n := 0, v.Choose("before", 3); i < n; i++ {
		c.NewTrace(bg, "a")
	}
	for g := 0; g < 2; g++ {
		v.Go("creator", func() {
			for i := 0; i < each; i++ {
				c.NewTrace(bg, "a")
			}
		})
	}
	v.Go("resizer", func() { c.SetCategorySize(1) })
	v.Wait()
	res := searchAll(c)
	v.Assert(len(res.Traces) == 1, "the category holds one trace")
	n := 0
	for _, t := range all {
		kept := t.id == res.Traces[0].TraceID
		if kept {
			n++
			v.Assert(t.freed == 0, "a retained trace is not released")
		} else {
			v.Assert(t.freed == 1, "an evicted trace is released exactly once")
		}
	}
	v.Assert(n == 1, "the retained trace is one of those created")
	v.Reach("end")
	v.Observe("n", len(all))
}

// HC02Resize: any number of traces in each of three categories, in any order of
// the categories, and one change of the size.
//
// verif: prop=C02 quick.fill=3 thorough.fill=4 maporder=two reach=several,one
func HC02Resize() {
	max := v.Param("fill", 3)
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)})
	c.SetCategorySize(max)
	var kept [3][]*ft
	for j, cat := range []string{"a", "b", "c"} {
		for i, n := 0, v.Choose("fill", max+1); i < n; i++ {
			c.NewTrace(bg, cat)
			kept[j] = append(kept[j], all[len(all)-1])
		}
	}
	k := v.Split(v.Int("size", 1, max))
	lose := 0
	for j := range kept {
		if len(kept[j]) > k {
			lose++
		}
		kept[j] = lastN(kept[j], k)
	}
	if lose > 1 {
		v.Reach("several")
	}
	if lose == 1 {
		v.Reach("one")
	}
	c.SetCategorySize(k)
	for _, t := range all {
		want := 1
		for j := range kept {
			for _, u := range kept[j] {
				if u == t {
					want = 0
				}
			}
		}
		if want == 0 {
			v.Assert(t.freed == 0, "a retained trace is not released")
		} else {
			v.Assert(t.freed == 1, "an evicted trace is released exactly once")
		}
	}
	res := searchAll(c)
	v.Assert(res.TotalCount == len(kept[0])+len(kept[1])+len(kept[2]), "what is retained is what fits")
	v.Observe("n", len(all))
}

// HC01Names: any two distinct categories are kept apart.
//
// verif: prop=C01 quick.L=2 thorough.L=3 maporder=two reach=same,distinct
func HC01Names() {
	l := v.Param("L", 2)
	x, y := v.Str("x", v.Choose("lx", l+1), "aA \x00/"), v.Str("y", v.Choose("ly", l+1), "aA \x00/")
	var all []*ft
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)})
	c.SetCategorySize(1)
	c.NewTrace(bg, x)
	c.NewTrace(bg, y)
	res := searchAll(c)
	if v.Is(x == y) {
		v.Reach("same")
		v.Assert(res.TotalCount == 1 && res.Traces[0].TraceID == "B", "one trace of the category is kept")
	} else {
		v.Reach("distinct")
		v.Assert(res.TotalCount == 2, "one category never affects another")
		sameIDs(res.Traces, []string{"B", "A"}, "one category never affects another")
		v.Assert(res.Traces[0].TraceCategory == y && res.Traces[1].TraceCategory == x, "categories are as given")
	}
}

// HC01Default: the size of a category that was not set is 1000.
//
// verif: prop=C01 steps=200000000 samples=1 timeout=200 reach=full,over
func HC01Default() {
	var all []*ft
	v.FrozenClock()
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)})
	over := v.Choose("over", 3)
	for i := 0; i < 1000+over; i++ {
		c.NewTrace(bg, "a")
	}
	res, err := c.Search(bg, &trc.SearchRequest{Limit: 2})
	v.Assert(err == nil && res.TotalCount == 1000, "a category holds 1000 traces")
	v.Assert(len(res.Traces) == 2 && res.Traces[0].TraceID == all[999+over].id, "the most recent ones")
	for i, t := range all {
		v.Assert(t.freed == v.B2I(i < over), "the oldest ones leave")
	}
	if over == 0 {
		v.Reach("full")
	} else {
		v.Reach("over")
	}
}

// HC01Large: large sizes are sizes too.
//
// verif: prop=C01 quick.K=70000 thorough.K=300000 steps=2000000000 samples=1 timeout=200 reach=end
func HC01Large() {
	var all []*ft
	v.FrozenClock()
	k := v.Param("K", 11000)
	c := trc.NewCollector(trc.CollectorConfig{NewTrace: fakeNew(&all)}).SetCategorySize(k)
	for i := 0; i < k+1; i++ {
		c.NewTrace(bg, "a")
	}
	freed := 0
	for _, t := range all {
		freed += t.freed
	}
	v.Assert(freed == 1 && all[0].freed == 1, "a category holds as many traces as its size")
	v.Reach("end")
}
