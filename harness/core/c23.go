package core

import (
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// HC23IDs: traces made in any of the ways, at any times of a clock that does
// not go back, some recycled in between: IDs are distinct and in order.
//
// verif: prop=C23 quick.N=3 thorough.N=5 preempt=0 reach=end
func HC23IDs() {
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{}).SetCategorySize(1)
	last := ""
	for i, n := 0, v.Param("N", 3); i < n; i++ {
		var tr trc.Trace
		switch v.Choose("how", 4) {
		case 0:
			_, tr = trc.New(bg, "src", "cat")
		case 1:
			_, tr = c.NewTrace(bg, "cat")
		case 2:
			_, tr = c.NewTrace(bg, "cat")
			tr.Finish()
		case 3:
			tr = trc.Get(bg)
		}
		id := tr.ID()
		v.Assert(id > last, "IDs are distinct and sort in creation order")
		v.Assert(tr.ID() == id, "an ID stays the same")
		last = id
	}
	v.Reach("end")
}

// HC23Conc: traces made by several goroutines.
//
// verif: prop=C23 quick.preempt=2 thorough.preempt=3 reach=end
func HC23Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{}).SetCategorySize(2)
	var ids [2][2]string
	for g := 0; g < 2; g++ {
		g := g
		v.Go("creator", func() {
			for i := 0; i < 2; i++ {
				_, tr := c.NewTrace(bg, []string{"a", "b"}[g])
				ids[g][i] = tr.ID()
				v.Assert(tr.Category() == []string{"a", "b"}[g], "each trace has its own category")
			}
		})
	}
	v.Wait()
	v.Assert(ids[0][0] != ids[1][0] && ids[0][0] != ids[1][1] && ids[0][1] != ids[1][0] && ids[0][1] != ids[1][1], "IDs are distinct")
	v.Assert(ids[0][0] != ids[0][1] && ids[1][0] != ids[1][1], "IDs are distinct")
	v.Reach("end")
}

// HC23Life: metadata and duration over the life of a trace under any clock.
//
// verif: prop=C23 quick.N=2 thorough.N=3 preempt=0 ticks=64 reach=finished,active
func HC23Life() {
	trc.SetTraceStacks(false)
	source, cat := v.Str("source", 1, ""), v.Str("cat", 1, "")
	before := time.Now()
	var tr trc.Trace
	switch v.Choose("kind", 3) {
	case 0:
		_, tr = trc.New(bg, source, cat)
	case 1:
		_, tr = trc.NewCollector(trc.CollectorConfig{Source: source}).NewTrace(bg, cat)
	case 2:
		ctx, _ := trc.NewCollector(trc.CollectorConfig{}).SetSourceName(source).NewTrace(bg, cat)
		_, tr = trc.Prefix(ctx, "pre")
	}
	after := time.Now()
	id, start := tr.ID(), tr.Started()
	v.Assert(!start.Before(before) && !start.After(after), "the start is the time of creation")
	last := time.Duration(0)
	finished := false
	var final time.Duration
	for i, n := 0, v.Param("N", 2); i < n; i++ {
		switch op := v.Choose("op", 3); op {
		case 0:
			write(tr, v.Choose("method", 4), "x")
		case 1:
			t0 := time.Now()
			tr.Finish()
			t1 := time.Now()
			if !finished {
				final = tr.Duration()
				v.Assert(final >= t0.Sub(start) && final <= t1.Sub(start), "the duration is that at the finish")
			}
			finished = true
		}
		d := tr.Duration()
		now := time.Now()
		v.Assert(d >= last && d >= 0, "the duration never decreases")
		v.Assert(d <= now.Sub(start), "the duration is not ahead of the clock")
		if finished {
			v.Assert(d == final, "the duration is fixed at the finish")
		}
		last = d
		v.Assert(tr.ID() == id && tr.Source() == source && tr.Category() == cat && tr.Started().Equal(start), "metadata is fixed")
	}
	if finished {
		v.Reach("finished")
	} else {
		v.Reach("active")
		t0 := time.Now()
		d := tr.Duration()
		v.Assert(d >= t0.Sub(start), "the duration of an active trace is the time since its creation")
	}
}
