package core

import (
	"context"
	"errors"
	"sync/atomic"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// stream is a subscription running in a goroutine of its own.
type stream struct {
	ch     chan trc.Trace
	cancel context.CancelFunc
	ctx    context.Context
	stats  trc.StreamStats
	err    error
	ended  atomic.Bool
}

type streamer interface {
	Stream(context.Context, trc.Filter, chan<- trc.Trace) (trc.StreamStats, error)
	StreamStats(context.Context, chan<- trc.Trace) (trc.StreamStats, error)
}

// done orders what it is asked for before what follows.
func (s *stream) done() bool { return s.ended.Load() }

func newStream(size int) *stream {
	s := &stream{ch: make(chan trc.Trace, size)}
	s.ctx, s.cancel = context.WithCancel(bg)
	return s
}

func (s *stream) run(b streamer, f trc.Filter) {
	s.stats, s.err = b.Stream(s.ctx, f, s.ch)
	s.ended.Store(true)
}

func (s *stream) start(b streamer, f trc.Filter) *stream {
	v.Go("stream", func() { s.run(b, f) })
	v.Settle()
	return s
}

// drain takes what is waiting in the channel.
func (s *stream) drain() []trc.Trace {
	var got []trc.Trace
	for {
		select {
		case tr := <-s.ch:
			got = append(got, tr)
		default:
			return got
		}
	}
}

// HC13Publish: any published traces against any filter, with any room in the
// channel and a reader that takes from it at any point: each publish is exactly
// one of sent, skipped and dropped, and what is received is what was sent.
//
// verif: prop=C13 quick.N=2 thorough.N=3 preempt=0 reach=send,skip,drop
func HC13Publish() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	var c conditions
	if v.Bool("fcategory") {
		c.category = v.Str("fcat", 1, "xy")
	}
	c.active, c.finished = v.Bool("factive"), v.Bool("ffinished")
	c.success, c.errd = v.Bool("fsuccess"), v.Bool("ferrored")
	size := v.Choose("size", 2)
	other := &ft{id: "before", started: at(0), events: make([]trc.Event, 1)}
	b.Publish(bg, other) // nobody listens
	s := newStream(size).start(b, c.filter())
	var want trc.StreamStats
	var queue []string // in the channel
	n := v.Param("N", 2)
	for i := 0; i < n; i++ {
		t := &ft{id: string(rune('A' + i)), category: v.Str("category", 1, "xy"), started: at(0), finished: v.Bool("finished"), errored: v.Bool("errored"), events: make([]trc.Event, 1+i)}
		b.Publish(bg, t)
		switch {
		case !v.Is(c.holds(t)):
			v.Reach("skip")
			want.Skips++
		case len(queue) < size:
			v.Reach("send")
			want.Sends++
			queue = append(queue, t.id)
		default:
			v.Reach("drop")
			want.Drops++
		}
		got, err := b.StreamStats(bg, s.ch)
		v.Assert(err == nil, "an active stream has statistics")
		v.Assert(got == want, "each publish is one of sent, skipped and dropped")
		v.Assert(len(s.ch) == len(queue), "what is sent is in the channel")
		if len(queue) > 0 && v.Bool("take") {
			v.Assert((<-s.ch).ID() == queue[0], "traces arrive in order")
			queue = queue[1:]
		}
	}
	v.Assert(!s.done(), "a stream goes on until its context ends")
	s.cancel()
	v.Wait()
	v.Assert(s.done(), "a stream ends with its context")
	v.Assert(s.stats == want, "the final counts are returned")
	v.Assert(errors.Is(s.err, context.Canceled), "the context's error is returned")
	b.Publish(bg, other)
	for i, tr := range s.drain() {
		v.Assert(i < len(queue) && tr.ID() == queue[i], "nothing is sent after the end")
	}
	_, err := b.StreamStats(bg, s.ch)
	v.Assert(err != nil, "an ended stream has no statistics")
	v.Observe("sends", want.Sends)
	v.Observe("skips", want.Skips)
	v.Observe("drops", want.Drops)
}

// HC13Collector: each creation, event and finish of a collector's traces is
// published once, as it was at that moment.
//
// verif: prop=C13 quick.N=3 thorough.N=4 preempt=0 reach=finish
func HC13Collector() {
	v.FrozenClock()
	trc.SetTraceStacks(v.Bool("stacks"))
	c := trc.NewCollector(trc.CollectorConfig{Source: "src"})
	if v.Bool("decorated") {
		c.SetDecorators(func(tr trc.Trace) trc.Trace { return struct{ trc.Trace }{tr} })
	}
	_, old := c.NewTrace(bg, "old")
	s := newStream(20).start(c, trc.Filter{})
	type step struct {
		id       string
		last     string // its last event
		n        int    // events so far
		finished bool
		errored  bool
	}
	var want []step
	ctx, tr := c.NewTrace(bg, "cat")
	want = append(want, step{id: tr.ID()})
	cur := step{id: tr.ID()}
	texts := []string{}
	for i, n := 0, v.Param("N", 3); i < n; i++ {
		op := v.Choose("op", 6)
		if op == 4 {
			v.Reach("finish")
			tr.Finish()
			cur.finished = true
			want = append(want, cur)
			break
		}
		text := v.Str("text", 1, "")
		if op == 5 {
			c.NewTrace(ctx, text) // notes the reuse of the trace
			text = "(+ " + text + ")"
		} else {
			write(tr, op, text)
		}
		texts = append(texts, text)
		cur.last, cur.n = text, cur.n+1
		cur.errored = cur.errored || op == 2 || op == 3
		want = append(want, cur)
	}
	old.Tracef("late")
	want = append(want, step{id: old.ID(), last: "late", n: 1})
	got := s.drain()
	v.Assert(len(got) == len(want), "one delivery for each creation, event and finish")
	for i, w := range want {
		if i >= len(got) {
			break
		}
		g := got[i]
		v.Assert(g.ID() == w.id, "deliveries are in order")
		v.Assert(g.Finished() == w.finished && g.Errored() == w.errored, "a delivery shows the state at the time")
		evs := g.Events()
		switch {
		case w.finished:
			v.Assert(len(evs) == len(texts), "a finished trace is delivered with all events")
			for j := range evs {
				v.Assert(evs[j].What == texts[j], "a finished trace is delivered with all events, in order")
			}
		case w.n == 0:
			v.Assert(len(evs) == 0, "a new trace is delivered without events")
		default:
			v.Assert(len(evs) == 1 && evs[0].What == w.last, "an active trace is delivered with its latest event")
		}
	}
	st, err := c.StreamStats(bg, s.ch)
	v.Assert(err == nil && st.Sends == len(want) && st.Skips == 0 && st.Drops == 0, "every delivery is counted")
	s.cancel()
	v.Wait()
	v.Observe("n", len(want))
}

// HC13Two: two subscribers with their own filters and channels; one channel
// cannot be subscribed twice at a time, but again after the stream ended.
//
// verif: prop=C13 preempt=0 maporder=all reach=end
func HC13Two() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	f := []trc.Filter{{}, {Category: "x"}, {IsErrored: true}, {IsActive: true}}
	fa, fb := v.Choose("fa", 4), v.Choose("fb", 4)
	sa, sb := newStream(v.Choose("sizea", 3)).start(b, f[fa]), newStream(v.Choose("sizeb", 3)).start(b, f[fb])
	// the same channel once more
	ctx, cancel := context.WithCancel(bg)
	_, err := b.Stream(ctx, f[0], sa.ch)
	v.Assert(err != nil, "a channel can be subscribed once at a time")
	var wa, wb trc.StreamStats
	count := func(w *trc.StreamStats, ok bool, room int) {
		switch {
		case !ok:
			w.Skips++
		case w.Sends < room:
			w.Sends++
		default:
			w.Drops++
		}
	}
	holds := func(k int, t *ft) bool {
		switch k {
		case 1:
			return t.category == "x"
		case 2:
			return t.errored
		case 3:
			return !t.finished
		}
		return true
	}
	for i := 0; i < 2; i++ {
		t := &ft{id: string(rune('A' + i)), category: v.Str("category", 1, "xy"), started: at(0), finished: v.Bool("finished"), errored: v.Bool("errored"), events: make([]trc.Event, 1)}
		b.Publish(bg, t)
		count(&wa, v.Is(holds(fa, t)), cap(sa.ch))
		count(&wb, v.Is(holds(fb, t)), cap(sb.ch))
		ga, _ := b.StreamStats(bg, sa.ch)
		gb, _ := b.StreamStats(bg, sb.ch)
		v.Assert(ga == wa && gb == wb, "subscribers are independent")
	}
	sa.cancel()
	v.Settle()
	v.Assert(sa.done() && !sb.done(), "each stream ends with its own context")
	v.Assert(sa.stats == wa, "the final counts are returned")
	v.Assert(len(sa.ch) == wa.Sends, "what is counted as sent is in the channel")
	sa2 := &stream{ch: sa.ch, ctx: ctx, cancel: cancel}
	sa2.start(b, f[0])
	v.Assert(!sa2.done(), "a channel can be subscribed again")
	g, err := b.StreamStats(bg, sa.ch)
	v.Assert(err == nil && g == (trc.StreamStats{}), "a new stream counts anew")
	cancel()
	sb.cancel()
	v.Wait()
	v.Assert(sb.stats == wb && len(sb.ch) == wb.Sends, "the final counts are returned")
	v.Assert(sb.err != nil && sa2.err != nil, "the context's error is returned")
	v.Reach("end")
	v.Observe("a", wa.Sends)
	v.Observe("b", wb.Sends)
}

// HC13Conc: traces are published from two goroutines while a stream starts and
// is canceled, with or without a reader. Whatever the interleaving, the counts
// add up, each goroutine's traces arrive in its order without gaps other than
// drops, and nothing arrives after the stream returned.
//
// verif: prop=C13 quick.preempt=2 thorough.preempt=3 quick.each=2 thorough.each=2 reach=some,none
func HC13Conc() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	each := v.Param("each", 2)
	s := newStream(v.Choose("size", 3))
	early := v.Bool("early")
	if early {
		s.start(b, trc.Filter{Category: "x"})
	} else {
		v.Go("stream", func() { s.run(b, trc.Filter{Category: "x"}) })
	}
	after := -1
	for g := 0; g < 2; g++ {
		g := g
		v.Go("publisher", func() {
			for i := 0; i < each; i++ {
				b.Publish(bg, &ft{id: string(rune('A'+g)) + string(rune('0'+i)), category: []string{"x", "y"}[(g+i)%2], started: at(0), events: make([]trc.Event, 1)})
			}
		})
	}
	v.Go("canceler", func() {
		v.Yield()
		s.cancel()
	})
	v.Wait()
	after = len(s.ch)
	v.Assert(s.done() && errors.Is(s.err, context.Canceled), "a stream ends with its context")
	v.Assert(s.stats.Sends == after, "what is counted as sent is in the channel")
	total := s.stats.Sends + s.stats.Skips + s.stats.Drops
	v.Assert(total <= 2*each, "every publish counts at most once")
	b.Publish(bg, &ft{id: "late", category: "x", started: at(0), events: make([]trc.Event, 1)})
	last := [2]byte{}
	for _, tr := range s.drain() {
		id := tr.ID()
		v.Assert(tr.Category() == "x", "only what matches is sent")
		v.Assert(id != "late", "nothing is sent after the stream returned")
		v.Assert(id[1] > last[id[0]-'A'], "each publisher's traces arrive once and in order")
		last[id[0]-'A'] = id[1]
	}
	if total == 0 {
		v.Reach("none")
	}
	if total > 0 {
		v.Reach("some")
	}
	v.Observe("total", total)
}

// HC13Count: publishers in two goroutines to a stream that is there all the
// time: every publish is counted once.
//
// verif: prop=C13 quick.preempt=2 thorough.preempt=3 reach=end
func HC13Count() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{})
	size := v.Choose("size", 4)
	s := newStream(size).start(c, trc.Filter{})
	var received atomic.Int64
	for g := 0; g < 2; g++ {
		v.Go("writer", func() {
			_, tr := c.NewTrace(bg, "x")
			tr.Tracef("hello")
		})
	}
	reader := v.Bool("reader")
	if reader {
		v.Go("reader", func() {
			received.Add(int64(len(s.drain())))
			v.Yield()
			received.Add(int64(len(s.drain())))
		})
	}
	v.Settle()
	v.Assert(!s.done(), "a stream goes on until its context ends")
	st, _ := c.StreamStats(bg, s.ch)
	v.Assert(st.Skips == 0 && st.Sends+st.Drops == 4, "every publish is sent or dropped")
	v.Assert(st.Sends == int(received.Load())+len(s.ch), "what is counted as sent arrives")
	if !reader {
		v.Assert(st.Sends == v.IteInt(size < 4, size, 4), "a publish is dropped only when the channel is full")
	}
	s.cancel()
	v.Wait()
	v.Reach("end")
	v.Observe("sends", st.Sends)
}

// ownCtx is a context that ends with an error of its own.
type ownCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *ownCtx) Done() <-chan struct{} { return c.done }
func (c *ownCtx) Err() error            { return c.err }

// HC13Err: the error is that of the context, also if it had ended before.
//
// verif: prop=C13 preempt=0 reach=end
func HC13Err() {
	trc.SetTraceStacks(false)
	c := trc.NewCollector(trc.CollectorConfig{})
	why := errors.New("gone")
	ctx := &ownCtx{Context: bg, done: make(chan struct{})}
	ch := make(chan trc.Trace, 1)
	if v.Bool("before") {
		ctx.err = why
		close(ctx.done)
		c.NewTrace(bg, "x")
		st, err := c.Stream(ctx, trc.Filter{}, ch)
		v.Assert(err == why && st == (trc.StreamStats{}), "the context's error is returned")
	} else {
		var st trc.StreamStats
		var err error
		v.Go("stream", func() { st, err = c.Stream(ctx, trc.Filter{}, ch) })
		v.Settle()
		c.NewTrace(bg, "x")
		ctx.err = why
		close(ctx.done)
		v.Wait()
		v.Assert(err == why && st == (trc.StreamStats{Sends: 1}), "the context's error is returned with the counts")
	}
	_, err := c.StreamStats(bg, ch)
	v.Assert(err != nil, "an ended stream has no statistics")
	v.Reach("end")
}

// HC13Waiting: a reader that waits on the channel, buffered or not, gets the
// trace: it is dropped only when there is neither room nor a waiting reader.
//
// verif: prop=C13 preempt=0 reach=waited,dropped
func HC13Waiting() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	size := v.Choose("size", 2)
	s := newStream(size).start(b, trc.Filter{})
	readers := v.Choose("readers", 3)
	var got atomic.Int64
	for i := 0; i < readers; i++ {
		v.Go("reader", func() {
			<-s.ch
			got.Add(1)
		})
	}
	v.Settle()
	for i := 0; i < 3; i++ {
		b.Publish(bg, &ft{id: string(rune('A' + i)), started: at(0), events: make([]trc.Event, 1)})
	}
	room := readers + size
	st, err := b.StreamStats(bg, s.ch)
	v.Assert(err == nil && st.Skips == 0 && st.Sends+st.Drops == 3, "every publish is sent or dropped")
	v.Assert(st.Sends >= v.IteInt(room < 3, room, 3), "a publish is dropped only when the channel is full")
	if readers > 0 {
		v.Reach("waited")
	}
	if st.Drops > 0 {
		v.Reach("dropped")
	}
	s.cancel()
	v.Wait()
	v.Assert(int(got.Load()) == readers, "a waiting reader gets a trace")
	v.Observe("sends", st.Sends)
}

// HC13Filter: the filter decides over what would be delivered: the latest event
// of an active trace, without its stack, and all events of a finished one; also
// while nobody, or somebody else, takes what is sent.
//
// verif: prop=C13 preempt=0 quick.N=2 thorough.N=3 reach=send,skip
func HC13Filter() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	c := conditions{m: matchers[1+v.Choose("query", 2)]}
	other := newStream(1).start(b, trc.Filter{})
	s := newStream(2).start(b, c.filter())
	t := &ft{id: "A", started: at(0), finished: v.Bool("finished"), dur: 5}
	if v.Bool("fmin") {
		min := time.Duration(v.Int64("min", 1, 10))
		c.min = &min
		s.cancel()
		v.Settle()
		s = newStream(2).start(b, c.filter())
	}
	for i, n := 0, v.Choose("n", v.Param("N", 2)+1); i < n; i++ {
		t.events = append(t.events, trc.Event{What: v.Str("what", 1, "ab"), Stack: []trc.Frame{{Function: v.Str("fn", 1, "ab"), FileLine: "a:1"}}})
	}
	reduced := *t
	reduced.events = nil
	for i, ev := range t.events {
		if t.finished || i == len(t.events)-1 {
			reduced.events = append(reduced.events, trc.Event{What: ev.What})
		}
	}
	b.Publish(bg, t)
	got, _ := b.StreamStats(bg, s.ch)
	if v.Is(c.holds(&reduced)) {
		v.Reach("send")
		v.Assert(got == trc.StreamStats{Sends: 1}, "what matches is sent")
	} else {
		v.Reach("skip")
		v.Assert(got == trc.StreamStats{Skips: 1}, "what does not match is skipped")
	}
	o, _ := b.StreamStats(bg, other.ch)
	v.Assert(o == trc.StreamStats{Sends: 1}, "another subscriber's filter does not matter")
	s.cancel()
	other.cancel()
	v.Wait()
	v.Observe("sends", got.Sends)
}

// HC13Shared: collectors that share a broker, next to one that does not: a
// subscriber through any of them gets the traces of all that share it, each
// once and under its own source, and those of no other.
//
// verif: prop=C13 quick.N=3 thorough.N=4 preempt=0 reach=shared,apart
func HC13Shared() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	b := trc.NewBroker()
	cs := []*trc.Collector{
		trc.NewCollector(trc.CollectorConfig{Source: "A", Broker: b}),
		trc.NewCollector(trc.CollectorConfig{Source: "B", Broker: b}),
		trc.NewCollector(trc.CollectorConfig{Source: "C"}),
	}
	via := v.Choose("via", 4)
	var src streamer = b
	if via < 3 {
		src = cs[via]
	}
	var f trc.Filter
	switch v.Choose("filter", 3) {
	case 1:
		f.Sources = []string{"B"}
	case 2:
		f.Sources = []string{"C", "A"}
	}
	s := newStream(20).start(src, f)
	var want trc.StreamStats
	var ids []string
	trs := make([]trc.Trace, 3)
	for i, n := 0, v.Param("N", 3); i < n; i++ {
		k := v.Choose("collector", 3)
		switch {
		case trs[k] == nil:
			_, trs[k] = cs[k].NewTrace(bg, "cat")
		case v.Bool("event"):
			trs[k].Tracef("event")
		default:
			trs[k].Finish()
		}
		if (k == 2) != (via == 2) {
			v.Reach("apart")
			continue
		}
		v.Reach("shared")
		if len(f.Sources) > 0 && !has(f.Sources, string(rune('A'+k))) {
			want.Skips++
			continue
		}
		want.Sends++
		ids = append(ids, trs[k].ID())
	}
	got := s.drain()
	v.Assert(len(got) == len(ids), "what happens to a trace is delivered once")
	for i, g := range got {
		if i < len(ids) {
			v.Assert(g.ID() == ids[i], "in order")
		}
	}
	for _, g := range got {
		for k, tr := range trs {
			if tr != nil && tr.ID() == g.ID() {
				v.Assert(g.Source() == string(rune('A'+k)), "under the source of its collector")
			}
		}
	}
	st, err := src.StreamStats(bg, s.ch)
	v.Assert(err == nil && st == want, "skips and sends are counted")
	s.cancel()
	v.Wait()
	v.Observe("n", len(got))
}
