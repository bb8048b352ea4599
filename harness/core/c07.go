package core

import (
	"context"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// matcher is a query and an independent statement of what it matches.
type matcher struct {
	query string
	match func(s string) bool
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

var matchers = []matcher{
	{"", func(s string) bool { return true }},
	{"a", func(s string) bool { return contains(s, "a") }},
	{"^a$", func(s string) bool { return s == "a" }},
	{"a|b", func(s string) bool { return contains(s, "a") || contains(s, "b") }},
	{"(?i)a", func(s string) bool { return contains(s, "a") || contains(s, "A") }},
	{"[b-d]x?$", func(s string) bool {
		n := len(s)
		if n > 0 && s[n-1] >= 'b' && s[n-1] <= 'd' {
			return true
		}
		return n > 1 && s[n-1] == 'x' && s[n-2] >= 'b' && s[n-2] <= 'd'
	}},
	{" a", func(s string) bool { return contains(s, " a") }},
	{"b ", func(s string) bool { return contains(s, "b ") }},
	{" ", func(s string) bool { return contains(s, " ") }},
	{"^$", func(s string) bool { return s == "" }},
	{"^a*$", func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] != 'a' {
				return false
			}
		}
		return true
	}},
	{"x*", func(s string) bool { return true }},
}

// conditions is a filter's conditions, stated apart from the filter.
type conditions struct {
	sources, ids                    []string
	category                        string
	active, finished, success, errd bool
	min                             *time.Duration
	m                               matcher
}

func (c conditions) filter() trc.Filter {
	return trc.Filter{Sources: c.sources, IDs: c.ids, Category: c.category, IsActive: c.active, IsFinished: c.finished,
		MinDuration: c.min, IsSuccess: c.success, IsErrored: c.errd, Query: c.m.query}
}

func in(s string, set []string) bool {
	ok := false
	for _, x := range set {
		ok = v.Or(ok, x == s)
	}
	return ok
}

// holds is the specification.
func (c conditions) holds(t *ft) bool {
	ok := true
	if len(c.sources) > 0 {
		ok = v.And(ok, in(t.source, c.sources))
	}
	if len(c.ids) > 0 {
		ok = v.And(ok, in(t.id, c.ids))
	}
	if c.category != "" {
		ok = v.And(ok, t.category == c.category)
	}
	if c.active {
		ok = v.And(ok, !t.finished)
	}
	if c.finished {
		ok = v.And(ok, t.finished)
	}
	if c.min != nil {
		ok = v.And(ok, v.And(t.finished, t.dur >= *c.min))
	}
	if c.success {
		ok = v.And(ok, !t.errored)
	}
	if c.errd {
		ok = v.And(ok, t.errored)
	}
	if c.m.query != "" {
		ok = v.And(ok, c.matches(t))
	}
	return ok
}

func (c conditions) matches(t *ft) bool {
	for _, ev := range t.events {
		if c.m.match(ev.What) {
			return true
		}
		for _, fr := range ev.Stack {
			if c.m.match(fr.Function) || c.m.match(compact(fr)) {
				return true
			}
		}
	}
	return false
}

// compact is the shown form of a frame's file and line: the import path of the
// function's package parent, then the last two elements of the file.
func compact(fr trc.Frame) string { return fr.CompactFileLine() }

func anyConditions() conditions {
	var c conditions
	n := v.Choose("nsources", 3)
	for i := 0; i < n; i++ {
		c.sources = append(c.sources, v.Str("fsource", 1, "st"))
	}
	n = v.Choose("nids", 3)
	for i := 0; i < n; i++ {
		c.ids = append(c.ids, v.Str("fid", 1, "AB"))
	}
	if v.Bool("fcategory") {
		c.category = v.Str("fcat", 1, "xy")
	}
	c.active, c.finished = v.Bool("factive"), v.Bool("ffinished")
	c.success, c.errd = v.Bool("fsuccess"), v.Bool("ferrored")
	if v.Bool("fmin") {
		d := time.Duration(v.Int64("fmindur", -1<<62, 1<<62))
		c.min = &d
	}
	return c
}

func anyFake() *ft {
	return &ft{id: v.Str("id", 1, "AB"), source: v.Str("source", 1, "st"), category: v.Str("category", 1, "xy"),
		dur: time.Duration(v.Int64("dur", -1<<62, 1<<62)), finished: v.Bool("finished"), errored: v.Bool("errored"), started: at(0)}
}

// HC07Conditions: any filter against any trace.
//
// verif: prop=C07 reach=yes,no
func HC07Conditions() {
	c, t := anyConditions(), anyFake()
	f := c.filter()
	got, want := f.Allow(t), c.holds(t)
	v.Assert(got == want, "admitted exactly when every condition holds")
	v.Assert(f.Allow(t) == got, "the answer is the same a second time")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	v.Observe("allow", got)
}

// HC07Text: sources, IDs and categories are compared as they are, in full.
//
// verif: prop=C07 quick.L=2 thorough.L=3 reach=yes,no
func HC07Text() {
	l := v.Param("L", 2)
	text := func(name string) string { return v.Str(name, v.Choose("len", l+1), "aA *\x00") }
	t := &ft{id: "I", source: "s", category: "c", started: at(0)}
	var c conditions
	have, set := text("have"), []string{text("want")}
	if v.Bool("two") {
		set = append(set, "aaaa")
	}
	switch v.Choose("kind", 3) {
	case 0:
		c.sources, t.source = set, have
	case 1:
		c.ids, t.id = set, have
	default:
		c.category, t.category = set[0], have
	}
	f := c.filter()
	got := f.Allow(t)
	v.Assert(got == c.holds(t), "text is compared as it is")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	v.Observe("allow", got)
}

// HC07Query: any text in events, functions and files, against queries whose
// meaning is stated independently.
//
// verif: prop=C07 quick.text=2 thorough.text=3 quick.events=2 thorough.events=2 reach=yes,no,blank
func HC07Query() {
	c := conditions{m: matchers[v.Choose("query", len(matchers))]}
	t := &ft{id: "A", source: "s", category: "c", started: at(0), finished: v.Bool("finished")}
	n := v.Choose("nevents", v.Param("events", 1)+1)
	for i := 0; i < n; i++ {
		ev := trc.Event{What: v.Str("what", v.Choose("len", v.Param("text", 2)+1), "abBcx ")}
		if v.Bool("stack") {
			ev.Stack = []trc.Frame{{Function: v.Str("fn", 1, "abBz"), FileLine: v.Str("file", 1, "adz") + ":7"}}
		}
		t.events = append(t.events, ev)
	}
	if n == 1 && t.events[0].What == "" {
		v.Reach("blank")
	}
	f := c.filter()
	if v.Bool("normalized") {
		v.Assert(len(f.Normalize()) == 0, "a valid query is no problem")
	}
	got, want := f.Allow(t), c.holds(t)
	v.Assert(got == want, "admitted exactly when the query matches an event or its stack")
	v.Assert(f.Allow(t) == got, "the answer is the same a second time")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	v.Observe("allow", got)
}

// HC07Frames: the query sees a frame's function and its compact file and line.
//
// verif: prop=C07 reach=yes,no
func HC07Frames() {
	fr := []trc.Frame{
		{Function: "github.com/me/mod/pkg.Func", FileLine: "/home/me/src/mod/pkg/file.go:123"},
		{Function: "main.main", FileLine: "/home/me/src/mod/main.go:7"},
		{Function: "main.main", FileLine: "main.go:7"},
	}[v.Choose("frame", 3)]
	q := v.Choose("q", 7)
	query := []string{"pkg[.]Func", "^github.com/me/mod/pkg/file.go:123$", "home", "^mod/main.go:7$", "^main.go:7$", "main.go:7", "main[.]main"}[q]
	want := []bool{
		fr.Function == "github.com/me/mod/pkg.Func",
		fr.Function == "github.com/me/mod/pkg.Func",
		false,
		fr.FileLine == "/home/me/src/mod/main.go:7",
		fr.FileLine == "main.go:7",
		fr.Function == "main.main",
		fr.Function == "main.main",
	}[q]
	t := &ft{id: "A", started: at(0)}
	if v.Bool("two") {
		t.events = append(t.events, trc.Event{What: "q", Stack: []trc.Frame{{Function: "f", FileLine: "f:1"}, fr}})
	} else {
		t.events = append(t.events, trc.Event{What: "q", Stack: []trc.Frame{fr}})
	}
	f := trc.Filter{Query: query}
	got := f.Allow(t)
	v.Assert(got == want, "the query sees the function and the compact file and line")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	v.Observe("allow", got)
}

// HC07Invalid: a query that is no regular expression is reported by Normalize
// and then ignored.
//
// verif: prop=C07 reach=end
func HC07Invalid() {
	c, t := conditions{}, anyFake()
	c.finished, c.errd = v.Bool("ffinished"), v.Bool("ferrored")
	f := c.filter()
	f.Query = []string{"(", "[", "a**", "(?P<n", "\\"}[v.Choose("bad", 5)]
	norm := v.Bool("normalized")
	if norm {
		v.Assert(len(f.Normalize()) == 1, "an invalid query is one problem")
	}
	want := c.holds(t)
	v.Assert(f.Allow(t) == want, "an invalid query is ignored, the rest holds")
	v.Assert(f.Allow(t) == want, "an invalid query is ignored, the rest holds, again")
	v.Assert(!norm || len(f.Normalize()) == 0, "an ignored query is no longer a problem")
	v.Reach("end")
}

// HC07Kinds: a filter judges a trace, its search snapshot and its finished
// stream snapshot by the same conditions.
//
// verif: prop=C07 reach=yes,no
func HC07Kinds() {
	v.FrozenClock()
	trc.SetTraceStacks(false)
	tr := makeTrace(v.Choose("kind", 2))
	write(tr, v.Choose("method", 4), v.Str("text", 1, "ab"))
	write(tr, v.Choose("method", 4), v.Str("text", 1, "ab"))
	if v.Bool("finish") {
		tr.Finish()
	}
	f := trc.Filter{IsActive: v.Bool("factive"), IsFinished: v.Bool("ffinished"), IsErrored: v.Bool("ferrored"), IsSuccess: v.Bool("fsuccess"), Query: []string{"", "a", "b"}[v.Choose("query", 3)]}
	got := f.Allow(tr)
	v.Assert(f.Allow(trc.NewSearchTrace(tr)) == got, "the search snapshot is judged alike")
	if tr.Finished() {
		v.Assert(f.Allow(trc.NewStreamTrace(tr)) == got, "the stream snapshot of a finished trace is judged alike")
	}
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
	v.Observe("allow", got)
}

// HC07Changed: a filter that is used, changed and used again is judged by what
// it sets now; also the filter of a request that is searched for again.
//
// verif: prop=C07 preempt=0 reach=yes,no
func HC07Changed() {
	v.FrozenClock()
	queries := []string{"", "a", "^b$", "("}
	t := &ft{id: "A", category: "c", started: at(0), events: []trc.Event{{When: at(0), What: v.Str("what", 1, "ab")}}}
	var f trc.Filter
	ask := func() bool { return f.Allow(t) }
	if v.Bool("search") {
		c := trc.NewCollector(trc.CollectorConfig{NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			return trc.Put(ctx, t)
		}})
		c.NewTrace(bg, "c")
		req := &trc.SearchRequest{}
		ask = func() bool {
			req.Filter.Query, req.Filter.Category = f.Query, f.Category
			res, err := c.Search(bg, req)
			v.Assert(err == nil, "the search succeeds")
			return len(res.Traces) == 1
		}
	} else if v.Bool("normalize") {
		allow := ask
		ask = func() bool {
			f.Normalize()
			return allow()
		}
	}
	for i := 0; i < 2; i++ {
		q := v.Choose("query", len(queries))
		f.Query, f.Category = queries[q], []string{"", "c", "d"}[v.Choose("category", 3)]
		what := t.events[0].What
		want := v.And(f.Category != "d", v.Or(q == 0, q == 3, v.And(q == 1, what == "a"), v.And(q == 2, what == "b")))
		got := ask()
		v.Assert(got == want, "a filter is judged by what it sets now")
		if got {
			v.Reach("yes")
		} else {
			v.Reach("no")
		}
	}
}
