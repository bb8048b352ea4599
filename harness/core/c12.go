package core

import (
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
)

// HC12Request: any limit and any list of buckets.
//
// verif: prop=C12 quick.B=3 thorough.B=4 reach=end
func HC12Request() {
	def := append([]time.Duration(nil), trc.DefaultBucketing...)
	limit := v.Int("limit", -1<<62, 1<<62)
	req := &trc.SearchRequest{Limit: limit, StackDepth: v.Int("depth", -1<<62, 1<<62)}
	depth := req.StackDepth
	n := v.Choose("nbuckets", v.Param("B", 3)+1)
	var asked []time.Duration
	for i := 0; i < n; i++ {
		asked = append(asked, time.Duration(v.Int64("bucket", -1<<63, 1<<63-1)))
	}
	req.Bucketing = append([]time.Duration(nil), asked...)
	v.Assert(len(req.Normalize()) == 0, "there is no problem with it")
	v.Assert(req.Limit == v.IteInt(limit <= 0, 10, v.IteInt(limit > 250, 250, limit)), "the limit is between 1 and 250, 10 if not positive")
	v.Assert(req.StackDepth == depth, "the stack depth is kept")
	checkBuckets(req.Bucketing)
	for _, a := range asked {
		found := false
		for _, b := range req.Bucketing {
			found = v.Or(found, a == b)
		}
		v.Assert(v.Or(a < 0, found), "every requested boundary is kept")
	}
	for _, b := range req.Bucketing {
		found := b == 0
		for _, a := range asked {
			found = v.Or(found, a == b)
		}
		if n > 0 {
			v.Assert(found, "no boundary is made up")
		}
	}
	once, lim := append([]time.Duration(nil), req.Bucketing...), req.Limit
	v.Assert(len(req.Normalize()) == 0, "there is still no problem with it")
	v.Assert(req.Limit == lim, "normalizing again changes no limit")
	sameBuckets(req.Bucketing, once, "normalizing again changes no bucket")
	if n == 0 {
		sameBuckets(req.Bucketing, def, "the default buckets are used")
	}
	sameBuckets(trc.DefaultBucketing, def, "the default buckets are as before")
	v.Reach("end")
	v.Observe("limit", req.Limit)
	v.Observe("n", len(req.Bucketing))
}

func checkBuckets(bs []time.Duration) {
	v.Assert(len(bs) > 0, "there is a bucket")
	v.Assert(bs[0] == 0, "the first bucket starts at zero")
	for i := 1; i < len(bs); i++ {
		v.Assert(bs[i-1] <= bs[i], "the buckets are sorted")
	}
}

func sameBuckets(a, b []time.Duration, label string) {
	v.Assert(len(a) == len(b), label)
	for i := range a {
		if i < len(b) {
			v.Assert(a[i] == b[i], label)
		}
	}
}

// HC12Valid: a valid request is left as it is.
//
// verif: prop=C12 quick.B=3 thorough.B=4 reach=end
func HC12Valid() {
	req := &trc.SearchRequest{Limit: v.Int("limit", 1, 250), Bucketing: anyBuckets(1 + v.Choose("n", v.Param("B", 3)))}
	want, lim := append([]time.Duration(nil), req.Bucketing...), req.Limit
	req.Filter = trc.Filter{Sources: []string{"s"}, IDs: []string{"i"}, Category: "c", IsActive: true, IsErrored: true, Query: []string{"", "a+"}[v.Choose("query", 2)]}
	q := req.Filter.Query
	v.Assert(len(req.Normalize()) == 0, "a valid request has no problem")
	sameBuckets(req.Bucketing, want, "a valid request is left unchanged")
	v.Assert(req.Limit == lim, "a valid request is left unchanged: limit")
	f := req.Filter
	v.Assert(len(f.Sources) == 1 && f.Sources[0] == "s" && len(f.IDs) == 1 && f.IDs[0] == "i" && f.Category == "c" && f.IsActive && !f.IsFinished && f.IsErrored && !f.IsSuccess && f.Query == q, "a valid request is left unchanged: filter")
	v.Reach("end")
}

// HC12Query: an invalid query is reported once and dropped.
//
// verif: prop=C12 reach=end
func HC12Query() {
	bad := []string{"(", "a)", "[", "*", "a{2,1}", "\\", "(?P<", "x**"}[v.Choose("bad", 8)]
	req := &trc.SearchRequest{Filter: trc.Filter{Query: bad, IsErrored: v.Bool("errored")}}
	v.Assert(len(req.Normalize()) == 1, "an invalid query is a problem")
	v.Assert(len(req.Normalize()) == 0, "normalizing again finds no problem")
	v.Assert(req.Limit == 10, "the rest is normalized: limit")
	checkBuckets(req.Bucketing)
	v.Reach("end")
}

// HC12Text: the text form names every condition that is set, with its values.
//
// verif: prop=C12 reach=end
func HC12Text() {
	var f trc.Filter
	var parts, not []string
	cond := func(set bool, text string) bool {
		if set {
			parts = append(parts, text)
		} else {
			not = append(not, text)
		}
		return set
	}
	if cond(v.Bool("sources"), "Sources=") {
		a, b := v.Str("src", 1, "stu"), v.Str("src", 1, "stu")
		f.Sources = []string{a, b}
		parts = append(parts, "Sources=["+a+" "+b+"]")
	}
	if cond(v.Bool("ids"), "IDs=") {
		a := v.Str("id", 1, "ijk")
		f.IDs = []string{a}
		parts = append(parts, "IDs=["+a+"]")
	}
	if cond(v.Bool("category"), "Category=") {
		f.Category = v.Str("cat", 1, "abc")
		parts = append(parts, "'"+f.Category+"'")
	}
	f.IsActive = cond(v.Bool("active"), "IsActive")
	f.IsFinished = cond(v.Bool("finished"), "IsFinished")
	f.IsSuccess = cond(v.Bool("success"), "IsSuccess")
	f.IsErrored = cond(v.Bool("errored"), "IsErrored")
	if cond(v.Bool("min"), "MinDuration=") {
		d := time.Duration(v.Choose("dur", 3)) * time.Second
		f.MinDuration = &d
		parts = append(parts, d.String())
	}
	if cond(v.Bool("query"), "Query=") {
		f.Query = v.Str("q", 1, "xyz")
		parts = append(parts, "'"+f.Query+"'")
	}
	s := f.String()
	for _, p := range parts {
		v.Assert(contains(s, p), "every condition set is described")
	}
	for _, p := range not {
		v.Assert(!contains(s, p), "no other condition is described")
	}
	v.Assert(len(s) > 0, "there is always a text")
	req := trc.SearchRequest{Filter: f, Limit: 7}
	t := req.String()
	v.Assert(contains(t, s), "the request describes its filter")
	v.Assert(contains(t, "7"), "the request describes its limit")
	v.Reach("end")
	v.Observe("text", s)
}
