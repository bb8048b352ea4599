package web

import (
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// browse asks a server for a page.
func browse(s trcweb.Searcher, query string) *recorder {
	srv := &trcweb.TraceServer{Searcher: s, Streamer: noStream{}}
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: query}, Header: http.Header{"Accept": {"text/html"}}, Body: http.NoBody}).WithContext(bg)
	rec := &recorder{h: http.Header{}}
	srv.ServeHTTP(rec, r)
	return rec
}

// HC27Links: any text in the data of a page, and where its links lead.
//
// verif: prop=C27 quick.L=1 thorough.L=2 preempt=0 steps=40000000 timeout=600 reach=param
func HC27Links() {
	v.FrozenClock()
	t, b := plain(), plain()
	which := v.Choose("field", len(t.all()))
	text := v.Str("text", v.Param("L", 1), "<\"&+=a/\\#%;? ")
	*t.all()[which] = text
	*b.all()[which] = mark
	switch which {
	case 1, 2: // functions and files are shortened
		v.Assume(!strings.ContainsAny(text, "/:"))
	case 10:
		if _, err := regexp.Compile(text); err != nil {
			return // not used
		}
	}
	samePage(page(t, 1000), page(b, 1000), text, true)
}

// element is a tag with its attributes, and the text after it.
type element struct {
	name  string
	attrs map[string]string
	text  string
}

func elements(ts []tok) []element {
	var es []element
	attr := ""
	for _, t := range ts {
		if t.kind == "tag" {
			es = append(es, element{name: t.s, attrs: map[string]string{}})
			continue
		}
		if len(es) == 0 {
			continue
		}
		e := &es[len(es)-1]
		switch t.kind {
		case "attr":
			attr = t.s
			e.attrs[attr] = ""
		case "value", "link":
			e.attrs[attr] = t.s
		case "text":
			e.text += t.s
		}
	}
	return es
}

// submit is the query a browser sends for the page's search form. Fields
// without a value are disabled by the page's script.
func submit(es []element) url.Values {
	q := url.Values{}
	inForm := false
	var sel, first, chosen string
	var options, selected int
	add := func(name, value string) {
		if name != "" && value != "" {
			q.Add(name, value)
		}
	}
	for _, e := range es {
		switch {
		case e.name == "form":
			inForm = true
		case e.name == "/form":
			inForm = false
		case !inForm:
		case e.name == "input":
			if t := e.attrs["type"]; t != "submit" && t != "button" {
				add(e.attrs["name"], e.attrs["value"])
			}
		case e.name == "select":
			sel, first, chosen, options, selected = e.attrs["name"], "", "", 0, 0
		case e.name == "option":
			val, ok := e.attrs["value"]
			if !ok {
				val = strings.TrimSpace(e.text)
			}
			if options == 0 {
				first = val
			}
			options++
			if _, ok := e.attrs["selected"]; ok {
				chosen = val
				selected++
			}
		case e.name == "/select":
			v.Assert(selected <= 1, "at most one option is selected")
			if selected == 0 {
				chosen = first
			}
			add(sel, chosen)
		}
	}
	return q
}

// HC27Form: submitting the search form of a page, unchanged, repeats the
// search that the page shows.
//
// verif: prop=C27 preempt=0 steps=40000000 timeout=600 reach=end
func HC27Form() {
	v.FrozenClock()
	q := url.Values{}
	switch v.Choose("conditions", 5) {
	case 0:
		for _, k := range []string{"active", "finished", "success", "errored"} {
			if v.Choose(k, 2) == 1 {
				q.Set(k, "")
			}
		}
	case 1:
		name := v.Str("category", 1, "<\"&+=a ")
		if v.Choose("word", 2) == 1 {
			name = "overall"
		}
		q.Set("category", name)
	case 2:
		q.Set("min", time.Duration(v.Int64("min", 1, 1<<40-1)).String())
	case 3:
		q.Set("q", v.Str("q", 1, "<\"&=a "))
		q.Set("n", strconv.Itoa([]int{1, 10, 25, 30, 100, 250}[v.Choose("n", 6)]))
	case 4:
		q.Set("source", []string{"s1", "s2<", "gone"}[v.Choose("source", 3)])
	}
	res := okResponse()
	res.Sources = []string{"s1", "s2<", "s3"}[:v.Choose("sources", 4)]
	first := &asked{res: res}
	rec := browse(first, q.Encode())
	v.Assert(rec.code == 200, "the page is served")
	again := &asked{res: res}
	rec = browse(again, submit(elements(tokens(string(rec.data), false))).Encode())
	v.Assert(rec.code == 200, "the page of the form's search is served")
	sameFilter(first.req.Filter, again.req.Filter, "the form repeats the search: filter")
	v.Assert(first.req.Limit == again.req.Limit, "the form repeats the search: limit")
	v.Reach("end")
}

// HC27Counts: the link on a number leads to the traces that were counted.
//
// verif: prop=C27 preempt=0 steps=40000000 timeout=600 reach=active,errored,bucket,category
func HC27Counts() {
	v.FrozenClock()
	var (
		name    = v.Str("category", 1, "<&+a")
		buckets = trc.DefaultBucketing
		q       = url.Values{}
		want    trc.Filter
	)
	if v.Choose("word", 2) == 1 {
		name = "overall" // as the line for all of them
	}
	if n := v.Choose("bucketing", 3); n > 0 {
		buckets = []time.Duration{0, time.Millisecond, 90 * time.Second}
		if n == 2 { // as many as the default
			for i := 3; i < len(trc.DefaultBucketing); i++ {
				buckets = append(buckets, time.Duration(i)*time.Hour)
			}
		}
		for _, b := range buckets {
			q.Add("b", b.String())
		}
	}
	if v.Choose("limit", 2) == 1 {
		q.Set("n", "30")
	}
	if v.Choose("query", 2) == 1 {
		want.Query = "x&y"
		q.Set("q", want.Query)
	}
	if v.Choose("source", 2) == 1 {
		want.Sources = []string{"s&1"}
		q.Set("source", "s&1")
	}
	switch v.Choose("condition", 5) { // of the page itself, not of the links
	case 1:
		q.Set("active", "")
	case 2:
		q.Set("errored", "")
	case 3:
		q.Set("category", "other")
	case 4:
		q.Set("min", "1s")
	}
	cat := func(name string, base int) *trc.CategoryStats {
		cs := &trc.CategoryStats{Category: name, ActiveCount: base + 1, ErroredCount: base + 2, EventCount: 5, Oldest: at(-50 * 3600e9), Newest: at(-40 * 3600e9)}
		for i := range buckets {
			cs.BucketCounts = append(cs.BucketCounts, base+100-i)
		}
		return cs
	}
	stats := trc.NewSearchStats(buckets)
	stats.Categories[name] = cat(name, 1000)
	stats.Categories["other"] = cat("other", 3000)
	a := &asked{res: &trc.SearchResponse{Stats: stats}}
	rec := browse(a, q.Encode())
	v.Assert(rec.code == 200, "the page is served")
	limit := a.req.Limit

	follow := func(href string) *trc.SearchRequest {
		b := &asked{}
		v.Assert(strings.HasPrefix(href, "?"), "the link leads to this page")
		ask(b, href[1:])
		return &b.req
	}
	n := 0
	for _, l := range linksOf(string(rec.data)) {
		f := want
		num, err := strconv.Atoi(strings.TrimSpace(l.text))
		if err == nil {
			switch num / 1000 {
			case 1:
				f.Category = name
			case 3:
				f.Category = "other"
			case 4: // the sum of both
				f.Category = ""
			default:
				continue
			}
			base := num - num%1000
			if f.Category == "" {
				switch k := num - 4000; {
				case k == 2:
					f.IsActive = true
				case k == 4:
					f.IsErrored = true
				default:
					f.MinDuration = &buckets[(200-k)/2]
				}
			} else {
				switch k := num - base; {
				case k == 1:
					f.IsActive = true
					v.Reach("active")
				case k == 2:
					f.IsErrored = true
					v.Reach("errored")
				default:
					f.MinDuration = &buckets[100-k]
					v.Reach("bucket")
				}
			}
		} else if l.text == name && name != "overall" {
			f.Category = name
			v.Reach("category")
		} else {
			continue
		}
		n++
		got := follow(l.href)
		sameFilter(f, got.Filter, "the link on a number leads to what is counted")
		v.Assert(got.Limit == limit, "the link keeps the limit")
		v.Assert(len(got.Bucketing) == len(buckets), "the link keeps the buckets")
		for i := range buckets {
			v.Assert(got.Bucketing[i] == buckets[i], "the link keeps the buckets")
		}
	}
	if name == "overall" {
		n++ // its name is that of two lines
	}
	v.Assert(n >= 2*(2+len(buckets))+2+len(buckets)+1, "every count has a link")
}

type anchor struct{ href, text string }

// linksOf lists the links of a page with their text.
func linksOf(s string) []anchor {
	var as []anchor
	for {
		at := strings.Index(s, "<a ")
		if at < 0 {
			return as
		}
		s = s[at:]
		end := strings.Index(s, "</a>")
		if end < 0 {
			v.Fail("a link without end")
		}
		el := s[:end]
		s = s[end:]
		from := strings.Index(el, "href=\"")
		if from < 0 {
			continue
		}
		el = el[from+len("href=\""):]
		q := strings.Index(el, "\"")
		gt := strings.Index(el, ">")
		if q < 0 || gt < q {
			v.Fail("a link without end")
		}
		as = append(as, anchor{decode(el[:q]), decode(el[gt+1:])})
	}
}
