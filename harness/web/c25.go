package web

import (
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/peterbourgon/trc"
	v "github.com/peterbourgon/trc/internal/verif"
	"github.com/peterbourgon/trc/trcweb"
)

// A page is compared with the same page of harmless text: a browser must take
// both for the same elements, attributes and code, with the text in the same
// places.

// tok is one piece of a page, as a browser would see it.
type tok struct {
	kind string // tag, attr, text, link, style, code, lit, raw
	s    string
}

func isSpace(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\f' }
func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// decode replaces character references.
func decode(s string) string {
	if !strings.Contains(s, "&") {
		return s
	}
	var out []byte
	for i := 0; i < len(s); {
		if s[i] != '&' {
			out = append(out, s[i])
			i++
			continue
		}
		end := strings.Index(s[i:], ";")
		if end < 0 || end > 8 {
			out = append(out, '&')
			i++
			continue
		}
		name := s[i+1 : i+end]
		switch name {
		case "lt", "#60", "#x3c", "#x3C":
			out = append(out, '<')
		case "gt", "#62", "#x3e", "#x3E":
			out = append(out, '>')
		case "amp", "#38", "#x26":
			out = append(out, '&')
		case "quot", "#34", "#x22":
			out = append(out, '"')
		case "apos", "#39", "#x27":
			out = append(out, '\'')
		case "#43", "#x2b", "#x2B":
			out = append(out, '+')
		case "#61", "#x3d", "#x3D":
			out = append(out, '=')
		case "#96", "#x60":
			out = append(out, '`')
		default:
			out = append(out, s[i:i+end+1]...)
		}
		i += end + 1
	}
	return string(out)
}

func hexv(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10
	}
	return 0
}

// code splits JavaScript into what is inside string literals and what isn't.
func code(s string, ts []tok) []tok {
	start := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '/' && i+1 < len(s) && s[i+1] == '/' {
			ts = append(ts, tok{"code", s[start:i]})
			for i < len(s) && s[i] != '\n' {
				i++
			}
			start = i
			continue
		}
		if c != '"' && c != '\'' && c != '`' {
			continue
		}
		ts = append(ts, tok{"code", s[start:i]})
		var lit []byte
		i++
		for ; i < len(s) && s[i] != c; i++ {
			if s[i] == '\n' && c != '`' {
				ts = append(ts, tok{"raw", "newline in a literal"})
			}
			if s[i] != '\\' || i+1 == len(s) {
				lit = append(lit, s[i])
				continue
			}
			i++
			switch {
			case s[i] == 'u' && i+4 < len(s):
				lit = append(lit, hexv(s[i+3])<<4|hexv(s[i+4])) // ASCII is all there is here
				i += 4
			case s[i] == 'x' && i+2 < len(s):
				lit = append(lit, hexv(s[i+1])<<4|hexv(s[i+2]))
				i += 2
			case s[i] == 'n':
				lit = append(lit, '\n')
			case s[i] == 't':
				lit = append(lit, '\t')
			default:
				lit = append(lit, s[i])
			}
		}
		if i >= len(s) {
			ts = append(ts, tok{"raw", "literal without end"})
		}
		ts = append(ts, tok{"lit", string(lit)})
		start = i + 1
	}
	if start < len(s) {
		ts = append(ts, tok{"code", s[start:]})
	}
	return ts
}

// link splits a URL into what comes before its query, and the query's fields.
func link(u string, ts []tok) []tok {
	at := strings.Index(u, "?")
	if at < 0 {
		return append(ts, tok{"link", u})
	}
	ts = append(ts, tok{"link", u[:at]})
	for _, kv := range strings.Split(u[at+1:], "&") {
		k, val, _ := strings.Cut(kv, "=")
		k, e1 := url.QueryUnescape(k)
		val, e2 := url.QueryUnescape(val)
		if e1 != nil || e2 != nil || strings.Contains(kv, "#") {
			ts = append(ts, tok{"raw", "bad query " + kv})
			continue
		}
		ts = append(ts, tok{"key", k}, tok{"param", val})
	}
	return ts
}

// tokens reads a page.
func tokens(s string, links bool) []tok {
	var ts []tok
	for len(s) > 0 {
		at := strings.Index(s, "<")
		if at < 0 {
			at = len(s)
		}
		if at > 0 {
			text := decode(s[:at])
			if n := len(ts); n > 0 && ts[n-1].kind == "text" {
				ts[n-1].s += text
			} else {
				ts = append(ts, tok{"text", text})
			}
			s = s[at:]
			continue
		}
		switch {
		case strings.HasPrefix(s, "<!--"):
			end := strings.Index(s, "-->")
			if end < 0 {
				return append(ts, tok{"raw", "comment without end"})
			}
			s = s[end+3:]
			ts = append(ts, tok{"tag", "!--"})
			continue
		case strings.HasPrefix(s, "<!"):
			s = s[strings.Index(s, ">")+1:]
			continue
		case strings.HasPrefix(s, "<wbr>"): // breaks a line, and nothing else
			s = s[len("<wbr>"):]
			continue
		}
		i := 1
		if i < len(s) && s[i] == '/' {
			i++
		}
		if i >= len(s) || !isAlpha(s[i]) {
			ts = append(ts, tok{"raw", "<"})
			s = s[1:]
			continue
		}
		for i < len(s) && !isSpace(s[i]) && s[i] != '>' && (s[i] != '/' || i == 1) {
			i++
		}
		name := s[1:i]
		ts = append(ts, tok{"tag", name})
		for i < len(s) && s[i] != '>' {
			if isSpace(s[i]) || s[i] == '/' {
				i++
				continue
			}
			from := i
			for i < len(s) && !isSpace(s[i]) && s[i] != '>' && s[i] != '=' && s[i] != '/' {
				i++
			}
			attr := s[from:i]
			ts = append(ts, tok{"attr", attr})
			if i >= len(s) || s[i] != '=' {
				continue
			}
			i++
			var val string
			if i < len(s) && (s[i] == '"' || s[i] == '\'') {
				end := strings.Index(s[i+1:], s[i:i+1])
				if end < 0 {
					return append(ts, tok{"raw", "attribute without end"})
				}
				val = s[i+1 : i+1+end]
				i += end + 2
			} else {
				from := i
				for i < len(s) && !isSpace(s[i]) && s[i] != '>' {
					i++
				}
				val = s[from:i]
			}
			val = decode(val)
			switch {
			case attr == "class": // derived from the text; any value is harmless
			case attr == "href" || attr == "src" || attr == "action":
				if links {
					ts = link(val, ts)
				} else {
					ts = append(ts, tok{"link", val[:strings.IndexAny(val+"?", "?#:/")]}) // its scheme, if any
				}
			case strings.HasPrefix(attr, "on"):
				ts = code(val, ts)
			default:
				ts = append(ts, tok{"value", val})
			}
		}
		s = s[i+1:]
		switch name {
		case "script":
			end := strings.Index(s, "</script")
			if end < 0 {
				return append(ts, tok{"raw", "script without end"})
			}
			ts = code(s[:end], ts)
			s = s[end:]
		case "style":
			end := strings.Index(s, "</style")
			if end < 0 {
				return append(ts, tok{"raw", "style without end"})
			}
			s = s[end:]
		}
	}
	return ts
}

const mark = "zqzq"

// texts are the places where a page shows text it was given.
type texts struct{ query, filterSource, filterCategory, what, function, file, category, source, sources, problem, id string }

func (t *texts) all() []*string {
	return []*string{&t.what, &t.function, &t.file, &t.category, &t.source, &t.sources, &t.problem, &t.id, &t.filterSource, &t.filterCategory, &t.query}
}

// page is what the server answers a browser.
func page(t texts, dur time.Duration) *recorder {
	started := at(-50 * 3600e9) // long ago: its age doesn't change from page to page
	tr := &trc.StaticTrace{
		TraceID: t.id, TraceSource: t.source, TraceCategory: t.category, TraceStarted: started, TraceDuration: dur, TraceFinished: true, TraceErrored: true,
		TraceEvents: []trc.Event{
			{When: started.Add(dur / 2), What: t.what, IsError: true, Stack: []trc.Frame{{Function: t.function, FileLine: t.file + ":1"}}},
		},
	}
	stats := trc.NewSearchStats(trc.DefaultBucketing)
	stats.Observe(tr)
	a := &asked{res: &trc.SearchResponse{
		Sources:    []string{"s1", t.sources},
		TotalCount: 1, MatchCount: 1, Traces: []*trc.StaticTrace{tr}, Stats: stats, Problems: []string{t.problem}, Duration: time.Millisecond,
	}}
	q := url.Values{}
	for k, s := range map[string]string{"q": t.query, "source": t.filterSource, "category": t.filterCategory} {
		if s != "" {
			q.Set(k, s)
		}
	}
	s := &trcweb.TraceServer{Searcher: a, Streamer: noStream{}}
	r := (&http.Request{Method: "GET", URL: &url.URL{Path: "/", RawQuery: q.Encode()}, Header: http.Header{"Accept": {"text/html"}}, Body: http.NoBody}).WithContext(bg)
	rec := &recorder{h: http.Header{}}
	s.ServeHTTP(rec, r)
	return rec
}

func plain() texts {
	return texts{what: "what", function: "f", file: "main.go", category: "cat", source: "src", sources: "src", problem: "prob", id: "ID"}
}

func samePage(rec, base *recorder, text string, links bool) {
	v.Assert(rec.code == 200, "the page is served")
	v.Assert(base.code == 200, "the page with harmless text is served")
	if ct := rec.h["Content-Type"]; len(ct) != 1 || !strings.HasPrefix(ct[0], "text/html") {
		v.Fail("the page is HTML")
	}
	got, want := tokens(string(rec.data), links), tokens(string(base.data), links)
	v.Assert(len(got) == len(want), "text becomes markup or code: number of elements, attributes, texts")
	shown := 0
	for i := range got {
		v.Assert(got[i].kind == want[i].kind, "text becomes markup or code: "+want[i].kind+" expected, "+got[i].kind+" found")
		w := want[i].s
		if strings.Contains(w, mark) {
			v.Reach(want[i].kind)
			shown++
			w = strings.ReplaceAll(w, mark, text)
		} else if k := want[i].kind; k == "text" || k == "value" || k == "lit" || k == "param" {
			continue // counts, times
		}
		v.Assert(got[i].s == w, want[i].kind+" isn't the text it is given, or changes with it")
	}
	if !links {
		v.Assert(shown > 0, "the page shows the text")
	}
}

// HC25Text: any text in the data of a page.
//
// verif: prop=C25 quick.L=1 thorough.L=2 preempt=0 steps=40000000 timeout=600 reach=text,value,lit
func HC25Text() {
	v.FrozenClock()
	t, b := plain(), plain()
	which := v.Choose("field", len(t.all()))
	if which == 8 {
		return // only in links
	}
	text := v.Str("text", v.Param("L", 1), "<>\"'&+=a/\\,`- ")
	if v.Choose("tail", 2) == 1 {
		text += "lt;" // a character reference, after &
	}
	*t.all()[which] = text
	*b.all()[which] = mark
	switch which {
	case 1, 2: // functions and files are shortened
		v.Assume(!strings.ContainsAny(text, "/:"))
		if which == 2 && v.Choose("source links", 2) == 1 {
			trcweb.SetSourceLinkFunc(trcweb.SourceLinkVSCode)
		}
	case 10:
		if _, err := regexp.Compile(text); err != nil {
			return // not used
		}
	}
	samePage(page(t, 1000), page(b, 1000), text, false)
}

// shownTrace is what a page shows of a trace: its ID, then some texts, and its
// events in order.
type shownTrace struct {
	id           string
	some, events []string
}

func shows(rec *recorder, res *trc.SearchResponse, want []shownTrace) {
	v.Assert(rec.code == 200, "the page is served")
	var parts []string
	for _, t := range tokens(string(rec.data), false) {
		if t.kind == "text" {
			parts = append(parts, t.s)
		}
	}
	text := strings.Join(parts, "")
	for _, s := range append([]string{strconv.Itoa(res.TotalCount), strconv.Itoa(res.MatchCount)}, res.Problems...) {
		v.Assert(strings.Contains(text, s), "the page shows the numbers and problems of the response")
	}
	for _, s := range res.Problems {
		n := 0
		for _, t := range res.Problems {
			if s == t {
				n++
			}
		}
		v.Assert(strings.Count(text, s) >= n, "the page shows every problem of the response")
	}
	for i, w := range want {
		at := strings.Index(text, w.id)
		v.Assert(at >= 0, "the page shows every trace and event, in order")
		text = text[at+len(w.id):]
		own := text
		if i+1 < len(want) {
			if end := strings.Index(text, want[i+1].id); end >= 0 {
				own = text[:end]
			}
		}
		for _, s := range w.some {
			v.Assert(strings.Contains(own, s), "the page shows source and category of every trace")
		}
		for _, s := range w.events {
			at := strings.Index(own, s)
			v.Assert(at >= 0, "the page shows every trace and event, in order")
			own = own[at+len(s):]
		}
	}
}

// HC25Large: a page of any size.
//
// verif: prop=C25 N=250 preempt=0 steps=400000000 timeout=800 reach=end
func HC25Large() {
	v.FrozenClock()
	n, large := v.Param("N", 250), v.Choose("large", 4)
	res := okResponse()
	res.TotalCount, res.MatchCount = 7001, 7002
	var want []shownTrace
	events, problems := 1, 1
	switch large {
	case 1:
		events, n = 400, 1
	case 2:
		problems = 60
	case 3:
		n = 2
		for i := 0; i < 120; i++ {
			cs := &trc.CategoryStats{Category: "(cat " + strconv.Itoa(i) + ")", BucketCounts: make([]int, len(res.Stats.Bucketing)), ActiveCount: 8000 + i}
			res.Stats.Categories[cs.Category] = cs
		}
	}
	for i := 0; i < problems; i++ {
		res.Problems = append(res.Problems, "(problem "+strconv.Itoa(i)+")")
	}
	for i := 0; i < n; i++ {
		id := "(I" + strconv.Itoa(i) + ")"
		tr := &trc.StaticTrace{TraceID: id, TraceSource: "(src)", TraceCategory: "(C" + id, TraceStarted: at(-50 * 3600e9), TraceDuration: 1000, TraceFinished: i%2 == 0}
		w := shownTrace{id: id, some: []string{tr.TraceSource, tr.TraceCategory}}
		for j := 0; j < events; j++ {
			what, fn := "(W"+strconv.Itoa(j)+")", "(F"+strconv.Itoa(j)+")"
			if large == 3 {
				what = "(" + strings.Repeat("long <text> ", 1000) + ")"
			}
			if j%5 == 3 {
				what = ""
			}
			tr.TraceEvents = append(tr.TraceEvents, trc.Event{When: tr.TraceStarted.Add(5), What: what, IsError: j%3 == 0, Stack: []trc.Frame{{Function: fn, FileLine: "x.go:1"}, {Function: fn + "b", FileLine: "y.go:2"}}})
			w.events = append(w.events, what, fn, fn+"b")
		}
		res.Traces = append(res.Traces, tr)
		want = append(want, w)
	}
	rec := browse(&asked{res: res}, "")
	shows(rec, res, want)
	if large == 3 {
		for name := range res.Stats.Categories {
			v.Assert(strings.Contains(string(rec.data), name), "the page shows every category of the statistics")
		}
	}
	v.Reach("end")
}

// HC25Shown: the page has every trace of the response, with its events, in
// order, and the numbers.
//
// verif: prop=C25 quick.N=2 thorough.N=3 preempt=0 steps=40000000 timeout=600 reach=two,none
func HC25Shown() {
	v.FrozenClock()
	n := v.Choose("traces", v.Param("N", 2)+1)
	res := okResponse()
	res.TotalCount, res.MatchCount = 7001, 7002
	res.Problems = []string{"(problem 1)", "(problem 2)", "(problem 2)"}
	var want []shownTrace
	finished, timeless, errored := v.Choose("finished", 2) == 1, v.Choose("timeless", 2) == 1, v.Choose("error", 2) == 1
	when, step := time.Duration(100), time.Duration(0)
	if v.Choose("skewed", 2) == 1 {
		when, step = []time.Duration{-400, 1200}[v.Choose("when", 2)], []time.Duration{-300, 300}[v.Choose("step", 2)]
	}
	for i := 0; i < n; i++ {
		id := string([]byte{'(', 'I', byte('A' + i), ')'})
		source := []string{"default", "(S)"}[i%2]
		tr := &trc.StaticTrace{TraceID: id, TraceSource: source, TraceCategory: "(C" + id, TraceStarted: at(-50 * 3600e9), TraceDuration: 1000,
			TraceFinished: finished}
		w := shownTrace{id: id, some: []string{source, tr.TraceCategory}}
		if timeless {
			tr.TraceDuration = 0
		}
		for j := v.Choose("events", 3); j > 0; j-- {
			what := "(" + v.Str("what", 1, "<a") + string([]byte{'W', byte('A' + i), byte('0' + j), ')'})
			fn := string([]byte{'(', 'F', byte('A' + i), byte('0' + j), ')'})
			tr.TraceEvents = append(tr.TraceEvents, trc.Event{When: tr.TraceStarted.Add(when), What: what, IsError: errored, Stack: []trc.Frame{{Function: fn, FileLine: "x.go:1"}}})
			w.events = append(w.events, what, fn)
			when += step
		}
		res.Traces = append(res.Traces, tr)
		want = append(want, w)
	}
	shows(browse(&asked{res: res}, ""), res, want)
	if n == 2 {
		v.Reach("two")
	}
	if n == 0 {
		v.Reach("none")
	}
}
