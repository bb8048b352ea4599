From 4397e6b1afdeddfcaa9b4c829414dfa0e801e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:11 +0000
Subject: [PATCH 01/23] fix: don't share event stacks between snapshots and
 recycled events

---
 trace_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..3bdddb8 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -360,7 +360,7 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 		cev.what = newNormalStringer(format, args...)
 	}
 
-	cev.stack = cev.stack[:0] // be safe
+	cev.stack = nil // never reuse, prior snapshots may still refer to it
 
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
@@ -401,7 +401,7 @@ func (cev *coreEvent) free() {
 	cev.what.free()
 	cev.what = nil
 	cev.pcn = 0
-	cev.stack = cev.stack[:0]
+	cev.stack = nil // may be shared with snapshots that outlive the event
 	trcdebug.CoreEventFreeCount.Add(1)
 	coreEventPool.Put(cev)
 }
-- 
2.43.0


From 1b2f0b35fb616b17eaa2d4c4ba2a3c1397b0e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:33 +0000
Subject: [PATCH 02/23] fix: don't modify the original trace's events when
 trimming stacks

---
 trace_static.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..1a3eb61 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -124,12 +124,13 @@ func (st *StaticTrace) TrimStacks(depth int) *StaticTrace {
 	if depth < 0 {
 		depth = 0 // negative value means remove all stacks
 	}
-	for i, ev := range st.TraceEvents {
+	events := append([]Event(nil), st.TraceEvents...) // may belong to the original trace
+	for i, ev := range events {
 		if len(ev.Stack) > depth {
-			ev.Stack = ev.Stack[:depth]
-			st.TraceEvents[i] = ev
+			events[i].Stack = ev.Stack[:depth]
 		}
 	}
+	st.TraceEvents = events
 	return st
 }
 
-- 
2.43.0


From df974c17d4fabf0f14b0176f244c5cf3dbee2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:21 +0000
Subject: [PATCH 03/23] fix: don't share or modify the stats merged into search
 stats

---
 search_stats.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..ec1ad05 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(other.Bucketing)
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -94,6 +93,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 		ours, ok := ss.Categories[category]
 		if !ok {
 			cp := *theirs
+			cp.BucketCounts = append([]int(nil), theirs.BucketCounts...)
 			ss.Categories[category] = &cp
 			continue
 		}
@@ -250,6 +250,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	if cs.IsZero() {
 		*cs = *other
+		cs.BucketCounts = append([]int(nil), other.BucketCounts...)
 		return
 	}
 
-- 
2.43.0


From 81593f1cb2b23475c0297ca250f3c9672d3a2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:23 +0000
Subject: [PATCH 04/23] fix: merge event counts of category stats

---
 search_stats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search_stats.go b/search_stats.go
index ec1ad05..1619a84 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -274,6 +274,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	cs.tracerate = cs.TraceRate() + other.TraceRate()
 	cs.eventrate = cs.EventRate() + other.EventRate()
+
+	cs.EventCount += other.EventCount // after the rates, which depend on it
 }
 
 //
-- 
2.43.0


From dfe498aeb69e3d38f5065209ac9aa2f8dc1b128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:59 +0000
Subject: [PATCH 05/23] fix: drop negative buckets when normalizing a search
 request

---
 search_types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..3e562ad 100644
--- a/search_types.go
+++ b/search_types.go
@@ -40,7 +40,10 @@ func (req *SearchRequest) Normalize() []error {
 	sort.Slice(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
-	if req.Bucketing[0] != 0 {
+	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {
+		req.Bucketing = req.Bucketing[1:] // negative durations can't be buckets
+	}
+	if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {
 		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
 	}
 
-- 
2.43.0


From 2f9aaf3f22bf6690704be1791e384542ae5e9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:00 +0000
Subject: [PATCH 06/23] fix: print the IDs of a filter, not its sources

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..8fee7e6 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 2d9e3ec09d2a66ef74b456652d63aeb6472e58f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:46 +0000
Subject: [PATCH 07/23] fix: stream traces of any implementation, without
 changing them

---
 trace_static.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 1a3eb61..066eda0 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -49,15 +49,17 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
+		all := tr.Events()
+		if n := len(all); n > 0 {
+			events = append(events, all[n-1])
+		}
 		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+			events[i].Stack = nil
 		}
 	case !canDetail && !isActive:
-		events = tr.Events()
+		events = append(events, tr.Events()...)
 		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+			events[i].Stack = nil
 		}
 	}
 
-- 
2.43.0


From 03c9101e58d0ffa1a1738cd3f2d4b4b79f8dfd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:22 +0000
Subject: [PATCH 08/23] fix: stream a trace that is being finished as either
 active or finished

---
 trace_static.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trace_static.go b/trace_static.go
index 066eda0..fcde456 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -72,7 +72,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    !isActive, // consistent with the events
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From 83d049da377c8905b9fe9c26d62c53b48bafd9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:40 +0000
Subject: [PATCH 09/23] fix: report a trace that is being finished consistently
 in search results

---
 trace_static.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trace_static.go b/trace_static.go
index fcde456..6e73d19 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,13 +22,14 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	finished := tr.Finished() // first, so that a finished trace is reported in its final state
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
+		TraceFinished: finished,
 		TraceErrored:  tr.Errored(),
 		TraceEvents:   tr.Events(),
 	}
-- 
2.43.0


From d53fd9c308db574f4b7553c6c1a5d047056c0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:01 +0000
Subject: [PATCH 10/23] fix: don't share the args of a prefix between its
 events

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 535496d..48c137c 100644
--- a/helpers.go
+++ b/helpers.go
@@ -102,7 +102,7 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 	prefixed := &prefixTrace{
 		Trace:  original,
 		format: format + " ",
-		args:   args,
+		args:   args[:len(args):len(args)], // so that appends always copy
 	}
 
 	return Put(ctx, prefixed)
-- 
2.43.0


From 2873030eebc5ab31ce344f2fe5cb7c60c9a40015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:01 +0000
Subject: [PATCH 11/23] fix: don't use the name of a region as a format string

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 48c137c..6135641 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From c073d403a69629dafd790b0005239616281c0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:36 +0000
Subject: [PATCH 12/23] fix: don't use the trace ID as a format string in log
 lines

---
 decorators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..7fdc2f3 100644
--- a/decorators.go
+++ b/decorators.go
@@ -91,7 +91,7 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = ltr.id + " " + strings.TrimSuffix(format, "\n") + "\n"
+	format = strings.ReplaceAll(ltr.id, "%", "%%") + " " + strings.TrimSuffix(format, "\n") + "\n"
 	fmt.Fprintf(ltr.dst, format, args...)
 }
 
-- 
2.43.0


From 7b2656dc004fb0315101eaa0cea94b1ddd02ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:51 +0000
Subject: [PATCH 13/23] fix: send the problems of a search request to remote
 clients

---
 trcweb/trace_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..987caf1 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -131,7 +131,7 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	data.Problems = append(data.Problems, data.Request.Normalize()...)
+	normalizeErrs := data.Request.Normalize()
 
 	tr.LazyTracef("search request %s", data.Request)
 
@@ -142,6 +142,9 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		data.Response = *res
 	}
 
+	// The searcher gets a normalized request, so it can't report these problems.
+	data.Response.Problems = append(trcutil.FlattenErrors(normalizeErrs...), data.Response.Problems...)
+
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
-- 
2.43.0


From f058104c20a4f6bfe29689dd5ab9e9717533ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:03 +0000
Subject: [PATCH 14/23] fix: don't panic on or hide the failure of a searcher

---
 trcweb/trace_server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 987caf1..caace6d 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -136,11 +136,17 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
-	if err != nil {
-		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
-	} else {
+	switch {
+	case err != nil:
+		data.Response.Problems = []string{fmt.Sprintf("execute select request: %v", err)}
+	case res == nil:
+		data.Response.Problems = []string{"execute select request: empty response"}
+	default:
 		data.Response = *res
 	}
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
 
 	// The searcher gets a normalized request, so it can't report these problems.
 	data.Response.Problems = append(trcutil.FlattenErrors(normalizeErrs...), data.Response.Problems...)
-- 
2.43.0


From 0c2d1efdc40f8ccc2ce62aab1546df36b60e2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:04 +0000
Subject: [PATCH 15/23] fix: don't panic on a stats interval that isn't
 positive

---
 trcweb/trace_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index caace6d..045c4fa 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -266,7 +266,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	}
 
 	var (
-		stats   = parseDefault(r.URL.Query().Get("stats"), time.ParseDuration, 10*time.Second)
+		stats   = parseRange(r.URL.Query().Get("stats"), time.ParseDuration, 1*time.Second, 10*time.Second, 60*time.Second)
 		sendbuf = parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)
 		tracec  = make(chan trc.Trace, sendbuf)
 		donec   = make(chan struct{})
-- 
2.43.0


From eb6abefe5743aaa11720fa80f032873b1fb05484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:10 +0000
Subject: [PATCH 16/23] fix: end a stream with its context even if the server
 doesn't respond

---
 trcweb/trace_server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 045c4fa..71bf8c6 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -456,7 +456,9 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 
 	// Explicitly don't provide the context to the request, because EventSource
 	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning.
+	// case Read can block for a single retry duration before returning. Instead,
+	// the request is canceled once the EventSource is closed, so that it doesn't
+	// wait for a server which doesn't respond.
 	//
 	// Also, EventSource directly re-uses this request over reconnect attempts,
 	// which prevents the use of a body, and means we have to encode the filter
@@ -487,10 +489,14 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		req = r
 	}
 
-	es := eventsource.New(req, c.RetryInterval)
+	reqctx, cancel := context.WithCancel(context.Background())
+	defer cancel()
+
+	es := eventsource.New(req.WithContext(reqctx), c.RetryInterval)
 	go func() {
 		<-ctx.Done()
 		es.Close()
+		cancel()
 	}()
 
 	for {
-- 
2.43.0


From 83da9d79115947b0926290c73402fbf2f5e15820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:36 +0000
Subject: [PATCH 17/23] fix: escape categories, queries, sources and IDs in the
 links of the web page

---
 trcweb/assets/traces.html | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..384e9ff 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
@@ -386,7 +386,7 @@ function highlightQuery() {
 
 	<!-- Trace top line -->
 	<div class="metadata">
-		{{ $href := printf "id=%s" .ID | SafeURL }}
+		{{ $href := printf "id=%s" (QueryEscape .ID) | SafeURL }}
 
 		<strong><a href="?{{$href}}">{{ .ID }}</a></strong>
 
-- 
2.43.0


From 026d7a4d2a2705a912a8afbf7ced4242dcd50ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:57 +0000
Subject: [PATCH 18/23] fix: log the text of an event as it is in the trace,
 whatever its format

---
 decorators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decorators.go b/decorators.go
index 7fdc2f3..405fa2c 100644
--- a/decorators.go
+++ b/decorators.go
@@ -91,8 +91,8 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = strings.ReplaceAll(ltr.id, "%", "%%") + " " + strings.TrimSuffix(format, "\n") + "\n"
-	fmt.Fprintf(ltr.dst, format, args...)
+	what := fmt.Sprintf(format, args...) // on its own, so that it's the same text as in the trace
+	fmt.Fprintf(ltr.dst, "%s %s\n", ltr.id, strings.TrimSuffix(what, "\n"))
 }
 
 func (ltr *logTrace) Free() {
-- 
2.43.0


From fe76c1fdb23d12276bc5d1f371d335528a67954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 19/23] fix: ask servers whose host name starts with http, and
 no scheme is given

---
 cmd/trc/main.go        | 2 +-
 trcweb/trace_server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/trc/main.go b/cmd/trc/main.go
index f59c394..a14c456 100644
--- a/cmd/trc/main.go
+++ b/cmd/trc/main.go
@@ -131,7 +131,7 @@ func exec(ctx context.Context, stdin io.Reader, stdout, stderr io.Writer, args [
 			continue
 		}
 
-		if !strings.HasPrefix(uri, "http") {
+		if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 			uri = "http://" + uri
 		}
 
diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 71bf8c6..baea445 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -175,7 +175,7 @@ var _ trc.Searcher = (*SearchClient)(nil)
 // NewSearchClient returns a search client using the given HTTP client to query
 // the given search server URI.
 func NewSearchClient(client HTTPClient, uri string) *SearchClient {
-	if !strings.HasPrefix(uri, "http") {
+	if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 		uri = "http://" + uri
 	}
 	return &SearchClient{
@@ -400,7 +400,7 @@ func (c *StreamClient) initialize() {
 		c.HTTPClient = http.DefaultClient
 	}
 
-	if c.URI != "" && !strings.HasPrefix(c.URI, "http") {
+	if c.URI != "" && !strings.HasPrefix(c.URI, "http://") && !strings.HasPrefix(c.URI, "https://") {
 		c.URI = "http://" + c.URI
 	}
 
-- 
2.43.0


From cbaad89640bce9e2eb5f7e24b2a61fe65a14f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:22 +0000
Subject: [PATCH 20/23] fix: web page: links and form for a category named
 "overall"

The counts of a category that is itself called "overall" linked to the traces
of all categories, and the search form dropped that category. Tell the
synthetic line by its position, and keep whatever category was searched for.
---
 trcweb/assets/traces.html | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 384e9ff..cda1321 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -163,13 +163,14 @@ function highlightQuery() {
 		</th>
 	</tr>
 
-	{{ range .Response.Stats.AllCategories }}
+	{{ $category_count := len .Response.Stats.Categories }}
+	{{ range $category_index, $category := .Response.Stats.AllCategories }}
 	<tr class="category">
 		{{ $category_name         := .Category                    }}
 		{{ $category_class_name   := CategoryClass $category_name }}
 
 		{{ $category_query_params := $query_params }}
-		{{ if ne $category_name "overall" }}
+		{{ if lt $category_index $category_count }} {{/* the last line is the overall stats */}}
 			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
@@ -264,7 +265,7 @@ function highlightQuery() {
 				{{ end }}
 			</select>
 
-			{{ if and (.Request.Filter.Category) (ne .Request.Filter.Category "overall") }}
+			{{ if .Request.Filter.Category }}
 				<input type="hidden" name="category"  value="{{.Request.Filter.Category}}" />
 			{{ end }}
 
-- 
2.43.0


From 8a105e66fce5a6b0675036d86bc0774c201da480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:15 +0000
Subject: [PATCH 21/23] fix: web page: search form keeps the source that was
 searched for

With a source that is not (or no longer) among those of the response, or with
no more than one of them, submitting the search form dropped the source, and
searched all of them.
---
 trcweb/assets/traces.html | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index cda1321..e588b06 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -243,17 +243,21 @@ function highlightQuery() {
 		<form id="search-form" method="GET" target="">
 			<input id="search-box" type="text" name="q" placeholder="regex" value="{{.Request.Filter.Query}}" size="32" autofocus tabindex="0" />
 
+			{{ $first_source := "" }}
+			{{ if gt (len $f.Sources) 0 }} {{ $first_source = index $f.Sources 0 }} {{ end }}
 			{{ if gt (len .Response.Sources) 1 }}
-				{{ $first_source := "" }}
-				{{ if gt (len $f.Sources) 0 }} {{ $first_source = index $f.Sources 0 }} {{ end }}
+					{{ $is_known := eq $first_source "" }}
 					<select id="search-source" name="source" {{ if not (eq $first_source "") }}style="background-color: yellow;"{{ end }}>
 						<option value="" {{ if eq $first_source "" }}selected{{ end }}>all sources</option>
 						{{ range .Response.Sources }}
-						<option value="{{.}}" {{ if eq $first_source . }}selected{{ end }}>{{.}}</option>
+						<option value="{{.}}" {{ if eq $first_source . }}selected{{ $is_known = true }}{{ end }}>{{.}}</option>
+						{{ end }}
+						{{ if not $is_known }}
+						<option value="{{$first_source}}" selected>{{$first_source}}</option>
 						{{ end }}
 					</select>
 			{{ else }}
-				<input type="hidden" name="source" value="" />
+				<input type="hidden" name="source" value="{{$first_source}}" />
 			{{ end }}
 
 			<select id="search-limit" name="n">
-- 
2.43.0


From 56bda6ec31594e0fc927fdab61fedba6cd09d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 22/23] fix: a filter whose query was changed is judged by the
 query it has now

The compiled query was kept once made, so a filter (or search request) used
before with another query went on matching the old one.
---
 filter.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/filter.go b/filter.go
index 8fee7e6..f1530b4 100644
--- a/filter.go
+++ b/filter.go
@@ -170,17 +170,20 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
-	if f.regexp != nil {
+	if f.Query == "" {
+		if f.regexp != nil {
+			f.regexp = nil // query was removed
+		}
 		return nil
 	}
 
-	if f.Query == "" {
+	if f.regexp != nil && f.regexp.String() == f.Query {
 		return nil
 	}
 
 	re, err := regexp.Compile(f.Query)
 	if err != nil {
-		f.Query = ""
+		f.Query, f.regexp = "", nil
 		return fmt.Errorf("invalid, ignoring (%w)", err)
 
 	}
-- 
2.43.0


From fe56c04b58641dcfded95b6b9696c6417f9d898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 23/23] fix: a trace server given only a collector can serve
 requests concurrently

The searcher and streamer were filled in, unsynchronised, by every request.
---
 trcweb/trace_server.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index baea445..0cf38c6 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -55,26 +55,29 @@ type TraceServer struct {
 
 // NewTraceServer returns a standard trace server wrapping the collector.
 func NewTraceServer(c *trc.Collector) *TraceServer {
-	s := &TraceServer{
+	return &TraceServer{
 		Collector: c,
+		Searcher:  c,
+		Streamer:  c,
 	}
-	s.initialize()
-	return s
 }
 
-func (s *TraceServer) initialize() {
+func (s *TraceServer) searcher() Searcher {
 	if s.Searcher == nil {
-		s.Searcher = s.Collector
+		return s.Collector
 	}
+	return s.Searcher
+}
+
+func (s *TraceServer) streamer() Streamer {
 	if s.Streamer == nil {
-		s.Streamer = s.Collector
+		return s.Collector
 	}
+	return s.Streamer
 }
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	s.initialize()
-
 	switch Categorize(r) {
 	case "stream":
 		s.handleStream(w, r)
@@ -135,7 +138,7 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 
 	tr.LazyTracef("search request %s", data.Request)
 
-	res, err := s.Searcher.Search(ctx, &data.Request)
+	res, err := s.searcher().Search(ctx, &data.Request)
 	switch {
 	case err != nil:
 		data.Response.Problems = []string{fmt.Sprintf("execute select request: %v", err)}
@@ -279,7 +282,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	defer cancel()
 
 	go func() {
-		stats, err := s.Streamer.Stream(ctx, f, tracec)
+		stats, err := s.streamer().Stream(ctx, f, tracec)
 		tr.LazyTracef("%s (error: %v)", stats, err)
 		close(donec)
 	}()
@@ -317,7 +320,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 				}
 
 			case <-stats.C:
-				stats, err := s.Streamer.StreamStats(ctx, tracec)
+				stats, err := s.streamer().StreamStats(ctx, tracec)
 				if err != nil {
 					tr.Errorf("get stats: %v", err)
 					continue
-- 
2.43.0

