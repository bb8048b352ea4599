// Package util holds the harnesses for package trcutil.
package util

import (
	"time"

	"github.com/peterbourgon/trc/internal/trcutil"
	v "github.com/peterbourgon/trc/internal/verif"
)

// HC24Near: any duration is truncated towards zero, by little, and stays as it
// is when truncated again.
//
// verif: prop=C24 solverms=120000 reach=days,hours,seconds,millis,micros,nanos
func HC24Near() {
	d := time.Duration(v.Int64("d", 0, 1<<63-1))
	t := trcutil.TruncateDuration(d)
	v.Assert(t <= d, "never larger than the real duration")
	v.Assert(t >= 0, "never negative")
	v.Assert(v.Implies(d >= time.Millisecond, d-t < d/10), "differs by less than a tenth")
	v.Assert(trcutil.TruncateDuration(t) == t, "unchanged when truncated again")
	switch {
	case d >= 10*24*time.Hour:
		v.Reach("days")
	case d >= time.Hour:
		v.Reach("hours")
	case d >= time.Second:
		v.Reach("seconds")
	case d >= time.Millisecond:
		v.Reach("millis")
	case d >= time.Microsecond:
		v.Reach("micros")
	default:
		v.Reach("nanos")
	}
	v.Observe("t", int64(t))
}

// HC24Order: the order of durations is kept.
//
// verif: prop=C24 solverms=120000 reach=end
func HC24Order() {
	d := time.Duration(v.Int64("d", 0, 1<<63-1))
	e := time.Duration(v.Int64("e", 0, 1<<63-1))
	v.Assume(d <= e)
	v.Assert(trcutil.TruncateDuration(d) <= trcutil.TruncateDuration(e), "the order is kept")
	v.Reach("end")
}

// HC24Negative: a negative duration is not made longer either.
//
// verif: prop=C24 solverms=120000 reach=end
func HC24Negative() {
	d := time.Duration(v.Int64("d", -1<<63, -1))
	t := trcutil.TruncateDuration(d)
	v.Assert(t >= d && t <= 0, "rounded towards zero")
	v.Assert(trcutil.TruncateDuration(t) == t, "unchanged when truncated again")
	v.Reach("end")
}

// value reads a duration as an operator does, and tells whether it is one: any
// number of units in descending order, each with its number, the last of which
// can have a fraction.
func value(s string) (time.Duration, bool) {
	units := []struct {
		name string
		unit time.Duration
	}{{"h", time.Hour}, {"m", time.Minute}, {"s", time.Second}, {"ms", time.Millisecond}, {"\u00b5s", time.Microsecond}, {"ns", 1}}
	var total time.Duration
	if s == "" {
		return 0, false
	}
	last := -1
	for s != "" {
		n, frac, i, after := int64(0), int64(1), 0, false
		for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
			if s[i] == '.' {
				if after || i == 0 {
					return 0, false
				}
				after = true
			} else {
				n = n*10 + int64(s[i]-'0')
				if after {
					frac *= 10
				}
			}
			i++
		}
		if i == 0 || s[i-1] == '.' {
			return 0, false
		}
		s = s[i:]
		j := 0
		for j < len(s) && !(s[j] >= '0' && s[j] <= '9') {
			j++
		}
		k := -1
		for u := range units {
			if units[u].name == s[:j] {
				k = u
			}
		}
		if k <= last || after && j < len(s) {
			return 0, false
		}
		last = k
		s = s[j:]
		total += time.Duration(n) * (units[k].unit / time.Duration(frac))
	}
	return total, true
}

// HC24Text: the text of any duration is that of the truncated one.
//
// verif: prop=C24 solverms=120000 flags=durtext reach=days,hours,minutes,seconds,millis,micros,nanos
func HC24Text() {
	var d time.Duration
	part := func(name string, unit time.Duration, lo, hi int64) {
		d += unit * time.Duration(v.Int64(name, lo, hi))
	}
	switch v.Choose("class", 7) {
	case 0:
		v.Reach("days")
		part("h", time.Hour, 24, 2000)
		part("r", 1, 0, int64(time.Hour)-1)
	case 1:
		v.Reach("hours")
		part("h", time.Hour, 1, 23)
		part("m", time.Minute, 0, 59)
		part("r", 1, 0, int64(time.Minute)-1)
	case 2:
		v.Reach("minutes")
		part("m", time.Minute, 1, 59)
		part("s", time.Second, 0, 59)
		part("r", 1, 0, int64(time.Second)-1)
	case 3:
		v.Reach("seconds")
		part("s", time.Second/10, 10, 599)
		part("r", 1, 0, int64(time.Second)/10-1)
	case 4:
		v.Reach("millis")
		part("s", time.Millisecond/10, 10, 9999)
		part("r", 1, 0, int64(time.Millisecond)/10-1)
	case 5:
		v.Reach("micros")
		part("s", time.Microsecond, 1, 999)
		part("r", 1, 0, 999)
	default:
		v.Reach("nanos")
		part("r", 1, 0, 999)
	}
	s := trcutil.HumanizeDuration(d)
	got, ok := value(s)
	v.Assert(ok, "the text is a duration")
	v.Assert(got == trcutil.TruncateDuration(d), "the text is the truncated duration")
	v.Observe("s", s)
}
