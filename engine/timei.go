package main

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// time.Time is modelled as its real struct with wall = 0 and ext = nanoseconds
// since the Unix epoch, ext == 0 standing for the zero Time. The clock is
// non-decreasing.

const (
	clockBase = uint64(0x1798) << 48 // November 2023
	clockBits = 47                   // the model clock spans 39 hours
)

func (g *G) timeType() types.Type {
	return g.p.w.e.P.prog.ImportedPackage("time").Type("Time").Type()
}

func mkTime(ext *Term) structV { return structV{kconst(64, 0), ext, (*Value)(nil)} }
func extOf(v Value) *Term      { return v.(structV)[1].(*Term) }

// timeNow reads the model clock.
func (g *G) timeNow() Value {
	p := g.p
	if p.extra["frozen"] != nil {
		p.nowSeq++
		return mkTime(kconst(64, clockBase+uint64(p.nowSeq)*1_000_000))
	}
	mod := g.moduleCallerStrict()
	prev := p.now
	def := uint64(0)
	if prev != nil {
		if v, ok := evalTerm(prev, p.model, p.memo); ok {
			def = (v + 1_000_000) & mask(clockBits)
		}
	}
	x := p.fresh("now", clockBits, def)
	t := p.tt.Window(x, clockBase)
	if mod {
		p.nondets = append(p.nondets, Nondet{Kind: "now", Name: "now", t: t})
	}
	if prev != nil {
		p.assume(p.tt.Cmp(OpUle, prev, t))
	}
	p.now = t
	if p.clk == nil {
		p.clk = map[*Term]int{}
	}
	p.clk[x] = len(p.clk) + 1
	return mkTime(t)
}

// moduleCallerStrict: the innermost frame outside package time is module code.
func (g *G) moduleCallerStrict() bool {
	for fr := g.fr; fr != nil; fr = fr.caller {
		if strings.HasPrefix(fr.info.name, "time.") {
			continue
		}
		return fr.info.module
	}
	return false
}

func (g *G) goTime(v Value) (time.Time, bool) {
	t := extOf(v)
	if !t.isConst() {
		return time.Time{}, false
	}
	if t.val == 0 {
		return time.Time{}, true
	}
	return time.Unix(0, int64(t.val)).UTC(), true
}

func (g *G) durText(t *Term) Value {
	if t.isConst() {
		return time.Duration(t.val).String()
	}
	return g.p.token("dur", t, nil)
}

func init() {
	reg("time.Now", func(g *G, _ *ssa.Function, a []Value) Value { return g.timeNow() })
	reg("time.Since", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.timeSub(g.timeNow(), a[0])
	})
	reg("time.Until", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.timeSub(a[0], g.timeNow())
	})
	reg("(time.Time).Sub", func(g *G, _ *ssa.Function, a []Value) Value { return g.timeSub(a[0], a[1]) })
	reg("(time.Time).Add", func(g *G, _ *ssa.Function, a []Value) Value {
		return mkTime(g.p.tt.Bin(OpAdd, extOf(a[0]), a[1].(*Term)))
	})
	reg("(time.Time).Before", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Cmp(OpSlt, extOf(a[0]), extOf(a[1]))
	})
	reg("(time.Time).After", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Cmp(OpSlt, extOf(a[1]), extOf(a[0]))
	})
	reg("(time.Time).Equal", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Eq(extOf(a[0]), extOf(a[1]))
	})
	reg("(time.Time).Compare", func(g *G, _ *ssa.Function, a []Value) Value {
		tt := g.p.tt
		x, y := extOf(a[0]), extOf(a[1])
		return tt.Ite(tt.Cmp(OpSlt, x, y), kint(-1), tt.Ite(tt.Eq(x, y), kint(0), kint(1)))
	})
	reg("(time.Time).IsZero", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Eq(extOf(a[0]), kconst(64, 0))
	})
	unix := func(div uint64) intrinsic {
		return func(g *G, _ *ssa.Function, a []Value) Value {
			return g.p.tt.Bin(OpSDiv, extOf(a[0]), kconst(64, div))
		}
	}
	reg("(time.Time).Unix", unix(1_000_000_000))
	reg("(time.Time).UnixMilli", unix(1_000_000))
	reg("(time.Time).UnixMicro", unix(1_000))
	reg("(time.Time).UnixNano", func(g *G, _ *ssa.Function, a []Value) Value { return extOf(a[0]) })
	ident := func(g *G, _ *ssa.Function, a []Value) Value { return a[0] }
	regs(ident, "(time.Time).UTC", "(time.Time).Local", "(time.Time).In")
	round := func(up bool) intrinsic {
		return func(g *G, _ *ssa.Function, a []Value) Value {
			tt := g.p.tt
			d := a[1].(*Term)
			if !d.isConst() {
				unsup("time.Truncate by a symbolic duration")
			}
			if int64(d.val) <= 0 {
				return a[0] // strips only the monotonic reading
			}
			x := extOf(a[0])
			if up {
				x = tt.Bin(OpAdd, x, kconst(64, d.val/2))
			}
			return mkTime(tt.Bin(OpSub, x, tt.Bin(OpURem, x, d)))
		}
	}
	reg("(time.Time).Truncate", round(false))
	reg("(time.Time).Round", round(true))
	format := func(kind string) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			layout := time.RFC3339Nano
			if kind == "fmt" {
				layout = constStrArg(a[1])
			} else {
				layout = "2006-01-02 15:04:05.999999999 -0700 MST"
			}
			if t, ok := g.goTime(a[0]); ok {
				return t.Format(layout)
			}
			return g.p.token("t:"+layout, extOf(a[0]), nil)
		}
	}
	reg("(time.Time).Format", format("fmt"))
	reg("(time.Time).String", format("str"))
	reg("time.Unix", func(g *G, fn *ssa.Function, a []Value) Value {
		tt := g.p.tt
		return mkTime(tt.Bin(OpAdd, tt.Bin(OpMul, a[0].(*Term), kconst(64, 1_000_000_000)), a[1].(*Term)))
	})
	reg("time.UnixMilli", func(g *G, fn *ssa.Function, a []Value) Value {
		return mkTime(g.p.tt.Bin(OpMul, a[0].(*Term), kconst(64, 1_000_000)))
	})
	reg("time.Date", func(g *G, fn *ssa.Function, a []Value) Value {
		var n [7]int
		for i := range n {
			n[i] = constInt(a[i])
		}
		t := time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC)
		if t.IsZero() {
			return mkTime(kconst(64, 0))
		}
		return mkTime(kconst(64, uint64(t.UnixNano())))
	})

	// ---- Duration ----
	reg("(time.Duration).String", func(g *G, fn *ssa.Function, a []Value) Value {
		if t := a[0].(*Term); !t.isConst() && g.p.w.e.cfg.flags["durtext"] {
			return fallthru // the real one
		}
		return g.durText(a[0].(*Term))
	})
	durf := func(name string, f func(time.Duration) float64) {
		reg("(time.Duration)."+name, func(g *G, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return fterm(64, f(time.Duration(t.val)))
			}
			return g.p.tt.UF("dur_"+name, 64, t)
		})
	}
	durf("Seconds", time.Duration.Seconds)
	durf("Minutes", time.Duration.Minutes)
	durf("Hours", time.Duration.Hours)
	reg("time.ParseDuration", func(g *G, fn *ssa.Function, a []Value) Value {
		if tk := g.p.onlyToken(a[0]); tk != nil && tk.kind == "dur" {
			return tupleV{tk.t, Iface{}}
		}
		if s, ok := a[0].(string); ok && !hasTok(s) {
			if d, err := time.ParseDuration(s); err == nil {
				return tupleV{kconst(64, uint64(d)), Iface{}}
			} else {
				return tupleV{kconst(64, 0), g.newError(err.Error())}
			}
		}
		return fallthru
	})

	// ---- timers ----
	mkTimer := func(g *G, d *Term, ticker bool, fn Value) *ChanV {
		c := g.makeChan(g.timeType(), 1)
		n := 1
		if ticker {
			n = g.p.w.e.cfg.ticks
		}
		c.timer = &timerState{left: n, ticker: ticker, fn: fn}
		g.interval(d)
		g.p.extra["timers"] = append(g.p.timers(), c)
		return c
	}
	newT := func(ticker bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			d := a[0].(*Term)
			if ticker && g.p.branch(g.p.tt.Cmp(OpSle, d, kconst(64, 0))) {
				g.goPanicErr("non-positive interval for NewTicker")
			}
			c := mkTimer(g, d, ticker, nil)
			pt := fn.Signature.Results().At(0).Type()
			slot := g.newZero(pt)
			st := pt.Underlying().(*types.Pointer).Elem()
			setField(st, (*slot).(structV), "C", c)
			return slot
		}
	}
	reg("time.NewTicker", newT(true))
	reg("time.NewTimer", newT(false))
	reg("time.After", func(g *G, fn *ssa.Function, a []Value) Value { return mkTimer(g, a[0].(*Term), false, nil) })
	reg("time.Tick", func(g *G, fn *ssa.Function, a []Value) Value { return mkTimer(g, a[0].(*Term), true, nil) })
	reg("time.AfterFunc", func(g *G, fn *ssa.Function, a []Value) Value {
		c := mkTimer(g, a[0].(*Term), false, a[1])
		slot := g.newZero(fn.Signature.Results().At(0).Type())
		(*slot).(structV)[0] = c
		return slot
	})
	stop := func(g *G, fn *ssa.Function, a []Value) Value {
		c, _ := (*g.deref(a[0])).(structV)[0].(*ChanV)
		was := false
		if c != nil && c.timer != nil {
			was = !c.timer.off && c.timer.left > 0
			c.timer.off = true
		}
		return kbool(was)
	}
	reg("(*time.Ticker).Stop", func(g *G, fn *ssa.Function, a []Value) Value { stop(g, fn, a); return nil })
	reg("(*time.Timer).Stop", stop)
	reg("(*time.Timer).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		c, _ := (*g.deref(a[0])).(structV)[0].(*ChanV)
		was := !c.timer.off && c.timer.left > 0
		c.timer.off, c.timer.left = false, 1
		g.interval(a[1].(*Term))
		return kbool(was)
	})
	reg("(*time.Ticker).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		c, _ := (*g.deref(a[0])).(structV)[0].(*ChanV)
		c.timer.off = false
		g.interval(a[1].(*Term))
		return nil
	})
	reg(vp+"Intervals", func(g *G, fn *ssa.Function, a []Value) Value {
		ds, _ := g.p.extra["intervals"].([]*Term)
		var out sliceV
		for _, d := range ds {
			out = append(out, d)
		}
		return out
	})
	reg("time.Sleep", func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return nil })
}

// interval notes what a timer was set to.
func (g *G) interval(d *Term) {
	ds, _ := g.p.extra["intervals"].([]*Term)
	g.p.extra["intervals"] = append(ds[:len(ds):len(ds)], d)
}

func (g *G) timeSub(x, y Value) Value { return g.p.tt.Bin(OpSub, extOf(x), extOf(y)) }

// tick delivers one tick of an armed timer.
func (p *Path) tick(c *ChanV) {
	c.timer.left--
	if c.timer.fn != nil {
		cl := c.timer.fn.(*Closure)
		g := p.g
		p.sched.spawn(g, "timer", func(ng *G) { ng.callClosure(cl, nil) })
		return
	}
	v := p.g.timeNow()
	if w := deq(&c.recvq); w != nil {
		w.val, w.ok = v, true
		w.sel.fired, w.sel.w = w.idx, w
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, chanMsg{v: v})
	}
}

// newError builds an *errors.errorString.
func (g *G) newError(msg Value) Value {
	pkg := g.p.w.e.P.prog.ImportedPackage("errors")
	slot := new(Value)
	*slot = structV{msg}
	return Iface{types.NewPointer(pkg.Type("errorString").Type()), slot}
}

func (g *G) goPanicErr(msg string) { panic(targetPanic{g.newError(msg), g.where()}) }
