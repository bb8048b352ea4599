package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }
func regs(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func lookupIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if (strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(*time.Time).")) && fn.Synthetic == "" {
		// the real body would misread the modelled representation
		return func(g *G, fn *ssa.Function, a []Value) Value { unsup("%s", name); return nil }
	}
	return nil
}

func constStrArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic string where a constant is needed")
	}
	return s
}
func constInt(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		unsup("symbolic int where a constant is needed")
	}
	return int(sext(t.val, t.w))
}

const vp = modPath + "/internal/verif."

func init() {
	// ---- harness API ----
	reg(vp+"Bool", func(g *G, _ *ssa.Function, a []Value) Value {
		t := g.p.fresh(constStrArg(a[0]), 0, 0)
		g.p.nondets = append(g.p.nondets, Nondet{Kind: "bool", Name: constStrArg(a[0]), t: t})
		return t
	})
	intN := func(g *G, _ *ssa.Function, a []Value) Value {
		name := constStrArg(a[0])
		lo, hi := a[1].(*Term), a[2].(*Term)
		p := g.p
		def := uint64(0)
		if lo.isConst() {
			def = lo.val
		}
		if lo.isConst() && hi.isConst() && int64(lo.val) >= 0 && int64(hi.val) >= int64(lo.val) {
			// a narrow variable: high bits on which the bounds agree are fixed
			k := uint8(bits.Len64(lo.val ^ hi.val))
			if k == 0 {
				k = 1
			}
			if k < 60 {
				x := p.fresh(name, k, lo.val&mask(k))
				t := p.tt.Window(x, lo.val&^mask(k))
				p.nondets = append(p.nondets, Nondet{Kind: "int", Name: name, t: t})
				p.assume(p.tt.And(p.tt.Cmp(OpSle, lo, t), p.tt.Cmp(OpSle, t, hi)))
				return t
			}
		}
		t := p.fresh(name, 64, def)
		p.nondets = append(p.nondets, Nondet{Kind: "int", Name: name, t: t})
		p.assume(p.tt.And(p.tt.Cmp(OpSle, lo, t), p.tt.Cmp(OpSle, t, hi)))
		return t
	}
	reg(vp+"Int", intN)
	reg(vp+"Int64", intN)
	reg(vp+"Byte", func(g *G, _ *ssa.Function, a []Value) Value {
		name := constStrArg(a[0])
		t := g.p.fresh(name, 8, 'a')
		g.p.nondets = append(g.p.nondets, Nondet{Kind: "byte", Name: name, t: t})
		return t
	})
	reg(vp+"Str", func(g *G, _ *ssa.Function, a []Value) Value {
		name := constStrArg(a[0])
		n := constInt(a[1])
		alpha := constStrArg(a[2])
		p := g.p
		b := make([]*Term, n)
		for i := range b {
			if alpha == "" {
				b[i] = p.fresh(name, 8, 'a')
				p.assume(p.tt.And(p.tt.Cmp(OpUle, gBytes[0x20], b[i]), p.tt.Cmp(OpUle, b[i], gBytes[0x7e])))
				continue
			}
			b[i] = p.fresh(name, 8, uint64(alpha[0]))
			c := gFalse
			for k := 0; k < len(alpha); k++ {
				c = p.tt.Or(c, p.tt.Eq(b[i], gBytes[alpha[k]]))
			}
			p.assume(c)
		}
		v := mkStr(b)
		p.nondets = append(p.nondets, Nondet{Kind: "str", Name: name, v: v})
		return v
	})
	reg(vp+"Choose", func(g *G, _ *ssa.Function, a []Value) Value {
		name := constStrArg(a[0])
		n := constInt(a[1])
		v := g.p.chooseSym(name, n)
		g.p.nondets = append(g.p.nondets, Nondet{Kind: "choose", Name: name, n: int64(v)})
		return kint(v)
	})
	reg(vp+"Split", func(g *G, _ *ssa.Function, a []Value) Value {
		// concretizes an integer by solver-driven case split
		return kconst(64, g.p.concretize(a[0].(*Term)))
	})
	reg(vp+"Param", func(g *G, _ *ssa.Function, a []Value) Value {
		name := constStrArg(a[0])
		v := constInt(a[1])
		if x, ok := g.p.w.e.cfg.params[name]; ok {
			v = x
		}
		g.p.nondets = append(g.p.nondets, Nondet{Kind: "param", Name: name, n: int64(v)})
		return kint(v)
	})
	reg(vp+"Assume", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.assume(a[0].(*Term))
		return nil
	})
	reg(vp+"Assert", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.assert(a[0].(*Term), constStrArg(a[1]))
		return nil
	})
	reg(vp+"Fail", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.assert(gFalse, constStrArg(a[0]))
		return nil
	})
	reg(vp+"Unsupported", func(g *G, fn *ssa.Function, a []Value) Value { unsup("%s", g.concreteStr(a[0])); return nil })
	reg(vp+"Reach", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.reached[constStrArg(a[0])] = true
		return nil
	})
	reg(vp+"And", func(g *G, _ *ssa.Function, a []Value) Value {
		r := gTrue
		for _, x := range a[0].(sliceV) {
			r = g.p.tt.And(r, x.(*Term))
		}
		return r
	})
	reg(vp+"Or", func(g *G, _ *ssa.Function, a []Value) Value {
		r := gFalse
		for _, x := range a[0].(sliceV) {
			r = g.p.tt.Or(r, x.(*Term))
		}
		return r
	})
	reg(vp+"Iff", func(g *G, _ *ssa.Function, a []Value) Value { return g.p.tt.Eq(a[0].(*Term), a[1].(*Term)) })
	reg(vp+"Implies", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Or(g.p.tt.Not(a[0].(*Term)), a[1].(*Term))
	})
	reg(vp+"B2I", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Ite(a[0].(*Term), kint(1), kint(0))
	})
	reg(vp+"IteInt", func(g *G, _ *ssa.Function, a []Value) Value {
		return g.p.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(vp+"Is", func(g *G, _ *ssa.Function, a []Value) Value {
		// case split: returns a constant
		return kbool(g.p.branch(a[0].(*Term)))
	})
	reg(vp+"Observe", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.observe(constStrArg(a[0]), a[1].(Iface))
		return nil
	})
	reg(vp+"Symbolic", func(g *G, _ *ssa.Function, a []Value) Value { return gTrue })
	reg(vp+"Go", func(g *G, _ *ssa.Function, a []Value) Value {
		c := a[1].(*Closure)
		ng := g.p.sched.spawn(g, constStrArg(a[0]), func(ng *G) { ng.callClosure(c, nil) })
		l, _ := g.p.extra["vgo"].([]*G)
		g.p.extra["vgo"] = append(l, ng)
		return nil
	})
	reg(vp+"Wait", func(g *G, _ *ssa.Function, a []Value) Value {
		l, _ := g.p.extra["vgo"].([]*G)
		g.block("verif.Wait", func() bool {
			for _, o := range l {
				if !o.ended {
					return false
				}
			}
			return true
		})
		var ends []oref
		for _, o := range l {
			g.acquire(o.vc)
			ends = append(ends, o.last)
		}
		g.after(ends...)
		g.p.extra["vgo"] = []*G(nil)
		return nil
	})
	reg(vp+"Yield", func(g *G, _ *ssa.Function, a []Value) Value { g.yield(); return nil })
	reg(vp+"Settle", func(g *G, _ *ssa.Function, a []Value) Value {
		// runs every other goroutine until all of them are blocked or ended
		g.block("verif.Settle", func() bool {
			for _, o := range g.p.sched.gs {
				if o != g && g.p.sched.enabled(o) {
					return false
				}
			}
			return true
		})
		g.barrier()
		return nil
	})
	reg(vp+"FrozenClock", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.extra["frozen"] = true
		g.p.nondets = append(g.p.nondets, Nondet{Kind: "clock", Name: "concrete"})
		return nil
	})
	reg(vp+"Now", func(g *G, fn *ssa.Function, a []Value) Value { return g.timeNow() })
	reg(vp+"Preempt", func(g *G, _ *ssa.Function, a []Value) Value {
		g.p.sched.preempts = -constInt(a[0])
		return nil
	})

	// ---- runtime ----
	regs(func(g *G, _ *ssa.Function, a []Value) Value { return nil },
		"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime/trace.Log", "runtime/trace.Logf",
		"(*runtime/trace.Region).End", "(*runtime/trace.Task).End", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/race.Errors", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault", "internal/synctest.associate",
		"runtime.LockOSThread", "runtime.UnlockOSThread")
	reg("runtime/trace.StartRegion", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.newZero(fn.Signature.Results().At(0).Type())
	})
	reg("runtime/trace.IsEnabled", func(g *G, fn *ssa.Function, a []Value) Value { return gFalse })
	reg("runtime/trace.WithRegion", func(g *G, fn *ssa.Function, a []Value) Value {
		g.callClosure(a[2].(*Closure), nil)
		return nil
	})
	reg("runtime.Gosched", func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return nil })
	reg("runtime.GOMAXPROCS", func(g *G, fn *ssa.Function, a []Value) Value { return kint(8) })
	reg("runtime.NumCPU", func(g *G, fn *ssa.Function, a []Value) Value { return kint(8) })
	reg("runtime.Callers", func(g *G, fn *ssa.Function, a []Value) Value { return g.callers(constInt(a[0])-1, a[1].(sliceV)) })
	reg("runtime.Caller", func(g *G, fn *ssa.Function, a []Value) Value {
		pcs := make(sliceV, 1)
		pcs[0] = kconst(64, 0)
		if n := g.callers(constInt(a[0]), pcs); n.(*Term).val == 0 {
			return tupleV{kconst(64, 0), "", kint(0), gFalse}
		}
		f := g.p.pcFrame(pcs[0].(*Term).val)
		return tupleV{pcs[0], f.file, kint(f.line), gTrue}
	})
	reg("runtime.FuncForPC", func(g *G, fn *ssa.Function, a []Value) Value {
		if f := g.p.pcFrame(a[0].(*Term).val); f.fn != "" {
			var slot Value = &Native{kind: "rtfunc", x: f}
			return &slot
		}
		return (*Value)(nil)
	})
	reg("(*runtime.Func).Name", func(g *G, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return ""
		}
		return (*p).(*Native).x.(pcInfo).fn
	})
	reg("(*runtime.Func).FileLine", func(g *G, fn *ssa.Function, a []Value) Value {
		f := g.p.pcFrame(a[1].(*Term).val)
		return tupleV{f.file, kint(f.line)}
	})
	reg("runtime.NumGoroutine", func(g *G, fn *ssa.Function, a []Value) Value { return kint(2) })
	reg("runtime.CallersFrames", func(g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(sliceV)
		st := &framesState{}
		for _, v := range s {
			st.pcs = append(st.pcs, v.(*Term).val)
		}
		var slot Value = &Native{kind: "frames", x: st}
		return &slot
	})
	reg("(*runtime.Frames).Next", func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*(a[0].(*Value))).(*Native).x.(*framesState)
		ft := fn.Signature.Results().At(0).Type()
		z := zeroOf(ft).(structV)
		if len(st.pcs) == 0 {
			return tupleV{z, gFalse}
		}
		pc := st.pcs[0]
		st.pcs = st.pcs[1:]
		f := g.p.pcFrame(pc)
		setField(ft, z, "PC", kconst(64, pc))
		setField(ft, z, "Function", f.fn)
		setField(ft, z, "File", f.file)
		setField(ft, z, "Line", kint(f.line))
		return tupleV{z, kbool(len(st.pcs) > 0)}
	})

	// ---- unsafe helpers ----
	ident := func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	regs(ident, "internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone", "strings.Clone")
	reg("(*strings.Builder).copyCheck", func(g *G, fn *ssa.Function, a []Value) Value { return nil })

	// ---- bytealg ----
	regs(func(g *G, fn *ssa.Function, a []Value) Value { return g.indexByte(a[0], a[1].(*Term)) },
		"internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte")
	regs(func(g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, t := range g.bytesOf(a[0]) {
			if g.p.branch(g.p.tt.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return kint(n)
	}, "internal/bytealg.CountString", "internal/bytealg.Count")
	regs(func(g *G, fn *ssa.Function, a []Value) Value { return g.indexOf(a[0], a[1]) },
		"strings.Index", "bytes.Index", "internal/bytealg.IndexString", "internal/bytealg.Index", "internal/stringslite.Index")
	regs(func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		if x, ok := a[1].(string); ok && !hasTok(x) {
			if s, ok := a[0].(string); ok && !hasTok(s[:min(len(s), len(x))]) {
				return kbool(strings.HasPrefix(s, x))
			}
		}
		if p.hasTokens(a[0]) || p.hasTokens(a[1]) {
			return p.tokCmp(p.segments(a[0]), p.segments(a[1]), true)
		}
		x, y := strBytes(a[0]), strBytes(a[1])
		if len(x) < len(y) {
			return gFalse
		}
		return p.strEq(mkStr(x[:len(y)]), mkStr(y))
	}, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	regs(func(g *G, fn *ssa.Function, a []Value) Value {
		return kbool(g.p.branch(g.p.strEq(mkStr(g.bytesOf(a[0])), mkStr(g.bytesOf(a[1])))))
	}, "bytes.Equal", "internal/bytealg.Equal")
	regs(func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(g.bytesOf(a[0])), mkStr(g.bytesOf(a[1]))
		p := g.p
		return p.tt.Ite(p.strLess(x, y), kint(-1), p.tt.Ite(p.strEq(x, y), kint(0), kint(1)))
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare", "runtime.cmpstring")
	reg("internal/bytealg.MakeNoZero", func(g *G, fn *ssa.Function, a []Value) Value {
		n := constInt(a[0])
		s := make(sliceV, n)
		for i := range s {
			s[i] = gBytes[0]
		}
		return s
	})

	// ---- math ----
	m1 := func(name string, f func(float64) float64) {
		h := func(g *G, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if t.isConst() {
				return fterm(64, f(fval(t)))
			}
			return g.p.tt.UF("m_"+name, 64, t)
		}
		reg("math."+name, h)
	}
	m1("Floor", math.Floor)
	m1("Ceil", math.Ceil)
	m1("Sqrt", math.Sqrt)
	m1("Log", math.Log)
	m1("Trunc", math.Trunc)
	m1("Round", math.Round)
	m1("Abs", math.Abs)
	minmax := func(less func(p *Path, x, y *Term) *Term) func(g *G, fn *ssa.Function, a []Value) Value {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			for _, t := range []*Term{x, y} {
				if t.isConst() && math.IsNaN(fval(t)) {
					return t
				}
			}
			if g.p.branch(less(g.p, x, y)) {
				return x
			}
			return y
		}
	}
	reg("math.Min", minmax(func(p *Path, x, y *Term) *Term { return p.floatCmp("<", x, y) }))
	reg("math.Max", minmax(func(p *Path, x, y *Term) *Term { return p.floatCmp("<", y, x) }))
	reg("math.Float64bits", ident)
	reg("math.Float64frombits", ident)
	reg("math.Float32bits", ident)
	reg("math.Float32frombits", ident)

	// ---- strconv ----
	fmtInt := func(kind string) func(g *G, t *Term, base int) Value {
		return func(g *G, t *Term, base int) Value {
			if t.isConst() {
				if kind == "d" {
					return strconv.FormatInt(sext(t.val, t.w), base)
				}
				return strconv.FormatUint(t.val, base)
			}
			if base != 10 {
				unsup("FormatInt of symbolic value, base %d", base)
			}
			return g.p.token(kind, t, nil)
		}
	}
	reg("strconv.Itoa", func(g *G, fn *ssa.Function, a []Value) Value { return fmtInt("d")(g, a[0].(*Term), 10) })
	reg("strconv.FormatInt", func(g *G, fn *ssa.Function, a []Value) Value { return fmtInt("d")(g, a[0].(*Term), constInt(a[1])) })
	reg("strconv.FormatUint", func(g *G, fn *ssa.Function, a []Value) Value { return fmtInt("u")(g, a[0].(*Term), constInt(a[1])) })
	reg("strconv.FormatBool", func(g *G, fn *ssa.Function, a []Value) Value {
		if g.p.branch(a[0].(*Term)) {
			return "true"
		}
		return "false"
	})
	reg("strconv.Atoi", func(g *G, fn *ssa.Function, a []Value) Value {
		if tk := g.p.onlyToken(a[0]); tk != nil && tk.kind == "d" && tk.t.w == 64 {
			return tupleV{tk.t, Iface{}}
		}
		if s, ok := a[0].(string); ok && !hasTok(s) {
			if n, err := strconv.Atoi(s); err == nil {
				return tupleV{kint(n), Iface{}}
			}
		}
		return fallthru
	})
	reg("strconv.ParseInt", func(g *G, fn *ssa.Function, a []Value) Value {
		if tk := g.p.onlyToken(a[0]); tk != nil && tk.kind == "d" {
			return tupleV{g.p.tt.Resize(tk.t, 64, true), Iface{}}
		}
		return fallthru
	})
	reg("strconv.FormatFloat", func(g *G, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return strconv.FormatFloat(fval(t), byte(constInt(a[1])), constInt(a[2]), constInt(a[3]))
		}
		return g.p.token(fmt.Sprintf("f%c%d", constInt(a[1]), constInt(a[2])), t, nil)
	})
	reg("strconv.Quote", func(g *G, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok && !hasTok(s) {
			return strconv.Quote(s)
		}
		return fallthru
	})

	// ---- sort ----
	sortIt := func(stable bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface)
			if x.t == nil {
				g.rtPanic("reflect: call of Swapper on zero Value")
			}
			s := x.v.(sliceV)
			swap := &Closure{name: "swap", native: func(g *G, b []Value) Value {
				i, j := constInt(b[0]), constInt(b[1])
				t := copyVal(g.load(types.Typ[types.Int], &s[i]))
				u := copyVal(g.load(types.Typ[types.Int], &s[j]))
				g.store(&s[i], u)
				g.store(&s[j], t)
				return nil
			}}
			ls := structV{a[1], swap}
			n := len(s)
			if stable {
				g.call(fn.Pkg.Func("stable_func"), []Value{ls, kint(n)}, nil)
				return nil
			}
			g.call(fn.Pkg.Func("pdqsort_func"), []Value{ls, kint(0), kint(n), kint(bitsLen(uint64(n)))}, nil)
			return nil
		}
	}
	reg("sort.Slice", sortIt(false))
	reg("sort.SliceStable", sortIt(true))

	// ---- maps ----
	reg("maps.clone", func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.v.(*MapV)
		if m == nil {
			return i
		}
		if g.p.sched.conc {
			g.p.sched.accessLeaf(g, &m.cell, false)
		}
		c := newMap()
		for _, e := range m.entries {
			ne := &mapEntry{k: e.k, v: copyVal(e.v)}
			c.entries = append(c.entries, ne)
			c.n++
			if key, conc := g.p.mapKey(e.k); conc {
				c.idx[key] = ne
			} else {
				c.nsym++
			}
		}
		return Iface{i.t, c}
	})

	// ---- errors / reflect ----
	reg("errors.Is", func(g *G, fn *ssa.Function, a []Value) Value { return kbool(g.errorsIs(a[0].(Iface), a[1].(Iface))) })
	reg("reflect.DeepEqual", func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return kbool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return gFalse
		}
		return g.deepEq(x.t, x.v, y.v, 0)
	})
	reg("(*errors.joinError).Error", func(g *G, fn *ssa.Function, a []Value) Value {
		var s Value = ""
		for i, e := range (*g.deref(a[0])).(structV)[0].(sliceV) {
			if i > 0 {
				s = strConcat(s, "\n")
			}
			s = strConcat(s, g.callMethod(e.(Iface), "Error"))
		}
		return s
	})
	reg("errors.As", func(g *G, fn *ssa.Function, a []Value) Value { return kbool(g.errorsAs(a[0].(Iface), a[1].(Iface))) })

	// the text of the command's help is not looked at
	reg("github.com/peterbourgon/ff/v4/ffhelp.Command", func(g *G, fn *ssa.Function, a []Value) Value {
		return zeroOf(fn.Signature.Results().At(0).Type())
	})
	// no signals arrive
	reg("os/signal.Notify", func(g *G, fn *ssa.Function, a []Value) Value { return nil })
	reg("os/signal.Stop", func(g *G, fn *ssa.Function, a []Value) Value { return nil })

	// ---- os ----
	reg("os.Getenv", func(g *G, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", func(g *G, fn *ssa.Function, a []Value) Value { return tupleV{"", gFalse} })
	reg("internal/godebug.New", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.newZero(fn.Signature.Results().At(0).Type())
	})
	reg("(*internal/godebug.Setting).Value", func(g *G, fn *ssa.Function, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(g *G, fn *ssa.Function, a []Value) Value { return "" })
}

// newZero allocates a zero value for a pointer type and returns the pointer.
func (g *G) newZero(pt types.Type) *Value {
	slot := new(Value)
	*slot = zeroOf(pt.Underlying().(*types.Pointer).Elem())
	return slot
}

func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsup("fieldIndex on %v", t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %v", name, t)
	return -1
}
func setField(t types.Type, s structV, name string, v Value) { s[fieldIndex(t, name)] = v }

func (g *G) bytesOf(v Value) []*Term {
	switch v := v.(type) {
	case sliceV:
		out := make([]*Term, len(v))
		for i := range v {
			out[i] = v[i].(*Term)
		}
		return out
	default:
		return strBytes(v)
	}
}

func (g *G) indexByte(s Value, c *Term) Value {
	if cs, ok := s.(string); ok && c.isConst() {
		return kint(strings.IndexByte(cs, byte(c.val)))
	}
	for i, t := range g.bytesOf(s) {
		if g.p.branch(g.p.tt.Eq(t, c)) {
			return kint(i)
		}
	}
	return kint(-1)
}

func (g *G) indexOf(s, sub Value) Value {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return kint(strings.Index(a, b))
		}
	}
	x, y := g.bytesOf(s), g.bytesOf(sub)
	for i := 0; i+len(y) <= len(x); i++ {
		if len(y) > 0 && x[i].isConst() && y[0].isConst() && x[i].val != y[0].val && x[i].val != 0xff && y[0].val != 0xff {
			continue
		}
		if g.p.branch(g.p.strEq(mkStr(x[i:i+len(y)]), mkStr(y))) {
			return kint(i)
		}
	}
	return kint(-1)
}

func (p *Path) onlyToken(v Value) *Token {
	s, ok := v.(string)
	if !ok || !hasTok(s) {
		return nil
	}
	sg := p.segments(v)
	if len(sg) == 1 && sg[0].tok != nil {
		return sg[0].tok
	}
	return nil
}

// ---- call stacks ----

type pcInfo struct {
	fn, file string
	line     int
}
type framesState struct{ pcs []uint64 }

func rtName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		base := rtName(p)
		for i, a := range p.AnonFuncs {
			if a == fn {
				if p.Parent() != nil {
					return base + "." + strconv.Itoa(i+1)
				}
				return base + ".func" + strconv.Itoa(i+1)
			}
		}
		return base + ".func1"
	}
	n := fn.RelString(nil)
	if o := fn.Origin(); o != nil && o != fn {
		n = o.RelString(nil)
		if i := strings.IndexByte(n, '['); i < 0 {
			n += "[...]"
		}
	}
	// (*pkg.T).M -> pkg.(*T).M
	if strings.HasPrefix(n, "(") {
		ptr := strings.HasPrefix(n, "(*")
		in := n[1:strings.LastIndex(n, ")")]
		meth := n[strings.LastIndex(n, ")")+1:]
		in = strings.TrimPrefix(in, "*")
		slash := strings.LastIndex(in, "/")
		dot := strings.Index(in[slash+1:], ".") + slash + 1
		pkg, ty := in[:dot], in[dot+1:]
		if ptr {
			return pkg + ".(*" + ty + ")" + meth
		}
		return pkg + "." + ty + meth
	}
	return n
}

func (g *G) callers(skip int, dst sliceV) Value {
	// skip 0 = caller of runtime.Callers
	tab, _ := g.p.extra["pcs"].([]pcInfo)
	n := 0
	add := func(inf pcInfo) {
		if skip > 0 {
			skip--
			return
		}
		if n >= len(dst) {
			return
		}
		id := -1
		for i, x := range tab {
			if x == inf {
				id = i
			}
		}
		if id < 0 {
			tab = append(tab, inf)
			id = len(tab) - 1
		}
		dst[n] = kconst(64, uint64(id+1))
		n++
	}
	for fr := g.fr; fr != nil && n < len(dst); fr = fr.caller {
		if fr.fn.Synthetic != "" && !strings.HasPrefix(fr.fn.Synthetic, "instance") && !strings.HasPrefix(fr.fn.Synthetic, "range-over") {
			continue // wrappers do not show up in stacks
		}
		pos := fr.fn.Prog.Fset.Position(fr.cur.Pos())
		add(pcInfo{rtName(fr.fn), pos.Filename, pos.Line})
	}
	// what lies below the harness natively
	if g.id == 0 {
		add(pcInfo{modPath + "/internal/verif.Main", "verif.go", 1})
		add(pcInfo{"main.main", "main.go", 1})
		add(pcInfo{"runtime.main", "proc.go", 1})
	}
	add(pcInfo{"runtime.goexit", "asm.s", 1})
	g.p.extra["pcs"] = tab
	return kint(n)
}

func (p *Path) pcFrame(pc uint64) pcInfo {
	tab, _ := p.extra["pcs"].([]pcInfo)
	if pc >= 1 && int(pc) <= len(tab) {
		return tab[pc-1]
	}
	return pcInfo{}
}

// ---- helpers ----

// callMethod calls a method by name on an interface value.
func (g *G) callMethod(x Iface, name string, args ...Value) Value {
	if n, ok := x.v.(*Native); ok {
		if c := nativeMethod(g, n, name); c != nil {
			return c.native(g, args)
		}
	}
	fn := g.p.w.e.P.findMethod(x.t, nil, name)
	if fn == nil {
		unsup("no method %s on %v", name, x.t)
	}
	return g.call(fn, append([]Value{x.v}, args...), nil)
}

func (g *G) hasMethod(t types.Type, name string) bool {
	return g.p.w.e.P.findMethod(t, nil, name) != nil
}

func nativeMethod(g *G, n *Native, name string) *Closure { return nil }

func (g *G) errorsIs(err, target Iface) bool {
	for {
		if err.t == nil || target.t == nil {
			return err.t == nil && target.t == nil
		}
		if types.Comparable(target.t) && types.Identical(err.t, target.t) && types.Comparable(err.t) {
			if g.p.branch(g.p.ifaceEq(err, target)) {
				return true
			}
		}
		if g.hasMethod(err.t, "Is") {
			if g.p.branch(g.callMethod(err, "Is", target).(*Term)) {
				return true
			}
		}
		if !g.hasMethod(err.t, "Unwrap") {
			return false
		}
		r := g.callMethod(err, "Unwrap")
		switch r := r.(type) {
		case Iface:
			err = r
			if err.t == nil {
				return false
			}
		case sliceV:
			for _, e := range r {
				if g.errorsIs(e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
}

// errorsAs: target is a non-nil pointer to an interface or to a type that is an
// error.
func (g *G) errorsAs(err, target Iface) bool {
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		unsup("errors.As: target %v", target.t)
	}
	et := pt.Elem()
	_, isI := et.Underlying().(*types.Interface)
	for err.t != nil {
		switch {
		case isI && g.p.w.e.P.implements(err.t, et):
			g.store(g.deref(target.v), err)
			return true
		case !isI && types.Identical(err.t, et):
			g.store(g.deref(target.v), copyVal(err.v))
			return true
		}
		if g.hasMethod(err.t, "As") {
			if g.p.branch(g.callMethod(err, "As", target).(*Term)) {
				return true
			}
		}
		if !g.hasMethod(err.t, "Unwrap") {
			return false
		}
		switch r := g.callMethod(err, "Unwrap").(type) {
		case Iface:
			err = r
		case sliceV:
			for _, e := range r {
				if g.errorsAs(e.(Iface), target) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (g *G) deepEq(t types.Type, a, b Value, depth int) *Term {
	p := g.p
	if depth > 50 {
		unsup("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(sliceV), b.(sliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return gFalse
		}
		r := gTrue
		for i := range x {
			r = p.tt.And(r, g.deepEq(u.Elem(), g.load(u.Elem(), &x[i]), g.load(u.Elem(), &y[i]), depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(arrayV), b.(arrayV)
		r := gTrue
		for i := range x {
			r = p.tt.And(r, g.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(structV), b.(structV)
		r := gTrue
		for i := range x {
			r = p.tt.And(r, g.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(*Value)
		y, ok2 := b.(*Value)
		if !ok1 || !ok2 {
			unsup("DeepEqual of pointers %T", a)
		}
		if x == y {
			return gTrue
		}
		if x == nil || y == nil {
			return gFalse
		}
		return g.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return gFalse
		}
		if x == nil {
			return gTrue
		}
		if x.n != y.n {
			return gFalse
		}
		r := gTrue
		for _, e := range x.entries {
			o := p.mapFind(y, u.Key(), e.k)
			if o == nil {
				return gFalse
			}
			r = p.tt.And(r, g.deepEq(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return kbool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return gFalse
		}
		return g.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Signature:
		x, y := a.(*Closure), b.(*Closure)
		return kbool(x == nil && y == nil)
	}
	return p.valEq(t, a, b)
}

func (p *Path) panicText(tp targetPanic) string {
	iv, ok := tp.v.(Iface)
	if !ok || iv.t == nil {
		return "nil"
	}
	s := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("%v", iv.t)
			}
		}()
		if p.g.hasMethod(iv.t, "Error") {
			s = valText(p.g.callMethod(iv, "Error"))
		} else {
			s = valText(iv.v)
		}
	}()
	return s
}

func valText(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		var sb strings.Builder
		for _, t := range v.b {
			if t.isConst() {
				sb.WriteByte(byte(t.val))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	case *Term:
		return v.String()
	}
	return fmt.Sprintf("%T", v)
}

// ---- observations ----

type obsRec struct {
	label string
	v     Value
	t     types.Type
}

func (p *Path) observe(label string, v Iface) {
	l, _ := p.extra["obs"].([]obsRec)
	p.extra["obs"] = append(l, obsRec{label, copyVal(v.v), v.t})
	p.obs = append(p.obs, label)
}

// concreteObs renders the observations under the path's model.
func (p *Path) concreteObs() []string {
	l, _ := p.extra["obs"].([]obsRec)
	var out []string
	memo := map[*Term]uint64{}
	for _, o := range l {
		s, ok := p.renderObs(o.v, o.t, memo)
		if !ok {
			s = "?"
		}
		out = append(out, o.label+"="+s)
	}
	return out
}

func (p *Path) renderObs(v Value, t types.Type, memo map[*Term]uint64) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if isFloat(t) {
			return "", false
		}
		k, ok := evalTerm(x, p.model, memo)
		if !ok {
			return "", false
		}
		if x.w == 0 {
			return strconv.FormatBool(k != 0), true
		}
		if isSigned(t) {
			return strconv.FormatInt(sext(k, x.w), 10), true
		}
		return strconv.FormatUint(k, 10), true
	case string, *SymStr:
		var sb strings.Builder
		for _, sg := range p.segments(v) {
			if sg.tok != nil {
				if sg.tok.t == nil || (sg.tok.kind != "d" && sg.tok.kind != "u") {
					return "", false
				}
				k, ok := evalTerm(sg.tok.t, p.model, memo)
				if !ok {
					return "", false
				}
				if sg.tok.kind == "d" {
					sb.WriteString(strconv.FormatInt(sext(k, sg.tok.t.w), 10))
				} else {
					sb.WriteString(strconv.FormatUint(k, 10))
				}
				continue
			}
			for _, b := range sg.lit {
				k, ok := evalTerm(b, p.model, memo)
				if !ok {
					return "", false
				}
				sb.WriteByte(byte(k))
			}
		}
		return strconv.Quote(sb.String()), true
	}
	return "", false
}

var _ = sort.Strings
