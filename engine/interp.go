package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opReg opKind = iota
	opConst
	opGlobal
	opFunc
	opBuiltin
	opNone
)

type operand struct {
	k opKind
	i int32
	v Value // constant, closure
	g *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int32
	ops []operand
}

type cblock struct {
	phis   []cinstr
	instrs []cinstr
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []cblock
	params   int
	hasDefer bool
	intr     intrinsic
	module   bool
	harness  bool
	maps     bool // iterators over maps: the order is the caller's concern
	std      bool
	name     string
	inits    bool
}

type intrinsic func(g *G, fn *ssa.Function, args []Value) Value

// fallthru is returned by an intrinsic that leaves a call to the real body.
var fallthru = &Native{kind: "fallthru"}

type frame struct {
	g         *G
	info      *fnInfo
	fn        *ssa.Function
	caller    *frame
	regs      []Value
	block     int
	prev      int
	cur       ssa.Instruction
	defers    *deferred
	result    Value
	panicking bool
	panic     targetPanic
	depth     int
}

type deferred struct {
	fn   *Closure
	args []Value
	ins  ssa.Instruction
	tail *deferred
}

type targetPanic struct {
	v     Value // Iface
	where string
}

type Program struct {
	prog       *ssa.Program
	infos      sync.Map // *ssa.Function -> *fnInfo
	modPath    string
	embeds     map[string][]string // files, by package
	runtimeErr types.Type
	methods    sync.Map // methodKey -> *ssa.Function
	implTab    sync.Map
	ptrMu      sync.Mutex
	ptrs       map[types.Type]types.Type
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := P.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := P.compile(fn)
	v, _ := P.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func pkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (P *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn}
	pp := pkgOf(fn)
	fi.module = pp == P.modPath || strings.HasPrefix(pp, P.modPath+"/")
	fi.maps = pp == "maps"
	fi.harness = strings.Contains(pp, "/internal/verif")
	if strings.HasSuffix(pp, "/verifh/cli") && fn.Prog != nil && strings.HasPrefix(filepath.Base(fn.Prog.Fset.Position(fn.Pos()).Filename), "cmd_") {
		fi.harness = false // the command's own sources
	}
	first, _, _ := strings.Cut(pp, "/")
	fi.std = !strings.Contains(first, ".")
	nm := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		nm = o.RelString(nil)
	}
	fi.name = nm
	fi.intr = lookupIntrinsic(nm, fn)
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		fi.inits = true
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	reg := func(v ssa.Value) int32 {
		idx[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		reg(p)
	}
	fi.params = len(fn.Params)
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				reg(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	fi.nregs = int(n)
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{k: opNone}
		case *ssa.Const:
			return operand{k: opConst, v: constValue(v)}
		case *ssa.Global:
			return operand{k: opGlobal, g: v}
		case *ssa.Function:
			return operand{k: opFunc, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{k: opBuiltin, v: v}
		}
		i, ok := idx[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v.Name(), fn))
		}
		return operand{k: opReg, i: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			if phi, ok := ins.(*ssa.Phi); ok {
				for _, e := range phi.Edges {
					ci.ops = append(ci.ops, mkop(e))
				}
				cb.phis = append(cb.phis, ci)
				continue
			}
			for _, o := range ins.Operands(nil) {
				if *o == nil {
					ci.ops = append(ci.ops, operand{k: opNone})
				} else {
					ci.ops = append(ci.ops, mkop(*o))
				}
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	return fi
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroConst(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok {
		_ = tp
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return poison{fmt.Sprintf("const of type %v", c.Type())}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return kbool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		w, s := basicWidth(b)
		if s {
			return kconst(w, uint64(c.Int64()))
		}
		return kconst(w, c.Uint64())
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			return kconst(32, uint64(math.Float32bits(float32(f))))
		}
		return kconst(64, math.Float64bits(f))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return &Native{kind: "complex", x: complex(re, im)}
	}
	return poison{fmt.Sprintf("const %v", c)}
}

type poison struct{ msg string }

func zeroConst(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = poison{fmt.Sprint(r)}
		}
	}()
	return zeroOf(t)
}

func (fr *frame) get(o *operand) Value {
	switch o.k {
	case opReg:
		return fr.regs[o.i]
	case opConst:
		switch v := o.v.(type) {
		case structV, arrayV:
			return copyVal(v)
		case poison:
			unsup("%s", v.msg)
		}
		return o.v
	case opGlobal:
		return fr.g.p.global(o.g)
	case opFunc:
		return o.v
	case opBuiltin:
		return o.v
	}
	return nil
}

func posOf(fn *ssa.Function, ins ssa.Instruction) string {
	if fn == nil {
		return "?"
	}
	pos := token.NoPos
	if ins != nil {
		pos = ins.Pos()
	}
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	ps := fn.Prog.Fset.Position(pos)
	f := ps.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (g *G) where() string {
	var sb strings.Builder
	n := 0
	for fr := g.fr; fr != nil && n < 12; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fn.RelString(nil) + " " + posOf(fr.fn, fr.cur))
		n++
	}
	return sb.String()
}

// moduleCaller reports whether the innermost frame outside sync is code of the
// module under test (or a harness).
func (g *G) moduleCaller() bool {
	for fr := g.fr; fr != nil; fr = fr.caller {
		if strings.HasPrefix(fr.info.name, "(*sync") || strings.HasPrefix(fr.info.name, "sync/atomic.") {
			continue
		}
		return fr.info.module
	}
	return false
}

func (g *G) mkErr(msg string) Value {
	return Iface{g.p.w.e.P.runtimeErr, msg}
}

func (g *G) rtPanic(msg string) {
	panic(targetPanic{g.mkErr(msg), g.where()})
}
func (g *G) goPanic(msg string) { g.rtPanic(msg) }

// call invokes a function value.
func (g *G) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(g, args)
	}
	return g.call(c.fn, args, c.env)
}

func (g *G) getRegs(n int) []Value {
	if k := len(g.free); k > 0 {
		r := g.free[k-1]
		if cap(r) >= n {
			g.free = g.free[:k-1]
			return r[:n]
		}
	}
	c := n
	if c < 32 {
		c = 32
	}
	return make([]Value, n, c)
}

func (g *G) putRegs(r []Value) {
	for i := range r {
		r[i] = nil
	}
	g.free = append(g.free, r)
}

func (g *G) call(fn *ssa.Function, args []Value, env []Value) Value {
	p := g.p
	info := p.w.e.P.info(fn)
	if info.intr != nil {
		if info.name == "fmt.Errorf" && g.fr != nil { // shows up in the stacks of what it calls
			g.fr = &frame{g: g, info: info, fn: fn, caller: g.fr, depth: g.depth, cur: g.fr.cur}
			r := info.intr(g, fn, args)
			g.fr = g.fr.caller
			if r != fallthru {
				return r
			}
		} else if r := info.intr(g, fn, args); r != fallthru {
			return r
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", info.name)
	}
	if info.inits && info.std {
		if g.fr != nil && g.fr.info.inits {
			return nil // std packages are initialised on demand
		}
	}
	g.depth++
	if g.depth > 4000 {
		unsup("call depth")
	}
	if p.w.funcs != nil {
		p.w.funcs[info]++
	}
	fr := &frame{g: g, info: info, fn: fn, caller: g.fr, depth: g.depth}
	fr.regs = g.getRegs(info.nregs)
	copy(fr.regs, args)
	for i, e := range env {
		fr.regs[info.params+i] = e
	}
	g.fr = fr
	for fr.block >= 0 {
		fr.run()
	}
	g.fr = fr.caller
	g.depth = fr.depth - 1
	g.putRegs(fr.regs)
	fr.regs = nil
	return fr.result
}

func (fr *frame) run() {
	if fr.info.hasDefer {
		defer func() {
			if fr.block < 0 {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.g.depth = fr.depth
			fr.g.fr = fr
			fr.panicking = true
			fr.panic = tp
			fr.runDefers()
			if fr.fn.Recover != nil {
				fr.block = fr.fn.Recover.Index
			} else {
				fr.result = zeroOf(fr.fn.Signature.Results())
				fr.block = -1
			}
		}()
	}
	g := fr.g
	p := g.p
	for {
		cb := &fr.info.blocks[fr.block]
		if len(cb.phis) > 0 {
			pred := -1
			for i, b := range fr.fn.Blocks[fr.block].Preds {
				if b.Index == fr.prev {
					pred = i
					break
				}
			}
			var tmp [8]Value
			vals := tmp[:0]
			for i := range cb.phis {
				vals = append(vals, fr.get(&cb.phis[i].ops[pred]))
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = vals[i]
			}
		}
		next := -2
		for i := range cb.instrs {
			ci := &cb.instrs[i]
			p.steps++
			fr.cur = ci.ins
			next = fr.exec(ci)
			if next != -2 {
				break
			}
		}
		if p.steps > p.w.e.cfg.maxSteps {
			panic(pathAbort{"steps"})
		}
		if p.w.e.over.Load() {
			panic(pathAbort{"time"})
		}
		if next == -1 {
			fr.block = -1
			return
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.g.fr = fr
			fr.g.depth = fr.depth
			fr.panicking = true
			fr.panic = tp
		}
	}()
	fr.g.callClosure(d.fn, d.args)
	ok = true
}

func (g *G) deref(v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			g.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case sliceData:
		if cap(p.s) == 0 {
			unsup("deref of empty slice data")
		}
		return &p.s[:1][0]
	case strData:
		unsup("deref of string data")
	}
	unsup("deref of %T", v)
	return nil
}

func (g *G) load(t types.Type, ptr *Value) Value {
	if g.p.sched.conc {
		g.p.sched.access(g, ptr, false)
	}
	v := *ptr
	switch x := v.(type) {
	case structV, arrayV:
		return copyVal(v)
	case sliceV:
		if isString(t) {
			return bytesToStr(x)
		}
	case string, *SymStr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return strToBytes(v)
		}
	}
	return v
}

func (g *G) store(ptr *Value, v Value) {
	if g.p.sched.conc {
		g.p.sched.access(g, ptr, true)
	}
	storeInto(ptr, v)
}

func (fr *frame) exec(ci *cinstr) int {
	g := fr.g
	p := g.p
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		x := fr.get(&ci.ops[0])
		switch ins.Op {
		case token.MUL:
			fr.regs[ci.dst] = g.load(ins.Type(), g.deref(x))
		case token.ARROW:
			c, _ := x.(*ChanV)
			_, v, ok := g.selectOp([]selCase{{c: c}}, true, "recv")
			if ins.CommaOk {
				fr.regs[ci.dst] = tupleV{v, kbool(ok)}
			} else {
				fr.regs[ci.dst] = v
			}
		case token.NOT:
			fr.regs[ci.dst] = p.tt.Not(x.(*Term))
		case token.SUB:
			if isFloat(ins.Type()) {
				t := x.(*Term)
				if t.isConst() {
					fr.regs[ci.dst] = fterm(t.w, -fval(t))
				} else {
					fr.regs[ci.dst] = p.tt.UF("fneg", t.w, t)
				}
			} else {
				fr.regs[ci.dst] = p.tt.Neg(x.(*Term))
			}
		case token.XOR:
			fr.regs[ci.dst] = p.tt.BNot(x.(*Term))
		default:
			unsup("unop %v", ins.Op)
		}
	case *ssa.BinOp:
		fr.regs[ci.dst] = g.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		fn, args := fr.prepare(&ins.Call, ci)
		fr.regs[ci.dst] = g.callPrepared(fn, args, ins)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = g.convert(ins.X.Type(), ins.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = g.convert(ins.X.Type(), ins.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(sliceV)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if n > len(s) {
			g.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
		}
		var slot Value = arrayV(s[:n:n])
		fr.regs[ci.dst] = &slot
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{ins.X.Type(), fr.get(&ci.ops[0])}
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(tupleV)[ins.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = fr.slice(ins, ci)
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = fr.get(&ci.ops[0])
		default:
			t := make(tupleV, len(ci.ops))
			for i := range ci.ops {
				t[i] = fr.get(&ci.ops[i])
			}
			fr.result = t
		}
		return -1
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(&ci.ops[0])
		panic(targetPanic{v, g.where()})
	case *ssa.Send:
		c, _ := fr.get(&ci.ops[0]).(*ChanV)
		g.selectOp([]selCase{{c: c, send: true, v: fr.get(&ci.ops[1])}}, true, "send")
	case *ssa.Store:
		g.store(g.deref(fr.get(&ci.ops[0])), fr.get(&ci.ops[1]))
	case *ssa.If:
		b := fr.fn.Blocks[fr.block]
		if p.branch(fr.get(&ci.ops[0]).(*Term)) {
			return b.Succs[0].Index
		}
		return b.Succs[1].Index
	case *ssa.Jump:
		return fr.fn.Blocks[fr.block].Succs[0].Index
	case *ssa.Defer:
		fn, args := fr.prepare(&ins.Call, ci)
		tgt := fr
		if ins.DeferStack != nil {
			if f, ok := fr.get(&ci.ops[len(ci.ops)-1]).(*Native); ok {
				tgt = f.x.(*frame)
			}
		}
		tgt.defers = &deferred{fn: fn, args: args, ins: ins, tail: tgt.defers}
	case *ssa.Go:
		fn, args := fr.prepare(&ins.Call, ci)
		g.point("go")
		gs := "go"
		if fn != nil && fn.fn != nil {
			gs = fn.fn.RelString(nil)
		}
		p.sched.spawn(g, gs, func(ng *G) { ng.callClosure(fn, args) })
	case *ssa.MakeChan:
		n := int(int64(p.concretize(fr.get(&ci.ops[0]).(*Term))))
		if n < 0 {
			g.rtPanic("makechan: size out of range")
		}
		fr.regs[ci.dst] = g.makeChan(ins.Type().Underlying().(*types.Chan).Elem(), n)
	case *ssa.Alloc:
		slot := new(Value)
		*slot = zeroOf(ins.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = slot
	case *ssa.MakeSlice:
		n := int(sext(p.concretize(fr.get(&ci.ops[0]).(*Term)), 64))
		c := int(sext(p.concretize(fr.get(&ci.ops[1]).(*Term)), 64))
		if n < 0 || n > 1<<26 {
			g.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<26 {
			g.rtPanic("makeslice: cap out of range")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make(sliceV, c)
		if c > 0 {
			z := zeroOf(et)
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.Range:
		fr.regs[ci.dst] = g.rangeIter(fr.get(&ci.ops[0]), ins.X.Type())
	case *ssa.Next:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(iter).next(g)
	case *ssa.FieldAddr:
		ptr := g.deref(fr.get(&ci.ops[0]))
		s, ok := (*ptr).(structV)
		if !ok {
			unsup("field address in %T", *ptr)
		}
		fr.regs[ci.dst] = &s[ins.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(structV)[ins.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		i := fr.get(&ci.ops[1]).(*Term)
		switch x := x.(type) {
		case sliceV:
			fr.regs[ci.dst] = &x[g.index(i, ins.Index.Type(), len(x))]
		case *Value:
			a, ok := (*g.deref(x)).(arrayV)
			if !ok {
				unsup("index address in %T", *x)
			}
			fr.regs[ci.dst] = &a[g.index(i, ins.Index.Type(), len(a))]
		default:
			unsup("indexaddr %T", x)
		}
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		i := fr.get(&ci.ops[1]).(*Term)
		switch x := x.(type) {
		case arrayV:
			fr.regs[ci.dst] = g.indexVal(len(x), func(k int) Value { return x[k] }, i, ins.Index.Type())
		case string:
			fr.regs[ci.dst] = g.indexVal(len(x), func(k int) Value { return gBytes[x[k]] }, i, ins.Index.Type())
		case *SymStr:
			fr.regs[ci.dst] = g.indexVal(len(x.b), func(k int) Value { return x.b[k] }, i, ins.Index.Type())
		default:
			unsup("index %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		k := fr.get(&ci.ops[1])
		switch x := x.(type) {
		case string:
			fr.regs[ci.dst] = g.indexVal(len(x), func(i int) Value { return gBytes[x[i]] }, k.(*Term), ins.Index.Type())
		case *SymStr:
			fr.regs[ci.dst] = g.indexVal(len(x.b), func(i int) Value { return x.b[i] }, k.(*Term), ins.Index.Type())
		case *MapV:
			mt := ins.X.Type().Underlying().(*types.Map)
			if x != nil && p.sched.conc {
				p.sched.accessLeaf(g, &x.cell, false)
			}
			e := p.mapFind(x, mt.Key(), k)
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zeroOf(mt.Elem())
			}
			if ins.CommaOk {
				fr.regs[ci.dst] = tupleV{v, kbool(e != nil)}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			unsup("lookup %T", x)
		}
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*MapV)
		if m == nil {
			panic(targetPanic{g.mkErr("assignment to entry in nil map"), g.where()})
		}
		if p.sched.conc {
			p.sched.accessLeaf(g, &m.cell, true)
		}
		mt := ins.Map.Type().Underlying().(*types.Map)
		p.mapSet(m, mt.Key(), fr.get(&ci.ops[1]), copyVal(fr.get(&ci.ops[2])))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = g.typeAssert(ins, fr.get(&ci.ops[0]).(Iface))
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		env := make([]Value, len(ins.Bindings))
		for i := range env {
			env[i] = fr.get(&ci.ops[1+i])
		}
		fr.regs[ci.dst] = &Closure{fn: fn, env: env}
	case *ssa.Select:
		cases := make([]selCase, len(ins.States))
		for i, st := range ins.States {
			c, _ := fr.get(&ci.ops[2*i]).(*ChanV)
			cases[i] = selCase{c: c, send: st.Dir == types.SendOnly}
			if cases[i].send {
				cases[i].v = fr.get(&ci.ops[2*i+1])
			}
		}
		idx, v, ok := g.selectOp(cases, ins.Blocking, "select")
		res := tupleV{kint(idx), kbool(ok)}
		for i, st := range ins.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					res = append(res, v)
				} else {
					res = append(res, zeroOf(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.regs[ci.dst] = res
	default:
		unsup("instruction %T", ins)
	}
	return -2
}

func (g *G) makeChan(elem types.Type, n int) *ChanV {
	k, _ := g.p.extra["nchan"].(int)
	g.p.extra["nchan"] = k + 1
	return &ChanV{id: k, cap: n, elem: elem}
}

// index bounds-checks and concretizes an index.
func (g *G) index(i *Term, t types.Type, n int) int {
	p := g.p
	if i.w != 64 {
		i = p.tt.Resize(i, 64, isSigned(t))
	}
	if i.isConst() {
		k := int64(i.val)
		if k < 0 || k >= int64(n) {
			g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	}
	if !p.branch(p.tt.Cmp(OpUlt, i, kint(n))) {
		g.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return int(p.concretize(i))
}

// indexVal reads at a possibly symbolic index; terms become an ite chain.
func (g *G) indexVal(n int, at func(int) Value, i *Term, t types.Type) Value {
	p := g.p
	if i.w != 64 {
		i = p.tt.Resize(i, 64, isSigned(t))
	}
	if i.isConst() || n > 300 || n == 0 {
		return at(g.index(i, t, n))
	}
	if _, ok := at(0).(*Term); !ok {
		return at(g.index(i, t, n))
	}
	if !p.branch(p.tt.Cmp(OpUlt, i, kint(n))) {
		g.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	r := at(n - 1).(*Term)
	for k := n - 2; k >= 0; k-- {
		r = p.tt.Ite(p.tt.Eq(i, kint(k)), at(k).(*Term), r)
	}
	return r
}

func (fr *frame) slice(ins *ssa.Slice, ci *cinstr) Value {
	g := fr.g
	x := fr.get(&ci.ops[0])
	geti := func(k int) (int, bool) {
		if ci.ops[k].k == opNone {
			return 0, false
		}
		t := fr.get(&ci.ops[k]).(*Term)
		var ty types.Type
		switch k {
		case 1:
			ty = ins.Low.Type()
		case 2:
			ty = ins.High.Type()
		case 3:
			ty = ins.Max.Type()
		}
		if t.w != 64 {
			t = g.p.tt.Resize(t, 64, isSigned(ty))
		}
		return int(int64(g.p.concretize(t))), true
	}
	lo, _ := geti(1)
	hi, hasHi := geti(2)
	max, hasMax := geti(3)
	bad := func(a, b int) {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", a, b))
	}
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		if !hasHi {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			bad(lo, hi)
		}
		return strSlice(x, lo, hi)
	case sliceV:
		c := cap(x)
		if !hasHi {
			hi = len(x)
		}
		if !hasMax {
			max = c
		}
		if lo < 0 || hi < lo || max < hi || max > c {
			bad(lo, hi)
		}
		if x == nil {
			return sliceV(nil)
		}
		return x[lo:hi:max]
	case *Value:
		a := (*g.deref(x)).(arrayV)
		c := len(a)
		if !hasHi {
			hi = c
		}
		if !hasMax {
			max = c
		}
		if lo < 0 || hi < lo || max < hi || max > c {
			bad(lo, hi)
		}
		return sliceV(a[lo:hi:max])
	}
	unsup("slice of %T", x)
	return nil
}

// prepare evaluates callee and arguments.
func (fr *frame) prepare(c *ssa.CallCommon, ci *cinstr) (*Closure, []Value) {
	g := fr.g
	nops := len(c.Args)
	args := make([]Value, 0, nops+1)
	fv := fr.get(&ci.ops[0])
	if c.Method == nil {
		for i := 0; i < nops; i++ {
			args = append(args, fr.get(&ci.ops[1+i]))
		}
		switch f := fv.(type) {
		case *Closure:
			return f, args
		case *ssa.Builtin:
			return &Closure{name: f.Name(), native: builtinFn(f, c, fr)}, args
		}
		unsup("call of %T", fv)
	}
	recv := fv.(Iface)
	if recv.t == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if n, ok := recv.v.(*Native); ok {
		if cl := nativeMethod(g, n, c.Method.Name()); cl != nil {
			for i := 0; i < nops; i++ {
				args = append(args, fr.get(&ci.ops[1+i]))
			}
			return cl, args
		}
	}
	fn := g.p.w.e.P.method(recv.t, c.Method)
	if fn == nil {
		unsup("no method %v on %v", c.Method, recv.t)
	}
	args = append(args, recv.v)
	for i := 0; i < nops; i++ {
		args = append(args, fr.get(&ci.ops[1+i]))
	}
	return &Closure{fn: fn}, args
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f != nil {
		P.methods.Store(k, f)
	}
	return f
}

func (P *Program) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (g *G) callPrepared(fn *Closure, args []Value, ins *ssa.Call) Value {
	if fn == nil {
		g.rtPanic("invalid memory address or nil pointer dereference")
	}
	if fn.native != nil {
		return fn.native(g, args)
	}
	return g.call(fn.fn, args, fn.env)
}

type implKey struct {
	t types.Type
	i types.Type
}

func (P *Program) implements(t types.Type, it types.Type) bool {
	k := implKey{t, it}
	if v, ok := P.implTab.Load(k); ok {
		return v.(bool)
	}
	ok := types.Implements(t, it.Underlying().(*types.Interface))
	P.implTab.Store(k, ok)
	return ok
}

func (g *G) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	P := g.p.w.e.P
	var ok bool
	var v Value
	if _, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.t != nil && P.implements(x.t, ins.AssertedType)
		if ok {
			v = x
		}
	} else {
		ok = x.t != nil && (x.t == ins.AssertedType || types.Identical(x.t, ins.AssertedType))
		if ok {
			v = copyVal(x.v)
		}
	}
	if ins.CommaOk {
		if !ok {
			v = zeroOf(ins.AssertedType)
		}
		return tupleV{v, kbool(ok)}
	}
	if !ok {
		ts := "nil"
		if x.t != nil {
			ts = x.t.String()
		}
		g.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, ins.AssertedType))
	}
	return v
}

// ---- iteration ----

type iter interface{ next(g *G) Value }

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(g *G) Value {
	n := strLen(it.s)
	if it.i >= n {
		return tupleV{gFalse, kint(it.i), kconst(32, 0)}
	}
	r, sz := g.decodeRune(it.s, it.i)
	res := tupleV{gTrue, kint(it.i), r}
	it.i += sz
	return res
}

// decodeRune decodes at i; symbolic bytes are split into ASCII and not.
func (g *G) decodeRune(s Value, i int) (*Term, int) {
	if cs, ok := s.(string); ok {
		for j, r := range cs[i:] {
			_ = j
			sz := len(string(r))
			if r == 0xFFFD {
				// either a real U+FFFD or an invalid byte
				if !strings.HasPrefix(cs[i:], "\uFFFD") {
					sz = 1
				}
			}
			return kconst(32, uint64(r)), sz
		}
	}
	b := s.(*SymStr).b
	if b[i].isConst() && b[i].val >= 0x80 {
		// gather constant bytes
		var bs []byte
		for j := i; j < len(b) && j < i+4 && b[j].isConst(); j++ {
			bs = append(bs, byte(b[j].val))
		}
		return g.decodeRune(string(bs), 0)
	}
	if g.p.branch(g.p.tt.Cmp(OpUlt, b[i], gBytes[0x80])) {
		return g.p.tt.Resize(b[i], 32, false), 1
	}
	unsup("non-ASCII symbolic byte in rune decoding")
	return nil, 0
}

type mapIter struct {
	m     *MapV
	left  []*mapEntry
	mode  int // 0 forward, 1 choose all, 2 reverse
	kt    types.Type
	et    types.Type
	began bool
}

func (it *mapIter) next(g *G) Value {
	if it.m != nil && g.p.sched.conc {
		g.p.sched.accessLeaf(g, &it.m.cell, false)
	}
	for len(it.left) > 0 {
		live := it.left[:0:0]
		for _, e := range it.left {
			if !e.deleted {
				live = append(live, e)
			}
		}
		it.left = live
		if len(live) == 0 {
			break
		}
		i := 0
		switch it.mode {
		case 1:
			i = g.p.chooseSym("maporder", len(live))
		case 2:
			i = len(live) - 1
		}
		e := live[i]
		it.left = append(append([]*mapEntry(nil), live[:i]...), live[i+1:]...)
		return tupleV{gTrue, e.k, copyVal(e.v)}
	}
	return tupleV{gFalse, zeroOf(it.kt), zeroOf(it.et)}
}

func (g *G) rangeIter(x Value, t types.Type) Value {
	switch x := x.(type) {
	case string, *SymStr:
		return &strIter{s: x}
	case *MapV:
		mt := t.Underlying().(*types.Map)
		it := &mapIter{m: x, kt: mt.Key(), et: mt.Elem()}
		if x != nil {
			it.left = append([]*mapEntry(nil), x.entries...)
		}
		if (g.fr.info.module && !g.fr.info.harness || g.fr.info.maps) && len(it.left) > 1 {
			switch mo := g.p.w.e.cfg.mapOrder; {
			case mo == "all" && len(it.left) <= 3:
				it.mode = 1
			case mo == "none":
			default:
				it.mode = 2 * g.p.chooseSym("maporder", 2)
			}
		}
		return it
	}
	unsup("range over %T", x)
	return nil
}
