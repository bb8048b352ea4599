package main

import (
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (g *G) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	p := g.p
	tt := p.tt
	switch op {
	case token.EQL:
		return g.eql(t, ty, x, y)
	case token.NEQ:
		return tt.Not(g.eql(t, ty, x, y))
	}
	switch a := x.(type) {
	case string, *SymStr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return tt.Not(p.strLess(y, x))
		case token.GEQ:
			return tt.Not(p.strLess(x, y))
		}
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			unsup("binop %v on %T", op, y)
		}
		if isFloat(t) {
			switch op {
			case token.ADD:
				return p.floatBin("+", a, b)
			case token.SUB:
				return p.floatBin("-", a, b)
			case token.MUL:
				return p.floatBin("*", a, b)
			case token.QUO:
				return p.floatBin("/", a, b)
			case token.LSS:
				return p.floatCmp("<", a, b)
			case token.LEQ:
				return p.floatCmp("<=", a, b)
			case token.GTR:
				return p.floatCmp("<", b, a)
			case token.GEQ:
				return p.floatCmp("<=", b, a)
			}
		}
		signed := isSigned(t)
		switch op {
		case token.SHL, token.SHR:
			if isSigned(ty) {
				if p.branch(tt.Cmp(OpSlt, b, kconst(b.w, 0))) {
					g.rtPanic("negative shift amount")
				}
			}
			if b.w < a.w {
				b = tt.Resize(b, a.w, false)
			} else if b.w > a.w {
				// saturate
				big := tt.Cmp(OpUlt, kconst(b.w, uint64(a.w)), b)
				b = tt.Ite(big, kconst(a.w, uint64(a.w)), tt.Resize(b, a.w, false))
			}
			switch {
			case op == token.SHL:
				return tt.Bin(OpShl, a, b)
			case signed:
				return tt.Bin(OpAShr, a, b)
			default:
				return tt.Bin(OpLShr, a, b)
			}
		}
		switch op {
		case token.ADD:
			return tt.Bin(OpAdd, a, b)
		case token.SUB:
			return tt.Bin(OpSub, a, b)
		case token.MUL:
			return tt.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if p.branch(tt.Eq(b, kconst(b.w, 0))) {
				g.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return tt.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return tt.Bin(OpUDiv, a, b)
			case signed:
				return tt.Bin(OpSRem, a, b)
			default:
				return tt.Bin(OpURem, a, b)
			}
		case token.AND:
			return tt.Bin(OpBAnd, a, b)
		case token.OR:
			return tt.Bin(OpBOr, a, b)
		case token.XOR:
			return tt.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return tt.Bin(OpBAnd, a, tt.BNot(b))
		case token.LSS:
			if signed {
				return tt.Cmp(OpSlt, a, b)
			}
			return tt.Cmp(OpUlt, a, b)
		case token.LEQ:
			if signed {
				return tt.Cmp(OpSle, a, b)
			}
			return tt.Cmp(OpUle, a, b)
		case token.GTR:
			if signed {
				return tt.Cmp(OpSlt, b, a)
			}
			return tt.Cmp(OpUlt, b, a)
		case token.GEQ:
			if signed {
				return tt.Cmp(OpSle, b, a)
			}
			return tt.Cmp(OpUle, b, a)
		}
	}
	unsup("binop %v on %T", op, x)
	return nil
}

func (g *G) eql(t, ty types.Type, x, y Value) *Term {
	if xi, ok := x.(Iface); ok {
		if yi, ok := y.(Iface); ok {
			return g.p.ifaceEq(xi, yi)
		}
		return g.p.ifaceEq(xi, Iface{ty, y})
	}
	if yi, ok := y.(Iface); ok {
		return g.p.ifaceEq(Iface{t, x}, yi)
	}
	switch x.(type) {
	case sliceData, strData:
		return gFalse
	}
	return g.p.valEq(t, x, y)
}

func (g *G) convert(from, to types.Type, v Value) Value {
	p := g.p
	fu, tu := from.Underlying(), to.Underlying()
	switch tu := tu.(type) {
	case *types.Pointer:
		return v
	case *types.Slice:
		if isString(from) {
			et := tu.Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Uint8 {
				return strToBytes(v)
			}
			var out sliceV = sliceV{}
			n := strLen(v)
			for i := 0; i < n; {
				r, sz := g.decodeRune(v, i)
				out = append(out, r)
				i += sz
			}
			return out
		}
		return v
	case *types.Basic:
		if tu.Kind() == types.UnsafePointer {
			return v
		}
		if tu.Info()&types.IsString != 0 {
			switch fb := fu.(type) {
			case *types.Slice:
				s := v.(sliceV)
				if p.sched.conc {
					for i := range s {
						p.sched.accessLeaf(g, &s[i], false)
					}
				}
				if eb, ok := fb.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
					return bytesToStr(s)
				}
				var out Value = ""
				for _, e := range s {
					out = strConcat(out, g.runeStr(e.(*Term)))
				}
				return out
			case *types.Basic:
				if fb.Info()&types.IsString != 0 {
					return v
				}
				t := v.(*Term)
				if !t.isConst() {
					return g.runeStr(p.tt.Resize(t, 32, true))
				}
				return string(rune(sext(t.val, t.w)))
			}
			return v
		}
		fb, ok := fu.(*types.Basic)
		if !ok {
			unsup("convert %v to %v", from, to)
		}
		if fb.Kind() == types.UnsafePointer {
			if pv, ok := v.(*Value); ok && pv == nil {
				return kconst(64, 0)
			}
			unsup("pointer to uintptr")
		}
		t, ok := v.(*Term)
		if !ok {
			unsup("convert %T to %v", v, to)
		}
		w, sgn := basicWidth(tu)
		if w == 255 {
			unsup("convert to %v", to)
		}
		ff, tf := fb.Info()&types.IsFloat != 0, tu.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			if t.isConst() {
				return fterm(w, fval(t))
			}
			if t.w == w {
				return t
			}
			return p.tt.UF("f2f", w, t)
		case ff:
			if t.isConst() {
				f := fval(t)
				if sgn {
					return kconst(w, uint64(int64(f)))
				}
				return kconst(w, uint64(f))
			}
			// the way back is exact up to 2^53
			if t.op == OpUF && t.w == 64 && t.name == "i2f" && sgn && w == t.a[0].w {
				x := t.a[0]
				if w < 54 || p.branch(p.tt.And(p.tt.Cmp(OpSlt, x, kconst(w, 1<<53)), p.tt.Cmp(OpSlt, kconst(w, ^uint64(1<<53)), x))) {
					return x
				}
			}
			return p.tt.UF("f2i", w, t)
		case tf:
			if t.isConst() {
				if isSigned(from) {
					return fterm(w, float64(sext(t.val, t.w)))
				}
				return fterm(w, float64(t.val))
			}
			if isSigned(from) {
				return p.tt.UF("i2f", w, t)
			}
			return p.tt.UF("u2f", w, t)
		}
		return p.tt.Resize(t, w, isSigned(from))
	}
	return v
}

func (g *G) runeStr(t *Term) Value {
	if t.isConst() {
		return string(rune(sext(t.val, 32)))
	}
	if g.p.branch(g.p.tt.Cmp(OpUlt, t, kconst(32, utf8.RuneSelf))) {
		return mkStr([]*Term{g.p.tt.Resize(t, 8, false)})
	}
	unsup("string of symbolic non-ASCII rune")
	return nil
}

// ---- append growth, as runtime.growslice ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, newLen int, esize int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if esize == 0 {
		return newLen
	}
	return roundupsize(newcap*esize) / esize
}

func (g *G) appendVals(et types.Type, s sliceV, add []Value) sliceV {
	if len(add) == 0 {
		return s
	}
	conc := g.p.sched.conc
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			slot := &r[len(s)+i]
			if conc {
				g.p.sched.access(g, slot, true)
			}
			storeInto(slot, v)
		}
		return r
	}
	c := growCap(cap(s), n, int(stdSizes.Sizeof(et)))
	if c < n {
		c = n
	}
	r := make(sliceV, c)
	for i := range s {
		if conc {
			g.p.sched.access(g, &s[i], false)
		}
		r[i] = copyVal(s[i])
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	for i := n; i < c; i++ {
		r[i] = zeroOf(et)
	}
	return r[:n]
}

func builtinFn(b *ssa.Builtin, c *ssa.CallCommon, fr *frame) func(g *G, args []Value) Value {
	name := b.Name()
	return func(g *G, args []Value) Value {
		p := g.p
		switch name {
		case "append":
			st := c.Args[0].Type().Underlying().(*types.Slice)
			s := args[0].(sliceV)
			if len(args) == 1 {
				return s
			}
			switch a := args[1].(type) {
			case sliceV:
				if p.sched.conc {
					for i := range a {
						p.sched.access(g, &a[i], false)
					}
				}
				return g.appendVals(st.Elem(), s, a)
			case string, *SymStr:
				return g.appendVals(st.Elem(), s, strToBytes(a))
			}
		case "copy":
			d := args[0].(sliceV)
			var src sliceV
			switch a := args[1].(type) {
			case sliceV:
				src = a
			default:
				src = strToBytes(a)
			}
			n := len(d)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				if p.sched.conc {
					p.sched.access(g, &src[i], false)
				}
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				g.store(&d[i], tmp[i])
			}
			return kint(n)
		case "len":
			switch a := args[0].(type) {
			case string, *SymStr:
				return kint(strLen(a))
			case sliceV:
				return kint(len(a))
			case arrayV:
				return kint(len(a))
			case *Value:
				if a == nil {
					return kint(int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
				}
				return kint(len((*a).(arrayV)))
			case *MapV:
				if a == nil {
					return kint(0)
				}
				if p.sched.conc {
					p.sched.accessLeaf(g, &a.cell, false)
				}
				return kint(a.n)
			case *ChanV:
				if a == nil {
					return kint(0)
				}
				return kint(len(a.buf))
			}
		case "cap":
			switch a := args[0].(type) {
			case sliceV:
				return kint(cap(a))
			case arrayV:
				return kint(len(a))
			case *Value:
				return kint(len((*a).(arrayV)))
			case *ChanV:
				if a == nil {
					return kint(0)
				}
				return kint(a.cap)
			}
		case "close":
			g.closeChan(args[0].(*ChanV))
			return nil
		case "delete":
			m := args[0].(*MapV)
			if m == nil {
				return nil
			}
			if p.sched.conc {
				p.sched.accessLeaf(g, &m.cell, true)
			}
			p.mapDelete(m, c.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
			return nil
		case "clear":
			switch a := args[0].(type) {
			case *MapV:
				if a != nil {
					if p.sched.conc {
						p.sched.accessLeaf(g, &a.cell, true)
					}
					for _, e := range a.entries {
						e.deleted = true
					}
					a.entries, a.idx, a.n, a.nsym = nil, map[any]*mapEntry{}, 0, 0
				}
			case sliceV:
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range a {
					g.store(&a[i], zeroOf(et))
				}
			}
			return nil
		case "print", "println":
			return nil
		case "min", "max":
			r := args[0]
			for _, a := range args[1:] {
				t := c.Args[0].Type()
				var less *Term
				if name == "min" {
					less = g.binop(token.LSS, t, t, a, r).(*Term)
				} else {
					less = g.binop(token.LSS, t, t, r, a).(*Term)
				}
				if rt, ok := r.(*Term); ok && !isFloat(t) {
					r = p.tt.Ite(less, a.(*Term), rt)
				} else if p.branch(less) {
					r = a
				}
			}
			return r
		case "recover":
			f := fr.caller
			if f != nil && f.panicking {
				f.panicking = false
				v := f.panic.v
				if iv, ok := v.(Iface); ok {
					return iv
				}
				return Iface{}
			}
			return Iface{}
		case "ssa:wrapnilchk":
			if pv, ok := args[0].(*Value); ok && pv == nil {
				g.rtPanic("value method called using nil pointer")
			}
			return args[0]
		case "ssa:deferstack":
			return &Native{kind: "deferstack", x: fr}
		case "String": // unsafe.String
			n := int(args[1].(*Term).val)
			switch a := args[0].(type) {
			case sliceData:
				return bytesToStr(a.s[:n])
			case strData:
				return strSlice(a.s, 0, n)
			case *Value:
				if n == 0 {
					return ""
				}
			}
		case "StringData":
			return strData{args[0]}
		case "SliceData":
			return sliceData{args[0].(sliceV)}
		case "Slice":
			n := int(args[1].(*Term).val)
			switch a := args[0].(type) {
			case sliceData:
				return a.s[:n]
			case strData:
				return strToBytes(a.s)[:n]
			case *Value:
				if a == nil && n == 0 {
					return sliceV(nil)
				}
			}
		case "real", "imag", "complex":
			unsup("complex numbers")
		}
		unsup("builtin %s on %T", name, args[0])
		return nil
	}
}

var _ = math.MaxInt64
