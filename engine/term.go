package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean DAG. Width 0 means Bool.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpExtract // low bits only: extract (w-1..0)
	OpZext
	OpSext
	OpUF // uninterpreted function, name + args
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle",
}

type Term struct {
	op   Op
	w    uint8
	val  uint64
	name string
	a    [3]*Term
	n    uint8
	id   int
	sgn  bool // printing hint for variables
}

type termKey struct {
	op   Op
	w    uint8
	val  uint64
	name string
	a    [3]*Term
}

type Terms struct {
	tab    map[termKey]*Term
	consts map[ckey]*Term
	nextID int
	tru    *Term
	fls    *Term
}

func NewTerms() *Terms {
	return &Terms{tab: map[termKey]*Term{}, consts: map[ckey]*Term{}, tru: gTrue, fls: gFalse}
}

var (
	gTrue, gFalse *Term
	gBytes        [256]*Term
	gInts         [1024]*Term
)

func init() {
	gTrue = &Term{op: OpConst, w: 0, val: 1, id: -1}
	gFalse = &Term{op: OpConst, w: 0, val: 0, id: -2}
	for i := range gBytes {
		gBytes[i] = &Term{op: OpConst, w: 8, val: uint64(i), id: -1}
	}
	for i := range gInts {
		gInts[i] = &Term{op: OpConst, w: 64, val: uint64(i), id: -1}
	}
}

// kconst makes a constant. Constants are not hash-consed (they are created by
// every concrete operation); they are interned when they become an operand.
func kconst(w uint8, v uint64) *Term {
	v &= mask(w)
	switch {
	case w == 64 && v < uint64(len(gInts)):
		return gInts[v]
	case w == 8:
		return gBytes[v]
	case w == 0:
		if v != 0 {
			return gTrue
		}
		return gFalse
	}
	return &Term{op: OpConst, w: w, val: v, id: -1}
}

func kint(i int) *Term { return kconst(64, uint64(int64(i))) }
func kbool(b bool) *Term {
	if b {
		return gTrue
	}
	return gFalse
}

type ckey struct {
	w uint8
	v uint64
}

// ic interns a constant operand.
func (tt *Terms) ic(t *Term) *Term {
	if t == nil || t.op != OpConst || t.w == 8 || t.w == 0 || (t.w == 64 && t.val < uint64(len(gInts))) {
		return t
	}
	k := ckey{t.w, t.val}
	if u, ok := tt.consts[k]; ok {
		return u
	}
	tt.consts[k] = t
	return t
}

func same(a, b *Term) bool {
	return a == b || (a.op == OpConst && b.op == OpConst && a.w == b.w && a.val == b.val)
}

func (tt *Terms) mk(op Op, w uint8, val uint64, name string, a, b, c *Term) *Term {
	a, b, c = tt.ic(a), tt.ic(b), tt.ic(c)
	k := termKey{op, w, val, name, [3]*Term{a, b, c}}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, a: k.a, id: tt.nextID}
	if a != nil {
		t.n++
	}
	if b != nil {
		t.n++
	}
	if c != nil {
		t.n++
	}
	tt.nextID++
	tt.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func (tt *Terms) Const(w uint8, v uint64) *Term { return kconst(w, v) }
func (tt *Terms) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}
func (tt *Terms) Int(i int) *Term       { return tt.Const(64, uint64(int64(i))) }
func (tt *Terms) Float(f float64) *Term { return tt.Const(64, math.Float64bits(f)) }
func (tt *Terms) Var(name string, w uint8) *Term {
	return tt.mk(OpVar, w, 0, name, nil, nil, nil)
}
func (tt *Terms) UF(name string, w uint8, args ...*Term) *Term {
	var a [3]*Term
	copy(a[:], args)
	return tt.mk(OpUF, w, 0, name, a[0], a[1], a[2])
}

func (tt *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return tt.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return tt.mk(OpNot, 0, 0, "", a, nil, nil)
}
func (tt *Terms) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return tt.fls
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpAnd, 0, 0, "", a, b, nil)
}
func (tt *Terms) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return tt.tru
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpOr, 0, 0, "", a, b, nil)
}

func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d vs %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tt.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 64 {
		if r := tt.cmpWindow(OpEq, a, b); r != nil {
			return r
		}
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				x, y := same(a.a[1], b), same(a.a[2], b)
				switch {
				case x && y:
					return tt.tru
				case x:
					return a.a[0]
				case y:
					return tt.Not(a.a[0])
				default:
					return tt.fls
				}
			}
		case OpZext:
			in := a.a[0]
			if b.val > mask(in.w) {
				return tt.fls
			}
			return tt.Eq(in, tt.Const(in.w, b.val))
		case OpAdd:
			if a.a[1].isConst() {
				return tt.Eq(a.a[0], tt.Const(a.w, b.val-a.a[1].val))
			}
		}
		return tt.mk(OpEq, 0, 0, "", a, b, nil)
	}
	// x + c1 == x + c2
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb {
		return tt.Bool(ca == cb)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, "", a, b, nil)
}

func splitAdd(a *Term) (*Term, uint64) {
	if a.op == OpAdd && a.a[1].isConst() {
		return a.a[0], a.a[1].val
	}
	return a, 0
}

func (tt *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return tt.Not(c)
		}
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
	}
	return tt.mk(OpIte, a.w, 0, "", c, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return m, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		s := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func (tt *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width %d vs %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		v, ok := foldBin(op, w, a.val, b.val)
		if ok {
			return tt.Const(w, v)
		}
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return tt.Bin(OpAdd, a.a[0], tt.Const(w, a.a[1].val+b.val))
			}
			return tt.mk(OpAdd, w, 0, "", a, b, nil)
		}
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ca != 0 || cb != 0 {
			return tt.Bin(OpAdd, tt.Bin(OpAdd, ba, bb), tt.Const(w, ca+cb))
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if w == 64 {
			if r := tt.subWindow(a, b); r != nil {
				return r
			}
		}
		if b.isConst() {
			return tt.Bin(OpAdd, a, tt.Const(w, -b.val))
		}
		if a == b {
			return tt.Const(w, 0)
		}
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb {
			return tt.Const(w, ca-cb)
		}
		// (x + y) - x
		if a.op == OpAdd && a.a[0] == b {
			return a.a[1]
		}
		if a.op == OpAdd && a.a[1] == b {
			return a.a[0]
		}
		if ca != 0 || cb != 0 {
			return tt.Bin(OpAdd, tt.mk(OpSub, w, 0, "", ba, bb, nil), tt.Const(w, ca-cb))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if a == b {
			return tt.Const(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OpUDiv, OpSDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
	}
	return tt.mk(op, w, 0, "", a, b, nil)
}

func (tt *Terms) Neg(a *Term) *Term { return tt.Bin(OpSub, tt.Const(a.w, 0), a) }
func (tt *Terms) BNot(a *Term) *Term {
	if a.isConst() {
		return tt.Const(a.w, ^a.val)
	}
	return tt.mk(OpBNot, a.w, 0, "", a, nil, nil)
}

func (tt *Terms) Cmp(op Op, a, b *Term) *Term { // Ult Ule Slt Sle
	if a.w != b.w {
		panic(fmt.Sprintf("Cmp width %d vs %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OpUlt:
			return tt.Bool(a.val < b.val)
		case OpUle:
			return tt.Bool(a.val <= b.val)
		case OpSlt:
			return tt.Bool(sext(a.val, a.w) < sext(b.val, b.w))
		case OpSle:
			return tt.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
		}
	}
	if a == b {
		return tt.Bool(op == OpUle || op == OpSle)
	}
	// normalise le to not lt
	switch op {
	case OpUle:
		return tt.Not(tt.Cmp(OpUlt, b, a))
	case OpSle:
		return tt.Not(tt.Cmp(OpSlt, b, a))
	}
	if a.w == 64 {
		if r := tt.cmpWindow(op, a, b); r != nil {
			return r
		}
	}
	if op == OpUlt {
		if b.isConst() && b.val == 0 {
			return tt.fls
		}
		if a.isConst() && a.val == mask(a.w) {
			return tt.fls
		}
		if a.op == OpZext && b.isConst() && b.val > mask(a.a[0].w) {
			return tt.tru
		}
	}
	if op == OpSlt {
		if a.op == OpZext && b.isConst() && a.w > a.a[0].w {
			if sb := sext(b.val, b.w); sb <= 0 {
				return tt.fls
			} else if uint64(sb) > mask(a.a[0].w) {
				return tt.tru
			}
		}
		if b.op == OpZext && a.isConst() && b.w > b.a[0].w {
			if sa := sext(a.val, a.w); sa < 0 {
				return tt.tru
			} else if uint64(sa) >= mask(b.a[0].w) {
				return tt.fls
			}
		}
	}
	return tt.mk(op, 0, 0, "", a, b, nil)
}

func (tt *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return tt.Const(w, uint64(sext(a.val, a.w)))
		}
		return tt.Const(w, a.val)
	}
	if w < a.w {
		if (a.op == OpZext || a.op == OpSext) && a.a[0].w >= w {
			return tt.Resize(a.a[0], w, false)
		}
		return tt.mk(OpExtract, w, 0, "", a, nil, nil)
	}
	if signed && a.op == OpZext && a.w > a.a[0].w {
		signed = false
	}
	if signed {
		return tt.mk(OpSext, w, 0, "", a, nil, nil)
	}
	if a.op == OpZext {
		return tt.mk(OpZext, w, 0, "", a.a[0], nil, nil)
	}
	return tt.mk(OpZext, w, 0, "", a, nil, nil)
}

// ---- evaluation under a model ----

type Model map[*Term]uint64

func evalTerm(t *Term, m Model, memo map[*Term]uint64) (uint64, bool) {
	if t.op == OpConst {
		return t.val, true
	}
	if t.op == OpVar {
		v, ok := m[t]
		return v, ok
	}
	if v, ok := memo[t]; ok {
		return v, true
	}
	if t.op == OpUF {
		return 0, false
	}
	if t.op == OpIte {
		c, ok := evalTerm(t.a[0], m, memo)
		if !ok {
			return 0, false
		}
		var v uint64
		if c != 0 {
			v, ok = evalTerm(t.a[1], m, memo)
		} else {
			v, ok = evalTerm(t.a[2], m, memo)
		}
		if ok {
			memo[t] = v
		}
		return v, ok
	}
	var x, y uint64
	var ok bool
	if x, ok = evalTerm(t.a[0], m, memo); !ok {
		return 0, false
	}
	if t.n > 1 {
		if y, ok = evalTerm(t.a[1], m, memo); !ok {
			return 0, false
		}
	}
	var v uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	aw := t.a[0].w
	switch t.op {
	case OpNot:
		v = x ^ 1
	case OpAnd:
		v = x & y
	case OpOr:
		v = x | y
	case OpEq:
		v = b2u(x == y)
	case OpBNot:
		v = ^x & mask(t.w)
	case OpNeg:
		v = -x & mask(t.w)
	case OpUlt:
		v = b2u(x < y)
	case OpUle:
		v = b2u(x <= y)
	case OpSlt:
		v = b2u(sext(x, aw) < sext(y, aw))
	case OpSle:
		v = b2u(sext(x, aw) <= sext(y, aw))
	case OpExtract:
		v = x & mask(t.w)
	case OpZext:
		v = x
	case OpSext:
		v = uint64(sext(x, aw)) & mask(t.w)
	default:
		v, ok = foldBin(t.op, t.w, x, y)
		if !ok {
			return 0, false
		}
	}
	memo[t] = v
	return v, true
}

// ---- printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.w), t.val)
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return constStr(t)
		}
		return fmt.Sprint(sext(t.val, t.w))
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	n := opNames[t.op]
	if t.op == OpUF {
		n = t.name
	} else if n == "" {
		n = fmt.Sprintf("ext%d", t.w)
	}
	sb.WriteString("(" + n)
	for i := 0; i < int(t.n); i++ {
		sb.WriteString(" " + t.a[i].str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

func bitsLen(x uint64) int { return bits.Len64(x) }

// ---- windows: a constant with its low bits replaced by a narrow variable ----

// Window is c with its low k bits given by x (of width k); c's low bits are zero.
func (tt *Terms) Window(x *Term, c uint64) *Term {
	z := tt.Resize(x, 64, false)
	if c == 0 {
		return z
	}
	return tt.Bin(OpBOr, z, tt.Const(64, c))
}

func window(t *Term) (x *Term, c uint64, ok bool) {
	if t.w != 64 {
		return nil, 0, false
	}
	if t.op == OpBOr && t.a[1].isConst() {
		c = t.a[1].val
		t = t.a[0]
	}
	if t.op != OpZext || t.a[0].w >= 63 || c&mask(t.a[0].w) != 0 || c>>63 != 0 {
		return nil, 0, false
	}
	return t.a[0], c, true
}

// cmpWindow narrows a comparison (Ult, Slt or Eq) of windows and constants.
func (tt *Terms) cmpWindow(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return nil
	}
	x, ca, ok := window(a)
	y, cb, ok2 := window(b)
	lt := func(p, q uint64) bool {
		if op == OpSlt {
			return int64(p) < int64(q)
		}
		return p < q
	}
	decide := func(hiA, hiB uint64) *Term { // high parts differ
		if op == OpEq {
			return tt.fls
		}
		return tt.Bool(lt(hiA, hiB))
	}
	inner := func(p, q *Term) *Term {
		if op == OpEq {
			return tt.Eq(p, q)
		}
		return tt.Cmp(OpUlt, p, q)
	}
	switch {
	case ok && ok2 && x.w == y.w:
		if ca != cb {
			return decide(ca, cb)
		}
		return inner(x, y)
	case ok && b.isConst():
		m := mask(x.w)
		if b.val&^m != ca {
			return decide(ca, b.val&^m)
		}
		return inner(x, tt.Const(x.w, b.val&m))
	case ok2 && a.isConst():
		m := mask(y.w)
		if a.val&^m != cb {
			return decide(a.val&^m, cb)
		}
		return inner(tt.Const(y.w, a.val&m), y)
	}
	// sign-extended differences of windows
	if op == OpSlt || op == OpEq {
		sx, okx := sextOf(a)
		sy, oky := sextOf(b)
		var x1, y1, x2, y2 *Term
		if okx {
			x1, y1 = tt.diffOf(sx)
		}
		if oky {
			x2, y2 = tt.diffOf(sy)
		}
		switch {
		case x1 != nil && x2 != nil && y1 == y2: // x1-y < x2-y
			return inner(x1, x2)
		case x1 != nil && x2 != nil && x1 == x2: // x-y1 < x-y2
			return inner(y2, y1)
		case x1 != nil && b.isConst() && b.val == 0:
			return inner(x1, y1)
		case x2 != nil && a.isConst() && a.val == 0:
			return inner(y2, x2)
		case okx && oky && sx.w == sy.w:
			if op == OpEq {
				return tt.Eq(sx, sy)
			}
			return tt.Cmp(op, sx, sy)
		case okx && b.isConst():
			v, half := int64(b.val), int64(1)<<(sx.w-1)
			if v >= half {
				return tt.Bool(op == OpSlt)
			}
			if v < -half {
				return tt.fls
			}
			k := tt.Const(sx.w, b.val&mask(sx.w))
			if op == OpEq {
				return tt.Eq(sx, k)
			}
			return tt.Cmp(op, sx, k)
		case oky && a.isConst():
			v, half := int64(a.val), int64(1)<<(sy.w-1)
			if v >= half {
				return tt.fls
			}
			if v < -half {
				return tt.Bool(op == OpSlt)
			}
			k := tt.Const(sy.w, a.val&mask(sy.w))
			if op == OpEq {
				return tt.Eq(k, sy)
			}
			return tt.Cmp(op, k, sy)
		}
	}
	return nil
}

// diffOf splits a difference of two values one bit narrower than itself, which
// cannot overflow.
func (tt *Terms) diffOf(t *Term) (x, y *Term) {
	if t.op != OpSub {
		return nil, nil
	}
	part := func(u *Term) *Term {
		switch {
		case u.op == OpZext && u.a[0].w == t.w-1:
			return u.a[0]
		case u.isConst() && u.val <= mask(t.w-1):
			return tt.Const(t.w-1, u.val)
		}
		return nil
	}
	x, y = part(t.a[0]), part(t.a[1])
	if x == nil || y == nil {
		return nil, nil
	}
	return x, y
}

func sextOf(t *Term) (*Term, bool) {
	if t.w == 64 && t.op == OpSext && t.a[0].w < 62 {
		return t.a[0], true
	}
	return nil, false
}

// subWindow narrows the difference of two windows over the same constant.
func (tt *Terms) subWindow(a, b *Term) *Term {
	part := func(t *Term, w uint8, c uint64) *Term {
		if t.isConst() && t.val&^mask(w) == c {
			return tt.Const(w, t.val&mask(w))
		}
		return nil
	}
	x, ca, ok := window(a)
	y, cb, ok2 := window(b)
	switch {
	case ok && ok2 && ca == cb && x.w == y.w:
	case ok && !ok2:
		y = part(b, x.w, ca)
	case ok2 && !ok:
		x = part(a, y.w, cb)
	default:
		return nil
	}
	if x == nil || y == nil || a.isConst() && b.isConst() {
		return nil
	}
	w := x.w + 1
	return tt.Resize(tt.mk(OpSub, w, 0, "", tt.Resize(x, w, false), tt.Resize(y, w, false), nil), 64, true)
}
