package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term               bool, integer, float (bit pattern)
//	string, *SymStr     string
//	*Value              pointer (nil = nil pointer)
//	structV, arrayV     aggregates
//	sliceV              slice (nil = nil slice)
//	*MapV, *ChanV, *Closure
//	Iface               interface (t == nil: nil interface)
//	tupleV
//	*Native             opaque host object
type Value = any

type structV []Value
type arrayV []Value
type sliceV []Value
type tupleV []Value

type SymStr struct{ b []*Term }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(g *G, args []Value) Value
	name   string
}

type Native struct {
	kind string
	x    any
}

type sliceData struct{ s sliceV }
type strData struct{ s Value }

type mapEntry struct {
	k, v    Value
	deleted bool
	cell    *Value // race-detection granule
}

type MapV struct {
	entries []*mapEntry
	idx     map[any]*mapEntry
	nsym    int // live entries with symbolic keys
	n       int
	cell    Value // race-detection granule for the whole map
}

func newMap() *MapV { return &MapV{idx: map[any]*mapEntry{}} }

type unsupported struct{ msg string }

func unsup(format string, args ...any) { panic(unsupported{fmt.Sprintf(format, args...)}) }

// ---- widths ----

func basicWidth(b *types.Basic) (uint8, bool) { // width, signed
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 255, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s := basicWidth(b)
	return s
}

func zeroOf(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil {
			return (*Value)(nil)
		}
		w, _ := basicWidth(t)
		if w == 255 {
			if t.Info()&types.IsComplex != 0 {
				return &Native{kind: "complex", x: complex(0, 0)}
			}
			unsup("zero of %v", t)
		}
		return kconst(w, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return sliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(structV, t.NumFields())
		for i := range s {
			s[i] = zeroOf(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		a := make(arrayV, n)
		if n > 0 {
			z := zeroOf(t.Elem())
			for i := range a {
				if i == 0 {
					a[i] = z
				} else {
					a[i] = copyVal(z)
				}
			}
		}
		return a
	case *types.Named, *types.Alias:
		return zeroOf(t.Underlying())
	case *types.Tuple:
		if t.Len() == 1 {
			return zeroOf(t.At(0).Type())
		}
		tv := make(tupleV, t.Len())
		for i := range tv {
			tv[i] = zeroOf(t.At(i).Type())
		}
		return tv
	case *types.TypeParam:
		unsup("zero of type param")
	}
	unsup("zero of %T %v", t, t)
	return nil
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case structV:
		n := make(structV, len(v))
		for i, e := range v {
			switch e.(type) {
			case structV, arrayV:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case arrayV:
		n := make(arrayV, len(v))
		for i, e := range v {
			switch e.(type) {
			case structV, arrayV:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// storeInto overwrites *dst, keeping the identity of the aggregate's slots.
func storeInto(dst *Value, v Value) {
	switch v := v.(type) {
	case structV:
		if d, ok := (*dst).(structV); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	case arrayV:
		if d, ok := (*dst).(arrayV); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

// ---- strings ----

func strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		out := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = gBytes[v[i]]
		}
		return out
	case *SymStr:
		return v.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{append([]*Term(nil), b...)}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return string(bs)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]*Term, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return &SymStr{out}
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		for _, t := range v.b[lo:hi] {
			if !t.isConst() {
				return &SymStr{v.b[lo:hi:hi]}
			}
		}
		return mkStr(v.b[lo:hi])
	}
	panic("strSlice")
}

func bytesToStr(s sliceV) Value {
	bs := make([]byte, len(s))
	for i, e := range s {
		t, ok := e.(*Term)
		if !ok {
			unsup("bytesToStr of %T", e)
		}
		if !t.isConst() {
			ts := make([]*Term, len(s))
			for j, e := range s {
				ts[j] = e.(*Term)
			}
			return &SymStr{ts}
		}
		bs[i] = byte(t.val)
	}
	return string(bs)
}

func strToBytes(v Value) sliceV {
	switch v := v.(type) {
	case string:
		out := make(sliceV, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = gBytes[v[i]]
		}
		return out
	case *SymStr:
		out := make(sliceV, len(v.b))
		for i, t := range v.b {
			out[i] = t
		}
		return out
	}
	panic("strToBytes")
}

// ---- tokens: text of symbolic values inside concrete strings ----
//
// A token is 0xff, decimal index, 0xfe. Token i of the path stands for the text
// of a symbolic value in a particular rendering (kind).

type Token struct {
	kind string // "d" decimal int64, "u" decimal uint64, "dur" time.Duration, "json" JSON string body, "time", ...
	t    *Term
	v    Value
}

func (p *Path) token(kind string, t *Term, v Value) string {
	for i, k := range p.tokens {
		if k.kind == kind && k.t == t && t != nil {
			return "\xff" + strconv.Itoa(i) + "\xfe"
		}
	}
	p.tokens = append(p.tokens, Token{kind, t, v})
	return "\xff" + strconv.Itoa(len(p.tokens)-1) + "\xfe"
}

func hasTok(s string) bool { return strings.IndexByte(s, 0xff) >= 0 }

type seg struct {
	lit []*Term
	tok *Token
}

// segments splits a string value into literal runs and tokens.
func (p *Path) segments(v Value) []seg {
	b := strBytes(v)
	var out []seg
	var cur []*Term
	for i := 0; i < len(b); i++ {
		if b[i].isConst() && b[i].val == 0xff {
			j := i + 1
			n := 0
			for j < len(b) && b[j].isConst() && b[j].val >= '0' && b[j].val <= '9' {
				n = n*10 + int(b[j].val-'0')
				j++
			}
			if j < len(b) && j > i+1 && b[j].isConst() && b[j].val == 0xfe && n < len(p.tokens) {
				if len(cur) > 0 {
					out = append(out, seg{lit: cur})
					cur = nil
				}
				out = append(out, seg{tok: &p.tokens[n]})
				i = j
				continue
			}
		}
		cur = append(cur, b[i])
	}
	if len(cur) > 0 {
		out = append(out, seg{lit: cur})
	}
	return out
}

func (p *Path) hasTokens(v Value) bool {
	switch v := v.(type) {
	case string:
		return hasTok(v)
	case *SymStr:
		for _, t := range v.b {
			if t.isConst() && t.val == 0xff {
				return true
			}
		}
	}
	return false
}

func (p *Path) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok && !(hasTok(x) || hasTok(y)) {
			return kbool(x == y)
		} else if ok && x == y {
			return gTrue
		}
	}
	if p.hasTokens(a) || p.hasTokens(b) {
		return p.tokEq(p.segments(a), p.segments(b))
	}
	x, y := strBytes(a), strBytes(b)
	if len(x) != len(y) {
		return gFalse
	}
	r := gTrue
	for i := range x {
		r = p.tt.And(r, p.tt.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func floatTok(t *Token) bool { return strings.HasPrefix(t.kind, "f:") }

func (p *Path) tokEq(a, b []seg) *Term { return p.tokCmp(a, b, false) }

// tokCmp compares strings with tokens; with prefix, whether b is a prefix of a.
func (p *Path) tokCmp(a, b []seg, prefix bool) *Term {
	swapped := false
	tt := p.tt
	r := gTrue
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		switch {
		case x.tok != nil && y.tok != nil:
			if floatTok(x.tok) && (x.tok.kind != y.tok.kind || x.tok.t != y.tok.t) {
				a = append([]seg{{lit: strBytes(p.floatText(x.tok))}}, a[1:]...)
				continue
			}
			if floatTok(y.tok) && !floatTok(x.tok) {
				b = append([]seg{{lit: strBytes(p.floatText(y.tok))}}, b[1:]...)
				continue
			}
			if x.tok.kind != y.tok.kind {
				unsup("compare tokens %s/%s", x.tok.kind, y.tok.kind)
			}
			r = tt.And(r, p.tokenEq(x.tok, y.tok))
			a, b = a[1:], b[1:]
		case x.tok == nil && y.tok == nil:
			n := len(x.lit)
			if len(y.lit) < n {
				n = len(y.lit)
			}
			for i := 0; i < n; i++ {
				r = tt.And(r, tt.Eq(x.lit[i], y.lit[i]))
			}
			if r.isFalse() {
				return r
			}
			if len(x.lit) > n {
				a = append([]seg{{lit: x.lit[n:]}}, a[1:]...)
			} else {
				a = a[1:]
			}
			if len(y.lit) > n {
				b = append([]seg{{lit: y.lit[n:]}}, b[1:]...)
			} else {
				b = b[1:]
			}
		default:
			if x.tok == nil {
				a, b = b, a
				x, y = y, x
				swapped = !swapped
			}
			if floatTok(x.tok) {
				a = append([]seg{{lit: strBytes(p.floatText(x.tok))}}, a[1:]...)
				continue
			}
			// token against literal: take the maximal literal run that can be
			// the token's text.
			lit := ""
			for _, t := range y.lit {
				if !t.isConst() {
					break
				}
				lit += string([]byte{byte(t.val)})
			}
			eq, n, ok := p.tokLit(x.tok, lit)
			if !ok {
				return gFalse
			}
			r = tt.And(r, eq)
			if r.isFalse() {
				return r
			}
			a = a[1:]
			if len(y.lit) > n {
				b = append([]seg{{lit: y.lit[n:]}}, b[1:]...)
			} else {
				b = b[1:]
			}
		}
	}
	if swapped {
		a, b = b, a
	}
	if len(a) != len(b) && !(prefix && len(b) == 0) {
		return gFalse
	}
	return r
}

func (p *Path) tokenEq(x, y *Token) *Term {
	if x.t != nil {
		return p.tt.Eq(x.t, y.t)
	}
	return p.strEq(x.v, y.v)
}

// tokLit compares a token with the start of a literal; n is how much was used.
func (p *Path) tokLit(t *Token, lit string) (*Term, int, bool) {
	switch t.kind {
	case "d", "u":
		n := 0
		if n < len(lit) && lit[n] == '-' {
			n++
		}
		for n < len(lit) && lit[n] >= '0' && lit[n] <= '9' {
			n++
		}
		if n == 0 {
			return nil, 0, false
		}
		if v, err := strconv.ParseInt(lit[:n], 10, 64); err == nil {
			return p.tt.Eq(t.t, kconst(t.t.w, uint64(v))), n, true
		}
		return nil, 0, false
	}
	unsup("compare token %s with literal %q", t.kind, lit)
	return nil, 0, false
}

// strLess is the symbolic lexicographic comparison a < b.
func (p *Path) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if hasTok(x) || hasTok(y) {
				unsup("ordering of token strings")
			}
			return kbool(x < y)
		}
	}
	if p.hasTokens(a) || p.hasTokens(b) {
		unsup("ordering of token strings")
	}
	x, y := strBytes(a), strBytes(b)
	tt := p.tt
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := kbool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = tt.Or(tt.Cmp(OpUlt, x[i], y[i]), tt.And(tt.Eq(x[i], y[i]), r))
	}
	return r
}

// ---- equality ----

func (p *Path) valEq(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		if isFloat(t) {
			return p.floatCmp("==", x, b.(*Term))
		}
		return p.tt.Eq(x, b.(*Term))
	case string, *SymStr:
		return p.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		return kbool(ok && x == y)
	case sliceData:
		return kbool(false)
	case *MapV:
		return kbool(x == b.(*MapV))
	case *ChanV:
		return kbool(x == b.(*ChanV))
	case *Closure:
		return kbool(x == b.(*Closure))
	case sliceV:
		return kbool(x == nil && b.(sliceV) == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			// comparing interface with concrete
			unsup("iface compare with %T", b)
		}
		return p.ifaceEq(x, y)
	case structV:
		y := b.(structV)
		st := t.Underlying().(*types.Struct)
		r := gTrue
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = p.tt.And(r, p.valEq(st.Field(i).Type(), x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case arrayV:
		y := b.(arrayV)
		et := t.Underlying().(*types.Array).Elem()
		r := gTrue
		for i := range x {
			r = p.tt.And(r, p.valEq(et, x[i], y[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Native:
		return kbool(a == b)
	}
	unsup("equality on %T", a)
	return nil
}

func (p *Path) ifaceEq(x, y Iface) *Term {
	if x.t == nil || y.t == nil {
		return kbool(x.t == nil && y.t == nil)
	}
	if x.t != y.t && !types.Identical(x.t, y.t) {
		return gFalse
	}
	if !types.Comparable(x.t) {
		p.g.rtPanic("comparing uncomparable type " + x.t.String())
	}
	return p.valEq(x.t, x.v, y.v)
}

// ---- map keys ----

type constKey struct {
	w uint8
	v uint64
}
type ifaceKey struct {
	t string
	k any
}

func (p *Path) mapKey(v Value) (any, bool) {
	switch v := v.(type) {
	case string:
		if hasTok(v) {
			return nil, false
		}
		return v, true
	case *SymStr:
		return nil, false
	case *Term:
		if v.isConst() {
			return constKey{v.w, v.val}, true
		}
		return nil, false
	case *Value, *ChanV, *Native, *Closure:
		return v, true
	case Iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		k, ok := p.mapKey(v.v)
		return ifaceKey{types.TypeString(v.t, nil), k}, ok
	case structV:
		return p.aggKey([]Value(v))
	case arrayV:
		return p.aggKey([]Value(v))
	}
	unsup("map key %T", v)
	return nil, false
}

func (p *Path) aggKey(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := p.mapKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return sb.String(), true
}

// mapFind looks a key up, branching on equality with symbolic keys.
func (p *Path) mapFind(m *MapV, kt types.Type, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	key, conc := p.mapKey(k)
	if conc {
		if e, ok := m.idx[key]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := p.mapKey(e.k); c {
				continue
			}
		}
		if p.branch(p.valEq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, kt types.Type, k, v Value) {
	if e := p.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	if key, conc := p.mapKey(k); conc {
		m.idx[key] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(m *MapV, kt types.Type, k Value) {
	e := p.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if key, conc := p.mapKey(e.k); conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	for i, x := range m.entries {
		if x == e {
			m.entries = append(append([]*mapEntry(nil), m.entries[:i]...), m.entries[i+1:]...)
			break
		}
	}
}

// ---- floats ----

func fval(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}
func fterm(w uint8, f float64) *Term {
	if w == 32 {
		return kconst(32, uint64(math.Float32bits(float32(f))))
	}
	return kconst(64, math.Float64bits(f))
}

func (p *Path) floatCmp(op string, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case "==":
			return kbool(x == y)
		case "<":
			return kbool(x < y)
		case "<=":
			return kbool(x <= y)
		}
	}
	// A symbolic float is the result of an uninterpreted function: any answer
	// is possible (over-approximation), except reflexivity.
	if a == b && (op == "==" || op == "<=") {
		return gTrue
	}
	if t := p.intCmp(op, a, b); t != nil {
		return t
	}
	return p.tt.UF("f"+op, 0, a, b)
}

// intCmp is the comparison of a converted integer with a constant, exactly: the
// conversion is monotone, and exact up to 2^53.
func (p *Path) intCmp(op string, a, b *Term) *Term {
	conv := func(t *Term) bool { return t.op == OpUF && t.w == 64 && (t.name == "i2f" || t.name == "u2f") }
	small := func(t *Term) bool { return t.isConst() && math.Abs(fval(t)) < 1<<53 }
	cmp := func(o Op, uf, l, r *Term) *Term {
		if uf.name == "u2f" {
			if o == OpSlt {
				o = OpUlt
			} else {
				o = OpUle
			}
		}
		return p.tt.Cmp(o, l, r)
	}
	k := func(uf *Term, f float64) *Term { return kconst(uf.a[0].w, uint64(int64(f))) }
	fits := func(uf *Term, f float64) bool {
		w := uf.a[0].w
		if uf.name == "u2f" {
			return f >= 0 && f < math.Ldexp(1, int(w)-1)
		}
		return math.Abs(f) < math.Ldexp(1, int(w)-1)-1
	}
	switch {
	case conv(a) && small(b) && fits(a, fval(b)):
		x, c := a.a[0], fval(b)
		switch op {
		case "==":
			if c != math.Trunc(c) {
				return gFalse
			}
			return p.tt.Eq(x, k(a, c))
		case "<":
			return cmp(OpSlt, a, x, k(a, math.Ceil(c)))
		case "<=":
			return cmp(OpSle, a, x, k(a, math.Floor(c)))
		}
	case conv(b) && small(a) && fits(b, fval(a)):
		x, c := b.a[0], fval(a)
		switch op {
		case "==":
			return p.intCmp(op, b, a)
		case "<":
			return cmp(OpSlt, b, k(b, math.Floor(c)), x)
		case "<=":
			return cmp(OpSle, b, k(b, math.Ceil(c)), x)
		}
	}
	return nil
}

// floatText is the text of a float token for particular values of the integers
// it is computed from (a case split over a few of them: the others are not
// covered).
func (p *Path) floatText(t *Token) string {
	f, ok := p.floatValue(t.t)
	if !ok {
		unsup("text of a symbolic float")
	}
	return fmt.Sprintf(t.kind[2:], f)
}

func (p *Path) floatValue(t *Term) (float64, bool) {
	if t.isConst() {
		return fval(t), true
	}
	if t.op != OpUF {
		return 0, false
	}
	switch t.name {
	case "i2f":
		return float64(sext(p.concretizeFew(t.a[0], 2), t.a[0].w)), true
	case "u2f":
		return float64(p.concretizeFew(t.a[0], 2)), true
	case "f+", "f-", "f*", "f/":
		x, ok1 := p.floatValue(t.a[0])
		y, ok2 := p.floatValue(t.a[1])
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.name {
		case "f+":
			return x + y, true
		case "f-":
			return x - y, true
		case "f*":
			return x * y, true
		}
		return x / y, true
	}
	return 0, false
}

func (p *Path) floatBin(op string, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case "+":
			return fterm(a.w, x+y)
		case "-":
			return fterm(a.w, x-y)
		case "*":
			return fterm(a.w, x*y)
		case "/":
			return fterm(a.w, x/y)
		}
	}
	return p.tt.UF("f"+op, a.w, a, b)
}
