package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type jsonErr struct{ msg string }
type jsonErrV struct{ err Iface }

type jfield struct {
	idx   int
	name  string
	omit  bool
	omitz bool
	str   bool
	typ   types.Type
}

func jsonFields(t *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("json")
		if tag == "-" || !f.Exported() {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Embedded() && name == "" {
			unsup("json of embedded field")
		}
		if name == "" {
			name = f.Name()
		}
		jf := jfield{idx: i, name: name, typ: f.Type()}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				jf.omit = true
			case "omitzero":
				jf.omitz = true
			case "string":
				unsup("json string option")
			}
		}
		out = append(out, jf)
	}
	return out
}

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (g *G) jsonStr(sb *strb, v Value) {
	if s, ok := v.(string); ok && !hasTok(s) {
		b, _ := json.Marshal(s)
		sb.str(string(b))
		return
	}
	sb.str("\"")
	sb.str(g.p.token("json", nil, v))
	sb.str("\"")
}

func (g *G) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return !g.p.branch(x)
		}
		return g.p.branch(g.p.tt.Eq(x, kconst(x.w, 0)))
	case string, *SymStr:
		return strLen(v) == 0
	case sliceV:
		return len(x) == 0
	case arrayV:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (g *G) jsonEnc(sb *strb, t types.Type, v Value, depth int) {
	p := g.p
	if depth > 60 {
		unsup("json depth")
	}
	if isTimeType(t) {
		e := extOf(v)
		if e.isConst() {
			tm, _ := g.goTime(v)
			sb.str("\"" + tm.Format(time.RFC3339Nano) + "\"")
			return
		}
		sb.str("\"" + p.token("t:"+time.RFC3339Nano, e, nil) + "\"")
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if pv, ok := v.(*Value); !ok || pv != nil {
			if g.hasMethod(t, "MarshalJSON") {
				r := g.callMethod(Iface{t, v}, "MarshalJSON").(tupleV)
				if r[1].(Iface).t != nil {
					panic(jsonErr{"json: error calling MarshalJSON"})
				}
				sb.val(bytesToStr(r[0].(sliceV)))
				return
			}
			if g.hasMethod(t, "MarshalText") {
				r := g.callMethod(Iface{t, v}, "MarshalText").(tupleV)
				if r[1].(Iface).t != nil {
					panic(jsonErr{"json: error calling MarshalText"})
				}
				g.jsonStr(sb, bytesToStr(r[0].(sliceV)))
				return
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			g.jsonStr(sb, v)
		case u.Info()&types.IsBoolean != 0:
			if p.branch(v.(*Term)) {
				sb.str("true")
			} else {
				sb.str("false")
			}
		case u.Info()&types.IsInteger != 0:
			tm := v.(*Term)
			_, sg := basicWidth(u)
			switch {
			case tm.isConst() && sg:
				sb.str(strconv.FormatInt(sext(tm.val, tm.w), 10))
			case tm.isConst():
				sb.str(strconv.FormatUint(tm.val, 10))
			case sg:
				sb.str(p.token("d", p.tt.Resize(tm, 64, true), nil))
			default:
				sb.str(p.token("u", p.tt.Resize(tm, 64, false), nil))
			}
		case u.Info()&types.IsFloat != 0:
			tm := v.(*Term)
			if tm.isConst() {
				f := fval(tm)
				if math.IsNaN(f) || math.IsInf(f, 0) {
					panic(jsonErr{"json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64)})
				}
				b, _ := json.Marshal(f)
				sb.str(string(b))
				return
			}
			sb.str(p.token("jf", tm, nil))
		default:
			unsup("json of %v", t)
		}
	case *types.Pointer:
		pv := v.(*Value)
		if pv == nil {
			sb.str("null")
			return
		}
		g.jsonEnc(sb, u.Elem(), g.load(u.Elem(), pv), depth+1)
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			sb.str("null")
			return
		}
		g.jsonEnc(sb, x.t, x.v, depth+1)
	case *types.Struct:
		st := v.(structV)
		sb.str("{")
		first := true
		for _, f := range jsonFields(u) {
			fv := st[f.idx]
			if f.omit && g.jsonEmpty(fv) {
				continue
			}
			if f.omitz {
				if isTimeType(f.typ) {
					if p.branch(p.tt.Eq(extOf(fv), kconst(64, 0))) {
						continue
					}
				} else if p.branch(p.valEq(f.typ, fv, zeroOf(f.typ))) {
					continue
				}
			}
			if !first {
				sb.str(",")
			}
			first = false
			g.jsonStr(sb, f.name)
			sb.str(":")
			g.jsonEnc(sb, f.typ, fv, depth+1)
		}
		sb.str("}")
	case *types.Slice:
		s := v.(sliceV)
		if s == nil {
			sb.str("null")
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			cs, ok := bytesToStr(s).(string)
			if !ok {
				unsup("json of symbolic bytes")
			}
			sb.str("\"" + base64.StdEncoding.EncodeToString([]byte(cs)) + "\"")
			return
		}
		sb.str("[")
		for i := range s {
			if i > 0 {
				sb.str(",")
			}
			g.jsonEnc(sb, u.Elem(), g.load(u.Elem(), &s[i]), depth+1)
		}
		sb.str("]")
	case *types.Array:
		s := v.(arrayV)
		sb.str("[")
		for i := range s {
			if i > 0 {
				sb.str(",")
			}
			g.jsonEnc(sb, u.Elem(), s[i], depth+1)
		}
		sb.str("]")
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			sb.str("null")
			return
		}
		es := append([]*mapEntry(nil), m.entries...)
		conc := true
		for _, e := range es {
			if s, ok := e.k.(string); !ok || hasTok(s) {
				conc = false
			}
		}
		if conc {
			sort.SliceStable(es, func(i, j int) bool { return es[i].k.(string) < es[j].k.(string) })
		}
		sb.str("{")
		for i, e := range es {
			if i > 0 {
				sb.str(",")
			}
			g.jsonStr(sb, e.k)
			sb.str(":")
			g.jsonEnc(sb, u.Elem(), e.v, depth+1)
		}
		sb.str("}")
	default:
		panic(jsonErr{"json: unsupported type: " + goTypeName(t)})
	}
}

func (g *G) jsonMarshal(x Iface) (out Value, err Value) {
	defer func() {
		if r := recover(); r != nil {
			je, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			out, err = nil, g.newError(je.msg)
		}
	}()
	var sb strb
	if x.t == nil {
		sb.str("null")
	} else {
		g.jsonEnc(&sb, x.t, x.v, 0)
	}
	return sb.value(), Iface{}
}

// ---- parsing ----

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jnode struct {
	k    jkind
	b    bool
	num  string
	tok  *Token
	s    Value
	arr  []*jnode
	keys []Value
	raw  []*Term
}

type jparser struct {
	g *G
	b []*Term
	i int
}

type jsonEOF struct{}

func (jp *jparser) at(i int) byte { return byte(jp.g.p.concretize(jp.b[i])) }
func (jp *jparser) peek() byte {
	if jp.i >= len(jp.b) {
		panic(jsonErr{"unexpected end of JSON input"})
	}
	return jp.at(jp.i)
}
func (jp *jparser) ws() {
	for jp.i < len(jp.b) {
		switch jp.at(jp.i) {
		case ' ', '\t', '\n', '\r':
			jp.i++
		default:
			return
		}
	}
}
func (jp *jparser) bad(what string) {
	panic(jsonErr{fmt.Sprintf("invalid character %q %s", rune(jp.at(jp.i)), what)})
}
func (jp *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if jp.peek() != s[k] {
			jp.bad("in literal " + s)
		}
		jp.i++
	}
}

// token parses a token at the cursor, if any.
func (jp *jparser) token() *Token {
	b := jp.b
	if jp.i < len(b) && b[jp.i].isConst() && b[jp.i].val == 0xff {
		j, n := jp.i+1, 0
		for j < len(b) && b[j].isConst() && b[j].val >= '0' && b[j].val <= '9' {
			n = n*10 + int(b[j].val-'0')
			j++
		}
		if j < len(b) && j > jp.i+1 && b[j].isConst() && b[j].val == 0xfe && n < len(jp.g.p.tokens) {
			jp.i = j + 1
			return &jp.g.p.tokens[n]
		}
	}
	return nil
}

func (jp *jparser) str() Value {
	p := jp.g.p
	jp.i++ // opening quote
	var out strb
	for {
		if jp.i >= len(jp.b) {
			panic(jsonErr{"unexpected end of JSON input"})
		}
		start := jp.i
		if tk := jp.token(); tk != nil {
			if tk.kind == "json" {
				out.val(tk.v)
			} else {
				out.b = append(out.b, jp.b[start:jp.i]...)
			}
			continue
		}
		c := jp.b[jp.i]
		if p.branch(p.tt.Eq(c, gBytes['"'])) {
			jp.i++
			return out.value()
		}
		if p.branch(p.tt.Eq(c, gBytes['\\'])) {
			jp.i++
			e := jp.peek()
			switch e {
			case '"', '\\', '/':
				out.str(string(e))
			case 'b':
				out.str("\b")
			case 'f':
				out.str("\f")
			case 'n':
				out.str("\n")
			case 'r':
				out.str("\r")
			case 't':
				out.str("\t")
			case 'u':
				h := ""
				for k := 0; k < 4; k++ {
					jp.i++
					h += string(jp.peek())
				}
				n, err := strconv.ParseUint(h, 16, 32)
				if err != nil {
					panic(jsonErr{"invalid character in \\u hexadecimal character escape"})
				}
				if n >= 0xd800 && n < 0xe000 {
					unsup("surrogate in JSON")
				}
				out.str(string(rune(n)))
			default:
				jp.bad("in string escape code")
			}
			jp.i++
			continue
		}
		if p.branch(p.tt.Cmp(OpUlt, c, gBytes[0x20])) {
			jp.bad("in string literal")
		}
		out.b = append(out.b, c)
		jp.i++
	}
}

func (jp *jparser) value(depth int) *jnode {
	jp.ws()
	from := jp.i
	n := jp.value1(depth)
	n.raw = jp.b[from:jp.i]
	return n
}

func (jp *jparser) value1(depth int) *jnode {
	if jp.i >= len(jp.b) {
		panic(jsonErr{"unexpected end of JSON input"})
	}
	if tk := jp.token(); tk != nil {
		return &jnode{k: jNum, tok: tk}
	}
	c := jp.peek()
	switch {
	case c == 'n':
		jp.lit("null")
		return &jnode{k: jNull}
	case c == 't':
		jp.lit("true")
		return &jnode{k: jBool, b: true}
	case c == 'f':
		jp.lit("false")
		return &jnode{k: jBool}
	case c == '"':
		return &jnode{k: jStr, s: jp.str()}
	case c == '-' || c >= '0' && c <= '9':
		s := ""
		for jp.i < len(jp.b) && strings.IndexByte("+-0123456789.eE", jp.at(jp.i)) >= 0 {
			s += string(jp.at(jp.i))
			jp.i++
		}
		if !json.Valid([]byte(s)) {
			panic(jsonErr{"invalid character in numeric literal"})
		}
		return &jnode{k: jNum, num: s}
	case c == '[':
		jp.i++
		n := &jnode{k: jArr}
		jp.ws()
		if jp.peek() == ']' {
			jp.i++
			return n
		}
		for {
			n.arr = append(n.arr, jp.value(depth+1))
			jp.ws()
			switch jp.peek() {
			case ',':
				jp.i++
			case ']':
				jp.i++
				return n
			default:
				jp.bad("after array element")
			}
		}
	case c == '{':
		jp.i++
		n := &jnode{k: jObj}
		jp.ws()
		if jp.peek() == '}' {
			jp.i++
			return n
		}
		for {
			jp.ws()
			if jp.peek() != '"' {
				jp.bad("looking for beginning of object key string")
			}
			n.keys = append(n.keys, jp.str())
			jp.ws()
			if jp.peek() != ':' {
				jp.bad("after object key")
			}
			jp.i++
			n.arr = append(n.arr, jp.value(depth+1))
			jp.ws()
			switch jp.peek() {
			case ',':
				jp.i++
			case '}':
				jp.i++
				return n
			default:
				jp.bad("after object key:value pair")
			}
		}
	}
	jp.bad("looking for beginning of value")
	return nil
}

type jdec struct {
	g      *G
	err    string
	strict bool
}

func (d *jdec) mismatch(what string, t types.Type) {
	if d.err == "" {
		d.err = "json: cannot unmarshal " + what + " into Go value of type " + goTypeName(t)
	}
}

func (d *jdec) into(n *jnode, t types.Type, dst *Value) {
	g := d.g
	p := g.p
	if isTimeType(t) {
		switch n.k {
		case jNull:
			return
		case jStr:
			if tk := p.onlyToken(n.s); tk != nil && (tk.kind == "t:"+time.RFC3339Nano || tk.kind == "t:"+time.RFC3339) {
				g.store(dst, mkTime(tk.t))
				return
			}
			s := g.concreteStr(n.s)
			tm, err := time.Parse(time.RFC3339Nano, s)
			if err != nil {
				panic(jsonErr{err.Error()})
			}
			if tm.IsZero() {
				g.store(dst, mkTime(kconst(64, 0)))
			} else {
				g.store(dst, mkTime(kconst(64, uint64(tm.UnixNano()))))
			}
			return
		}
		panic(jsonErr{"Time.UnmarshalJSON: input is not a JSON string"})
	}
	if _, isP := t.Underlying().(*types.Pointer); !isP {
		if g.hasMethod(types.NewPointer(t), "UnmarshalJSON") {
			raw := make(sliceV, len(n.raw))
			for i, b := range n.raw {
				raw[i] = b
			}
			r := g.callMethod(Iface{types.NewPointer(t), dst}, "UnmarshalJSON", raw).(Iface)
			if r.t != nil {
				panic(jsonErrV{r})
			}
			return
		}
		if g.hasMethod(types.NewPointer(t), "UnmarshalText") && n.k == jStr {
			r := g.callMethod(Iface{types.NewPointer(t), dst}, "UnmarshalText", strToBytes(n.s)).(Iface)
			if r.t != nil {
				panic(jsonErr{"json: UnmarshalText"})
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.k == jNull {
			g.store(dst, (*Value)(nil))
			return
		}
		cur := (*dst).(*Value)
		if cur == nil {
			cur = new(Value)
			*cur = zeroOf(u.Elem())
			g.store(dst, cur)
		}
		d.into(n, u.Elem(), cur)
	case *types.Interface:
		if u.NumMethods() > 0 {
			if n.k == jNull {
				g.store(dst, Iface{})
				return
			}
			d.mismatch("value", t)
			return
		}
		g.store(dst, d.any(n))
	case *types.Basic:
		if n.k == jNull {
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.k != jStr {
				d.mismatch(n.what(), t)
				return
			}
			g.store(dst, n.s)
		case u.Info()&types.IsBoolean != 0:
			if n.k != jBool {
				d.mismatch(n.what(), t)
				return
			}
			g.store(dst, kbool(n.b))
		case u.Info()&types.IsInteger != 0:
			w, sg := basicWidth(u)
			if n.k != jNum {
				d.mismatch(n.what(), t)
				return
			}
			if n.tok != nil {
				if n.tok.kind != "d" && n.tok.kind != "u" {
					unsup("json number token %s into %v", n.tok.kind, t)
				}
				if w != 64 {
					unsup("json narrow int")
				}
				g.store(dst, n.tok.t)
				return
			}
			if sg {
				v, err := strconv.ParseInt(n.num, 10, int(w))
				if err != nil {
					d.mismatch("number "+n.num, t)
					return
				}
				g.store(dst, kconst(w, uint64(v)))
			} else {
				v, err := strconv.ParseUint(n.num, 10, int(w))
				if err != nil {
					d.mismatch("number "+n.num, t)
					return
				}
				g.store(dst, kconst(w, v))
			}
		case u.Info()&types.IsFloat != 0:
			if n.k != jNum {
				d.mismatch(n.what(), t)
				return
			}
			w, _ := basicWidth(u)
			if n.tok != nil {
				if n.tok.kind != "jf" {
					unsup("json int token into float")
				}
				g.store(dst, n.tok.t)
				return
			}
			f, err := strconv.ParseFloat(n.num, int(w))
			if err != nil {
				d.mismatch("number "+n.num, t)
				return
			}
			g.store(dst, fterm(w, f))
		}
	case *types.Struct:
		if n.k == jNull {
			return
		}
		if n.k != jObj {
			d.mismatch(n.what(), t)
			return
		}
		fs := jsonFields(u)
		st := (*dst).(structV)
		for i, kv := range n.keys {
			key := g.concreteStr(kv)
			var hit *jfield
			for j := range fs {
				if fs[j].name == key {
					hit = &fs[j]
				}
			}
			if hit == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key) {
						hit = &fs[j]
						break
					}
				}
			}
			if hit != nil {
				d.into(n.arr[i], hit.typ, &st[hit.idx])
			} else if d.strict && d.err == "" {
				d.err = "json: unknown field " + strconv.Quote(key)
			}
		}
	case *types.Slice:
		if n.k == jNull {
			g.store(dst, sliceV(nil))
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && n.k == jStr {
			raw, err := base64.StdEncoding.DecodeString(g.concreteStr(n.s))
			if err != nil {
				panic(jsonErr{err.Error()})
			}
			g.store(dst, strToBytes(string(raw)))
			return
		}
		if n.k != jArr {
			d.mismatch(n.what(), t)
			return
		}
		cur := (*dst).(sliceV)
		s := cur[:0]
		if s == nil {
			s = sliceV{}
		}
		for i, e := range n.arr {
			if i < cap(s) {
				s = s[:i+1]
				if s[i] == nil {
					s[i] = zeroOf(u.Elem())
				}
				if i >= len(cur) {
					s[i] = zeroOf(u.Elem())
				}
			} else {
				s = g.appendVals(u.Elem(), s, []Value{zeroOf(u.Elem())})
			}
			d.into(e, u.Elem(), &s[i])
		}
		g.store(dst, s)
	case *types.Array:
		unsup("json into array")
	case *types.Map:
		if n.k == jNull {
			g.store(dst, (*MapV)(nil))
			return
		}
		if n.k != jObj {
			d.mismatch(n.what(), t)
			return
		}
		m := (*dst).(*MapV)
		if m == nil {
			m = newMap()
			g.store(dst, m)
		}
		for i, k := range n.keys {
			slot := new(Value)
			*slot = zeroOf(u.Elem())
			d.into(n.arr[i], u.Elem(), slot)
			p.mapSet(m, u.Key(), k, *slot)
		}
	default:
		unsup("json into %v", t)
	}
}

func (n *jnode) what() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[n.k]
}

func (d *jdec) any(n *jnode) Value {
	switch n.k {
	case jNull:
		return Iface{}
	case jBool:
		return Iface{types.Typ[types.Bool], kbool(n.b)}
	case jStr:
		return Iface{types.Typ[types.String], n.s}
	case jNum:
		if n.tok != nil {
			unsup("symbolic number into any")
		}
		f, _ := strconv.ParseFloat(n.num, 64)
		return Iface{types.Typ[types.Float64], fterm(64, f)}
	case jArr:
		t := types.NewSlice(types.NewInterfaceType(nil, nil))
		s := sliceV{}
		for _, e := range n.arr {
			s = append(s, d.any(e))
		}
		return Iface{t, s}
	}
	t := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
	m := newMap()
	for i, k := range n.keys {
		d.g.p.mapSet(m, types.Typ[types.String], k, d.any(n.arr[i]))
	}
	return Iface{t, m}
}

// jsonDecode parses one value at the start of b into dst; returns bytes used.
func (g *G) jsonDecode(b []*Term, x Iface, whole, strict bool) (used int, err Value) {
	defer func() {
		if r := recover(); r != nil {
			if ev, ok := r.(jsonErrV); ok {
				err = ev.err
				return
			}
			je, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			err = g.newError(je.msg)
		}
	}()
	jp := &jparser{g: g, b: b}
	n := jp.value(0)
	if whole {
		jp.ws()
		if jp.i < len(b) {
			jp.bad("after top-level value")
		}
	}
	pt, ok := x.t.(*types.Pointer)
	if !ok || x.v.(*Value) == nil {
		return jp.i, g.newError("json: Unmarshal(non-pointer)")
	}
	d := &jdec{g: g, strict: strict}
	d.into(n, pt.Elem(), x.v.(*Value))
	if d.err != "" {
		return jp.i, g.newError(d.err)
	}
	return jp.i, Iface{}
}

type jsonDecState struct {
	r      Iface
	buf    []*Term
	err    Value
	strict bool
}
type jsonEncState struct {
	w      Iface
	indent bool
}

// jsonScalar is the text of a string or number, byte for byte.
func (g *G) jsonScalar(x Iface) (sliceV, bool) {
	t, ok := x.t.Underlying().(*types.Basic)
	if !ok || g.hasMethod(x.t, "MarshalJSON") || g.hasMethod(x.t, "MarshalText") {
		return nil, false
	}
	p := g.p
	var out strb
	switch {
	case t.Info()&types.IsString != 0:
		if p.hasTokens(x.v) {
			return nil, false
		}
		out.str("\"")
		for _, b := range strBytes(x.v) {
			if b.isConst() && b.val >= 0x80 {
				return nil, false
			}
			if p.branch(p.tt.Cmp(OpUle, gBytes[0x80], b)) {
				unsup("JSON of non-ASCII text")
			}
			if p.branch(p.tt.Or(p.tt.Eq(b, gBytes['"']), p.tt.Eq(b, gBytes['\\']))) {
				out.str("\\")
				out.b = append(out.b, b)
				continue
			}
			special := p.tt.Cmp(OpUlt, b, gBytes[0x20])
			for _, c := range "<>&\x7f" {
				special = p.tt.Or(special, p.tt.Eq(b, gBytes[c]))
			}
			if !p.branch(special) {
				out.b = append(out.b, b)
				continue
			}
			j, _ := json.Marshal(string(rune(p.concretize(b))))
			out.str(string(j[1 : len(j)-1]))
		}
		out.str("\"")
	case t.Info()&types.IsInteger != 0:
		n := x.v.(*Term)
		if !n.isConst() {
			return nil, false
		}
		if isSigned(t) {
			out.str(strconv.FormatInt(sext(n.val, n.w), 10))
		} else {
			out.str(strconv.FormatUint(n.val, 10))
		}
	default:
		return nil, false
	}
	return strToBytes(out.value()), true
}

func (g *G) ioErr(name string) Value {
	return *g.p.global(g.p.w.e.P.prog.ImportedPackage("io").Var(name))
}

func init() {
	reg("encoding/json.Marshal", func(g *G, fn *ssa.Function, a []Value) Value {
		if x := a[0].(Iface); x.t != nil && g.fr != nil && pkgOf(g.fr.fn) == "html/template" {
			if b, ok := g.jsonScalar(x); ok {
				return tupleV{b, Iface{}}
			}
		}
		v, err := g.jsonMarshal(a[0].(Iface))
		if v == nil {
			return tupleV{sliceV(nil), err}
		}
		return tupleV{strToBytes(v), err}
	})
	reg("encoding/json.MarshalIndent", intrinsics["encoding/json.Marshal"])
	reg("encoding/json.Unmarshal", func(g *G, fn *ssa.Function, a []Value) Value {
		_, err := g.jsonDecode(g.bytesOf(a[0]), a[1].(Iface), true, false)
		return err
	})
	reg("encoding/json.Valid", func(g *G, fn *ssa.Function, a []Value) Value {
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(jsonErr); !is {
						panic(r)
					}
					ok = false
				}
			}()
			jp := &jparser{g: g, b: g.bytesOf(a[0])}
			jp.value(0)
			jp.ws()
			ok = jp.i == len(jp.b)
		}()
		return kbool(ok)
	})
	reg("encoding/json.NewDecoder", func(g *G, fn *ssa.Function, a []Value) Value {
		slot := new(Value)
		*slot = &Native{kind: "jsondec", x: &jsonDecState{r: a[0].(Iface)}}
		return slot
	})
	reg("(*encoding/json.Decoder).Decode", func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*g.deref(a[0])).(*Native).x.(*jsonDecState)
		for st.err == nil {
			buf := make(sliceV, 65536)
			for i := range buf {
				buf[i] = gBytes[0]
			}
			r := g.callMethod(st.r, "Read", buf).(tupleV)
			n := constInt(r[0])
			for i := 0; i < n; i++ {
				st.buf = append(st.buf, buf[i].(*Term))
			}
			if r[1].(Iface).t != nil {
				st.err = r[1]
			}
		}
		ws := 0
		for ws < len(st.buf) && st.buf[ws].isConst() && strings.IndexByte(" \t\r\n", byte(st.buf[ws].val)) >= 0 {
			ws++
		}
		if ws == len(st.buf) {
			return st.err
		}
		used, err := g.jsonDecode(st.buf, a[1].(Iface), false, st.strict)
		if ei := err.(Iface); ei.t != nil {
			if s, ok := errText(ei); ok && s == "unexpected end of JSON input" {
				if g.errorsIs(st.err.(Iface), g.ioErr("EOF").(Iface)) {
					return g.ioErr("ErrUnexpectedEOF")
				}
				return st.err
			}
			if used == 0 {
				return err
			}
		}
		st.buf = st.buf[used:]
		return err
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(g *G, fn *ssa.Function, a []Value) Value {
		(*g.deref(a[0])).(*Native).x.(*jsonDecState).strict = true
		return nil
	})
	reg("(*encoding/json.Decoder).More", func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*g.deref(a[0])).(*Native).x.(*jsonDecState)
		if st.err == nil {
			unsup("Decoder.More before Decode")
		}
		for _, b := range st.buf {
			switch c := g.p.concretize(b); c {
			case ' ', '\t', '\r', '\n':
			default:
				return kbool(c != ']' && c != '}')
			}
		}
		return gFalse
	})
	reg("encoding/json.NewEncoder", func(g *G, fn *ssa.Function, a []Value) Value {
		slot := new(Value)
		*slot = &Native{kind: "jsonenc", x: &jsonEncState{w: a[0].(Iface)}}
		return slot
	})
	regs(func(g *G, fn *ssa.Function, a []Value) Value { return nil },
		"(*encoding/json.Encoder).SetIndent", "(*encoding/json.Encoder).SetEscapeHTML")
	reg("(*encoding/json.Encoder).Encode", func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*g.deref(a[0])).(*Native).x.(*jsonEncState)
		v, err := g.jsonMarshal(a[1].(Iface))
		if v == nil {
			return err
		}
		r := g.callMethod(st.w, "Write", strToBytes(strConcat(v, "\n"))).(tupleV)
		return r[1]
	})
	reg("unicode/utf8.Valid", func(g *G, fn *ssa.Function, a []Value) Value { return g.utf8Valid(bytesToStr(a[0].(sliceV))) })
	reg("unicode/utf8.ValidString", func(g *G, fn *ssa.Function, a []Value) Value { return g.utf8Valid(a[0]) })
}

// errText is the text of an error of errors.New.
func errText(e Iface) (string, bool) {
	if ptr, ok := e.v.(*Value); ok && ptr != nil {
		if st, ok := (*ptr).(structV); ok && len(st) == 1 {
			s, ok := st[0].(string)
			return s, ok
		}
	}
	return "", false
}

func (g *G) utf8Valid(v Value) Value {
	if !g.p.hasTokens(v) {
		return fallthru
	}
	for _, s := range g.p.segments(v) {
		for _, b := range s.lit {
			if !b.isConst() || b.val >= 0x80 {
				unsup("utf8.Valid of token text with non-ASCII")
			}
		}
	}
	return gTrue
}
