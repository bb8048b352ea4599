package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strb builds a string value from concrete and symbolic parts.
type strb struct{ b []*Term }

func (s *strb) str(x string) {
	for i := 0; i < len(x); i++ {
		s.b = append(s.b, gBytes[x[i]])
	}
}
func (s *strb) val(v Value)  { s.b = append(s.b, strBytes(v)...) }
func (s *strb) value() Value { return mkStr(s.b) }

type fmtSpec struct {
	flags string
	wid   string
	prec  string
	verb  byte
}

func (f fmtSpec) plain() bool     { return f.flags == "" && f.wid == "" && f.prec == "" }
func (f fmtSpec) String() string  { return "%" + f.flags + f.wid + f.prec + string(f.verb) }
func (f fmtSpec) has(c byte) bool { return strings.IndexByte(f.flags, c) >= 0 }

// sprintf formats like fmt.Sprintf; wrapped collects %w operands.
func (g *G) sprintf(format Value, args sliceV, wrapped *[]Iface) Value {
	p := g.p
	fb := strBytes(format)
	var out strb
	get := func(i int) byte { return byte(p.concretize(fb[i])) }
	argi := 0
	reordered := false
	for i := 0; i < len(fb); {
		if !p.branch(p.tt.Eq(fb[i], gBytes['%'])) {
			out.b = append(out.b, fb[i])
			i++
			continue
		}
		i++
		var sp fmtSpec
		for i < len(fb) {
			c := get(i)
			if strings.IndexByte("+-# 0", c) < 0 {
				break
			}
			sp.flags += string(c)
			i++
		}
		if i < len(fb) && get(i) == '[' {
			unsup("indexed format verbs")
		}
		star := func() string {
			if argi >= len(args) {
				return ""
			}
			t, ok := args[argi].(Iface).v.(*Term)
			argi++
			if !ok || !t.isConst() {
				unsup("symbolic width")
			}
			return strconv.Itoa(int(sext(t.val, t.w)))
		}
		if i < len(fb) && get(i) == '*' {
			sp.wid = star()
			i++
		}
		for i < len(fb) && get(i) >= '0' && get(i) <= '9' {
			sp.wid += string(get(i))
			i++
		}
		if i < len(fb) && get(i) == '.' {
			sp.prec = "."
			i++
			if i < len(fb) && get(i) == '*' {
				sp.prec += star()
				i++
			}
			for i < len(fb) && get(i) >= '0' && get(i) <= '9' {
				sp.prec += string(get(i))
				i++
			}
		}
		if i >= len(fb) {
			out.str("%!(NOVERB)")
			break
		}
		sp.verb = get(i)
		i++
		if sp.verb >= 0x80 {
			unsup("non-ASCII verb")
		}
		if sp.verb == '%' {
			out.str("%")
			continue
		}
		if argi >= len(args) {
			out.str("%!" + string(sp.verb) + "(MISSING)")
			continue
		}
		a := args[argi].(Iface)
		argi++
		if sp.verb == 'w' {
			if wrapped == nil || a.t == nil || !g.hasMethod(a.t, "Error") {
				out.str("%!w(")
				out.val(g.badArg(a))
				out.str(")")
				continue
			}
			*wrapped = append(*wrapped, a)
			sp.verb = 'v'
		}
		out.val(g.fmtArg(sp, a, true, 0))
	}
	if !reordered && argi < len(args) {
		out.str("%!(EXTRA ")
		for j, a := range args[argi:] {
			if j > 0 {
				out.str(", ")
			}
			out.val(g.badArg(a.(Iface)))
		}
		out.str(")")
	}
	return out.value()
}

func goTypeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// badArg renders "type=value" or <nil>.
func (g *G) badArg(a Iface) Value {
	if a.t == nil {
		return "<nil>"
	}
	var out strb
	out.str(goTypeName(a.t) + "=")
	out.val(g.fmtArg(fmtSpec{verb: 'v'}, a, true, 0))
	return out.value()
}

func (g *G) badVerb(sp fmtSpec, a Iface) Value {
	var out strb
	out.str("%!" + string(sp.verb) + "(")
	if a.t == nil {
		out.str("<nil>")
	} else {
		out.str(goTypeName(a.t) + "=")
		out.val(g.fmtArg(fmtSpec{verb: 'v'}, a, false, 0))
	}
	out.str(")")
	return out.value()
}

func (g *G) callStringMethod(a Iface, name string, sp fmtSpec) (res Value) {
	fr, depth := g.fr, g.depth
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			g.fr, g.depth = fr, depth
			if pv, ok := a.v.(*Value); ok && pv == nil {
				res = "<nil>"
				return
			}
			res = "%!" + string(sp.verb) + "(PANIC=" + name + " method: " + g.p.panicText(tp) + ")"
		}
	}()
	return g.callMethod(a, name)
}

func strMethod(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	s := fn.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (g *G) fmtArg(sp fmtSpec, a Iface, methods bool, depth int) Value {
	p := g.p
	if depth > 12 {
		unsup("fmt depth")
	}
	if a.t == nil {
		switch sp.verb {
		case 'T', 'v':
			return "<nil>"
		}
		return "%!" + string(sp.verb) + "(<nil>)"
	}
	if sp.verb == 'T' {
		return goTypeName(a.t)
	}
	if sp.verb == 'p' {
		unsup("%%p")
	}
	if sp.has('#') && sp.verb == 'v' {
		unsup("%%#v")
	}
	if methods {
		P := p.w.e.P
		if fn := P.findMethod(a.t, nil, "Format"); fn != nil && fn.Signature.Params().Len() == 2 {
			if nt, ok := types.Unalias(fn.Signature.Params().At(0).Type()).(*types.Named); ok && nt.Obj().Name() == "State" {
				unsup("fmt.Formatter")
			}
		}
		if strings.IndexByte("vsxXq", sp.verb) >= 0 {
			for _, m := range []string{"Error", "String"} {
				if fn := P.findMethod(a.t, nil, m); strMethod(fn) {
					s := g.callStringMethod(a, m, sp)
					return g.fmtString(sp, s, types.Typ[types.String])
				}
			}
		}
	}
	switch u := a.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if strings.IndexByte("vsqxX", sp.verb) < 0 {
				return g.badVerb(sp, a)
			}
			return g.fmtString(sp, a.v, a.t)
		case u.Info()&types.IsBoolean != 0:
			if sp.verb != 'v' && sp.verb != 't' {
				return g.badVerb(sp, a)
			}
			if p.branch(a.v.(*Term)) {
				return fmt.Sprintf(fmtSpec{flags: sp.flags, wid: sp.wid, verb: 'v'}.String(), true)
			}
			return fmt.Sprintf(fmtSpec{flags: sp.flags, wid: sp.wid, verb: 'v'}.String(), false)
		case u.Info()&types.IsInteger != 0:
			if strings.IndexByte("vdbocqxXOU", sp.verb) < 0 {
				return g.badVerb(sp, a)
			}
			t := a.v.(*Term)
			_, signed := basicWidth(u)
			if t.isConst() {
				if signed {
					return fmt.Sprintf(sp.String(), sext(t.val, t.w))
				}
				return fmt.Sprintf(sp.String(), t.val)
			}
			if (sp.verb == 'v' || sp.verb == 'd') && sp.plain() {
				if signed {
					return p.token("d", p.tt.Resize(t, 64, true), nil)
				}
				return p.token("u", p.tt.Resize(t, 64, false), nil)
			}
			if t.w == 8 && !signed && (sp.verb == 'x' || sp.verb == 'X') && sp.prec == "" && sp.wid == "2" && sp.flags == "0" {
				letter := uint64('a' - 10)
				if sp.verb == 'X' {
					letter = 'A' - 10
				}
				digit := func(d *Term) *Term { // of a nibble
					return p.tt.Ite(p.tt.Cmp(OpUlt, d, gBytes[10]), p.tt.Bin(OpAdd, d, gBytes['0']), p.tt.Bin(OpAdd, d, gBytes[letter]))
				}
				return mkStr([]*Term{digit(p.tt.Bin(OpLShr, t, gBytes[4])), digit(p.tt.Bin(OpBAnd, t, gBytes[15]))})
			}
			return p.token("i:"+sp.String(), t, nil)
		case u.Info()&types.IsFloat != 0:
			if strings.IndexByte("vbgGxXfFeE", sp.verb) < 0 {
				return g.badVerb(sp, a)
			}
			t := a.v.(*Term)
			if t.isConst() {
				return fmt.Sprintf(sp.String(), fval(t))
			}
			return p.token("f:"+sp.String(), t, nil)
		}
		unsup("format of %v", a.t)
	case *types.Pointer:
		pv, _ := a.v.(*Value)
		if pv == nil {
			if sp.verb == 'v' {
				return "<nil>"
			}
			return "%!" + string(sp.verb) + "(" + goTypeName(a.t) + "=<nil>)"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return strConcat("&", g.fmtArg(sp, Iface{u.Elem(), g.load(u.Elem(), pv)}, methods, depth+1))
			}
		}
		return p.token("ptr", nil, fmt.Sprintf("%p", pv))
	case *types.Slice, *types.Array:
		var et types.Type
		var els []Value
		switch v := a.v.(type) {
		case sliceV:
			et = u.(*types.Slice).Elem()
			for i := range v {
				els = append(els, g.load(et, &v[i]))
			}
		case arrayV:
			et = u.(*types.Array).Elem()
			els = v
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sqxX", sp.verb) >= 0 {
			bt := make([]*Term, len(els))
			for i := range els {
				bt[i] = els[i].(*Term)
			}
			return g.fmtString(sp, mkStr(bt), types.Typ[types.String])
		}
		var out strb
		out.str("[")
		for i, e := range els {
			if i > 0 {
				out.str(" ")
			}
			out.val(g.fmtArg(sp, asIface(et, e), true, depth+1))
		}
		out.str("]")
		return out.value()
	case *types.Struct:
		var out strb
		out.str("{")
		st := a.v.(structV)
		for i := range st {
			if i > 0 {
				out.str(" ")
			}
			f := u.Field(i)
			if sp.has('+') {
				out.str(f.Name() + ":")
			}
			out.val(g.fmtArg(sp, asIface(f.Type(), st[i]), f.Exported(), depth+1))
		}
		out.str("}")
		return out.value()
	case *types.Map:
		m := a.v.(*MapV)
		var out strb
		out.str("map[")
		if m != nil {
			es := append([]*mapEntry(nil), m.entries...)
			for _, e := range es {
				if _, ok := e.k.(string); !ok {
					if t, ok := e.k.(*Term); !ok || !t.isConst() {
						unsup("format of map with symbolic keys")
					}
				}
			}
			sort.SliceStable(es, func(i, j int) bool {
				if x, ok := es[i].k.(string); ok {
					return x < es[j].k.(string)
				}
				return int64(es[i].k.(*Term).val) < int64(es[j].k.(*Term).val)
			})
			for i, e := range es {
				if i > 0 {
					out.str(" ")
				}
				out.val(g.fmtArg(sp, asIface(u.Key(), e.k), true, depth+1))
				out.str(":")
				out.val(g.fmtArg(sp, asIface(u.Elem(), e.v), true, depth+1))
			}
		}
		out.str("]")
		return out.value()
	case *types.Signature, *types.Chan:
		return p.token("ptr", nil, fmt.Sprintf("%p", a.v))
	}
	unsup("format of %v", a.t)
	return nil
}

func asIface(t types.Type, v Value) Iface {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{t, v}
}

func (g *G) fmtString(sp fmtSpec, s Value, t types.Type) Value {
	if sp.plain() && (sp.verb == 's' || sp.verb == 'v') {
		return s
	}
	if cs, ok := s.(string); ok && !hasTok(cs) {
		return fmt.Sprintf(sp.String(), cs)
	}
	if ss, ok := s.(*SymStr); ok && sp.verb == 'q' && sp.plain() && !g.p.hasTokens(s) {
		// quoting of symbolic bytes: split on the characters that need escapes
		var out strb
		out.str("\"")
		for _, b := range ss.b {
			if g.p.branch(g.p.tt.Or(g.p.tt.Eq(b, gBytes['"']), g.p.tt.Eq(b, gBytes['\\']))) {
				out.str("\\")
			} else if !g.p.branch(g.p.tt.And(g.p.tt.Cmp(OpUle, gBytes[0x20], b), g.p.tt.Cmp(OpUlt, b, gBytes[0x7f]))) {
				unsup("%%q of unprintable byte")
			}
			out.b = append(out.b, b)
		}
		out.str("\"")
		return out.value()
	}
	if sp.flags == "" && sp.prec == "" && (sp.verb == 's' || sp.verb == 'v') && !g.p.hasTokens(s) {
		w, _ := strconv.Atoi(sp.wid)
		n := strLen(s)
		if n < w {
			return strConcat(strings.Repeat(" ", w-n), s)
		}
		return s
	}
	return g.p.token("s:"+sp.String(), nil, s)
}

// sprint implements Sprint / Sprintln.
func (g *G) sprint(args sliceV, ln bool) Value {
	var out strb
	prevString := false
	for i, x := range args {
		a := x.(Iface)
		isStr := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isStr && !prevString)) {
			out.str(" ")
		}
		out.val(g.fmtArg(fmtSpec{verb: 'v'}, a, true, 0))
		prevString = isStr
	}
	if ln {
		out.str("\n")
	}
	return out.value()
}

func init() {
	reg("fmt.Sprintf", func(g *G, fn *ssa.Function, a []Value) Value { return g.sprintf(a[0], a[1].(sliceV), nil) })
	reg("fmt.Sprint", func(g *G, fn *ssa.Function, a []Value) Value { return g.sprint(a[0].(sliceV), false) })
	reg("fmt.Sprintln", func(g *G, fn *ssa.Function, a []Value) Value { return g.sprint(a[0].(sliceV), true) })
	wr := func(g *G, w Value, s Value) Value { return g.callMethod(w.(Iface), "Write", strToBytes(s)) }
	reg("fmt.Fprintf", func(g *G, fn *ssa.Function, a []Value) Value {
		return wr(g, a[0], g.sprintf(a[1], a[2].(sliceV), nil))
	})
	reg("fmt.Fprint", func(g *G, fn *ssa.Function, a []Value) Value { return wr(g, a[0], g.sprint(a[1].(sliceV), false)) })
	reg("fmt.Fprintln", func(g *G, fn *ssa.Function, a []Value) Value { return wr(g, a[0], g.sprint(a[1].(sliceV), true)) })
	reg("fmt.Appendf", func(g *G, fn *ssa.Function, a []Value) Value {
		s := strToBytes(g.sprintf(a[1], a[2].(sliceV), nil))
		return g.appendVals(types.Typ[types.Uint8], a[0].(sliceV), s)
	})
	regs(func(g *G, fn *ssa.Function, a []Value) Value { return tupleV{kint(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	reg("fmt.Errorf", func(g *G, fn *ssa.Function, a []Value) Value {
		var wrapped []Iface
		s := g.sprintf(a[0], a[1].(sliceV), &wrapped)
		slot := new(Value)
		switch len(wrapped) {
		case 0:
			*slot = structV{s}
			return Iface{types.NewPointer(fn.Pkg.Prog.ImportedPackage("errors").Type("errorString").Type()), slot}
		case 1:
			*slot = structV{s, wrapped[0]}
			return Iface{types.NewPointer(fn.Pkg.Type("wrapError").Type()), slot}
		}
		var l sliceV
		for _, w := range wrapped {
			l = append(l, w)
		}
		*slot = structV{s, l}
		return Iface{types.NewPointer(fn.Pkg.Type("wrapErrors").Type()), slot}
	})
	// log.Logger: one line per call, through the writer
	logf := func(ln int) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			var s Value
			if lt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem(); true {
				out := (*g.deref(a[0])).(structV)[fieldIndex(lt, "out")].(Iface)
				if out.t != nil && types.TypeString(out.t, nil) == "io.discard" {
					return nil // nothing is formatted either
				}
			}
			switch ln {
			case 0:
				s = g.sprint(a[1].(sliceV), false)
			case 1:
				s = g.sprint(a[1].(sliceV), true)
			case 2:
				s = g.sprintf(a[1], a[2].(sliceV), nil)
			}
			pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
			lg := g.deref(a[0])
			w := (*lg).(structV)[fieldIndex(pt, "out")].(Iface)
			flag := (*lg).(structV)[fieldIndex(pt, "flag")].(structV)
			if ft, ok := flag[len(flag)-1].(*Term); !ok || !ft.isConst() || ft.val&^64 != 0 {
				unsup("log.Logger with flags")
			}
			if m, ok := g.p.extra["logprefix"].(map[*Value]Value); ok && m[lg] != nil {
				s = strConcat(m[lg], s)
			}
			n := strLen(s)
			if n == 0 {
				s = "\n"
			} else if !g.p.branch(g.p.tt.Eq(strBytes(s)[n-1], gBytes['\n'])) {
				s = strConcat(s, "\n")
			}
			mu := &(*lg).(structV)[fieldIndex(pt, "outMu")]
			lock, unlock := intrinsics["(*sync.Mutex).Lock"], intrinsics["(*sync.Mutex).Unlock"]
			lock(g, fn, []Value{mu})
			g.callMethod(w, "Write", strToBytes(s))
			unlock(g, fn, []Value{mu})
			return nil
		}
	}
	reg("(*log.Logger).Print", logf(0))
	reg("(*log.Logger).Println", logf(1))
	reg("(*log.Logger).Printf", logf(2))
	reg("log.New", func(g *G, fn *ssa.Function, a []Value) Value {
		pt := fn.Signature.Results().At(0).Type()
		slot := g.newZero(pt)
		et := pt.Underlying().(*types.Pointer).Elem()
		st := (*slot).(structV)
		st[fieldIndex(et, "out")] = a[0]
		if s, ok := a[1].(string); !ok || s != "" {
			m, _ := g.p.extra["logprefix"].(map[*Value]Value)
			if m == nil {
				m = map[*Value]Value{}
				g.p.extra["logprefix"] = m
			}
			m[slot] = a[1]
		}
		fl := st[fieldIndex(et, "flag")].(structV)
		fl[len(fl)-1] = kconst(32, a[2].(*Term).val&^64) // Lmsgprefix: without other flags the prefix is where it is anyway
		return slot
	})
}
