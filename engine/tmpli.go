package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	htmltemplate "html/template"
	"io"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	texttemplate "text/template"
	"text/template/parse"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Templates. Parsing, and for html/template the insertion of escapers by
// context, are done by the real packages on the repository's own files: they
// do not depend on the data. What does, the execution of the resulting tree, is
// an interpreter over symbolic values here; the functions it calls (the
// repository's, the escapers of html/template) are executed symbolically like
// any other code.

type tmplSrc struct{ name, text string }

type tmplSet struct {
	html  bool
	funcs map[string]Iface
	srcs  []tmplSrc
}

type tmplRef struct {
	set  *tmplSet
	name string
}

type tmplTrees struct {
	once  sync.Once
	trees map[string]*parse.Tree
	err   string
}

var tmplCache sync.Map // key -> *tmplTrees

func (s *tmplSet) names() []string {
	var ns []string
	for n := range s.funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func (s *tmplSet) key(exec string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v|%s|%q|", s.html, exec, s.names())
	for _, x := range s.srcs {
		fmt.Fprintf(&sb, "%q=%q|", x.name, x.text)
	}
	return sb.String()
}

// build parses the set natively; with exec, the escapers for it are inserted.
func (s *tmplSet) build(exec string) *tmplTrees {
	x, _ := tmplCache.LoadOrStore(s.key(exec), &tmplTrees{})
	tt := x.(*tmplTrees)
	tt.once.Do(func() {
		fm := map[string]any{}
		for n := range s.funcs {
			fm[n] = func(...any) string { return "" }
		}
		var text *texttemplate.Template
		if s.html {
			root := htmltemplate.New("\x00root").Funcs(fm)
			for _, x := range s.srcs {
				if _, err := root.New(x.name).Parse(x.text); err != nil {
					tt.err = err.Error()
					return
				}
			}
			if exec != "" {
				t := root.Lookup(exec)
				if t == nil {
					tt.err = fmt.Sprintf("html/template: %q is undefined", exec)
					return
				}
				if err := t.Execute(io.Discard, nil); err != nil {
					if e, ok := err.(*htmltemplate.Error); ok {
						tt.err = e.Error()
						return
					}
				}
			}
			f := reflect.ValueOf(root).Elem().FieldByName("text")
			text = *(**texttemplate.Template)(unsafe.Pointer(f.UnsafeAddr()))
		} else {
			text = texttemplate.New("\x00root").Funcs(fm)
			for _, x := range s.srcs {
				if _, err := text.New(x.name).Parse(x.text); err != nil {
					tt.err = err.Error()
					return
				}
			}
		}
		tt.trees = map[string]*parse.Tree{}
		for _, t := range text.Templates() {
			if t.Tree != nil {
				tt.trees[t.Name()] = t.Tree
			}
		}
	})
	return tt
}

var tmplEscapers = map[string]string{
	"_html_template_attrescaper":      "attrEscaper",
	"_html_template_commentescaper":   "commentEscaper",
	"_html_template_cssescaper":       "cssEscaper",
	"_html_template_cssvaluefilter":   "cssValueFilter",
	"_html_template_htmlnamefilter":   "htmlNameFilter",
	"_html_template_htmlescaper":      "htmlEscaper",
	"_html_template_jsregexpescaper":  "jsRegexpEscaper",
	"_html_template_jsstrescaper":     "jsStrEscaper",
	"_html_template_jstmpllitescaper": "jsTmplLitEscaper",
	"_html_template_jsvalescaper":     "jsValEscaper",
	"_html_template_nospaceescaper":   "htmlNospaceEscaper",
	"_html_template_rcdataescaper":    "rcdataEscaper",
	"_html_template_srcsetescaper":    "srcsetFilterAndEscaper",
	"_html_template_urlescaper":       "urlEscaper",
	"_html_template_urlfilter":        "urlFilter",
	"_html_template_urlnormalizer":    "urlNormalizer",
	"_eval_args_":                     "evalArgs",
}

// tv is a value with its type; addr is set if it can be addressed. t == nil is
// the missing value.
type tv struct {
	t    types.Type
	v    Value
	addr *Value
}

func (x tv) valid() bool { return x.t != nil }

type tmplErr struct{ msg Value }

type tmplVar struct {
	name string
	val  tv
}

type tmplState struct {
	g     *G
	set   *tmplSet
	trees map[string]*parse.Tree
	name  string
	node  parse.Node
	vars  []tmplVar
	out   strb
	depth int
}

type tmplCtl int

const (
	ctlNone tmplCtl = iota
	ctlBreak
	ctlContinue
)

func (s *tmplState) errorf(format string, args ...any) {
	at := ""
	if s.node != nil {
		at = fmt.Sprintf(" at <%s>", s.node)
	}
	panic(tmplErr{fmt.Sprintf("template: %s: executing %q%s: %s", s.name, s.name, at, fmt.Sprintf(format, args...))})
}

func (s *tmplState) set_(name string, v tv) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			s.vars[i].val = v
			return
		}
	}
	s.errorf("undefined variable: %s", name)
}

func (s *tmplState) get(name string) tv {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].val
		}
	}
	s.errorf("undefined variable: %s", name)
	return tv{}
}

// unwrap takes the value out of an interface.
func unwrap(x tv) tv {
	if x.t == nil {
		return x
	}
	if _, ok := x.t.Underlying().(*types.Interface); ok {
		f, _ := x.v.(Iface)
		if f.t == nil {
			return tv{}
		}
		return tv{t: f.t, v: f.v}
	}
	return x
}

// indirect follows pointers and interfaces; isNil reports that it ended at nil.
func (s *tmplState) indirect(x tv) (tv, bool) {
	for x.t != nil {
		switch t := x.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := x.v.(*Value)
			if !ok {
				unsup("template: pointer %T", x.v)
			}
			if p == nil {
				return x, true
			}
			x = tv{t: t.Elem(), v: s.g.load(t.Elem(), p), addr: p}
		case *types.Interface:
			x = unwrap(x)
			if x.t == nil {
				return x, true
			}
		default:
			return x, false
		}
	}
	return x, true
}

func (s *tmplState) truth(x tv) bool {
	x = unwrap(x)
	if x.t == nil {
		return false
	}
	p := s.g.p
	switch t := x.t.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return strLen(x.v) > 0
		}
		tm := x.v.(*Term)
		if t.Info()&types.IsBoolean != 0 {
			return p.branch(tm)
		}
		if t.Info()&types.IsFloat != 0 {
			return !p.branch(p.floatCmp("==", tm, fterm(tm.w, 0)))
		}
		return !p.branch(p.tt.Eq(tm, kconst(tm.w, 0)))
	case *types.Slice:
		return len(x.v.(sliceV)) > 0
	case *types.Array:
		return len(x.v.(arrayV)) > 0
	case *types.Map:
		m, _ := x.v.(*MapV)
		return m != nil && m.n > 0
	case *types.Pointer:
		q, _ := x.v.(*Value)
		return q != nil
	case *types.Signature:
		c, _ := x.v.(*Closure)
		return c != nil
	case *types.Struct:
		return true
	}
	unsup("template: truth of %v", x.t)
	return false
}

func (s *tmplState) walk(dot tv, n parse.Node) tmplCtl {
	s.node = n
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return ctlNone
		}
		for _, c := range n.Nodes {
			if ctl := s.walk(dot, c); ctl != ctlNone {
				return ctl
			}
		}
	case *parse.TextNode:
		s.out.str(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		val := s.pipeline(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.node = n
			s.out.val(s.printed(val))
		}
	case *parse.IfNode:
		return s.cond(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		return s.cond(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		s.rng(dot, n)
	case *parse.BreakNode:
		return ctlBreak
	case *parse.ContinueNode:
		return ctlContinue
	case *parse.TemplateNode:
		tree := s.trees[n.Name]
		if tree == nil {
			s.errorf("template %q not defined", n.Name)
		}
		d := s.pipeline(dot, n.Pipe)
		sub := &tmplState{g: s.g, set: s.set, trees: s.trees, name: n.Name, depth: s.depth + 1, vars: []tmplVar{{"$", d}}}
		if sub.depth > 50 {
			unsup("template: recursion")
		}
		sub.walk(d, tree.Root)
		s.out.b = append(s.out.b, sub.out.b...)
	default:
		unsup("template node %T", n)
	}
	return ctlNone
}

func (s *tmplState) cond(dot tv, pipe *parse.PipeNode, list, els *parse.ListNode, with bool) tmplCtl {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	val := s.pipeline(dot, pipe)
	if s.truth(val) {
		if with {
			return s.walk(val, list)
		}
		return s.walk(dot, list)
	} else if els != nil {
		return s.walk(dot, els)
	}
	return ctlNone
}

func (s *tmplState) rng(dot tv, r *parse.RangeNode) {
	mark0 := len(s.vars)
	defer func() { s.vars = s.vars[:mark0] }()
	val, _ := s.indirect(s.pipeline(dot, r.Pipe))
	mark := len(s.vars)
	one := func(i, e tv) bool {
		if d := r.Pipe.Decl; len(d) > 0 {
			if r.Pipe.IsAssign {
				if len(d) > 1 {
					s.set_(d[0].Ident[0], i)
				} else {
					s.set_(d[0].Ident[0], e)
				}
			} else {
				// the pipeline pushed the declarations
				if len(d) > 1 {
					s.vars[mark-2].val = i
				}
				s.vars[mark-1].val = e
			}
		}
		if d := r.Pipe.Decl; len(d) > 1 && r.Pipe.IsAssign {
			s.set_(d[1].Ident[0], e)
		}
		ctl := s.walk(e, r.List)
		s.vars = s.vars[:mark]
		return ctl != ctlBreak
	}
	n := 0
	if val.t != nil {
		switch t := val.t.Underlying().(type) {
		case *types.Slice:
			sl := val.v.(sliceV)
			n = len(sl)
			for i := range sl {
				if !one(tv{t: types.Typ[types.Int], v: kint(i)}, unwrap(tv{t: t.Elem(), v: s.g.load(t.Elem(), &sl[i]), addr: &sl[i]})) {
					break
				}
			}
		case *types.Array:
			ar := val.v.(arrayV)
			n = len(ar)
			for i := range ar {
				if !one(tv{t: types.Typ[types.Int], v: kint(i)}, unwrap(tv{t: t.Elem(), v: copyVal(ar[i])})) {
					break
				}
			}
		case *types.Map:
			m, _ := val.v.(*MapV)
			if m != nil {
				var es []*mapEntry
				for _, e := range m.entries {
					if !e.deleted {
						es = append(es, e)
					}
				}
				n = len(es)
				if n > 1 {
					for _, e := range es {
						if _, ok := e.k.(string); !ok {
							unsup("template: range over a map with %T keys", e.k)
						}
					}
					sort.Slice(es, func(i, j int) bool { return es[i].k.(string) < es[j].k.(string) })
				}
				for _, e := range es {
					if !one(tv{t: t.Key(), v: e.k}, unwrap(tv{t: t.Elem(), v: e.v})) {
						break
					}
				}
			}
		case *types.Basic:
			if t.Info()&types.IsInteger == 0 {
				s.errorf("range can't iterate over %v", val.t)
			}
			tm := val.v.(*Term)
			if !tm.isConst() {
				unsup("template: range over a symbolic number")
			}
			n = int(sext(tm.val, tm.w))
			for i := 0; i < n; i++ {
				if !one(tv{t: val.t, v: kconst(tm.w, uint64(i))}, tv{t: val.t, v: kconst(tm.w, uint64(i))}) {
					break
				}
			}
		default:
			s.errorf("range can't iterate over %v", val.t)
		}
	}
	if n == 0 && r.ElseList != nil {
		s.walk(dot, r.ElseList)
	}
}

func (s *tmplState) pipeline(dot tv, pipe *parse.PipeNode) tv {
	if pipe == nil {
		return tv{}
	}
	s.node = pipe
	val := tv{}
	have := false
	for _, c := range pipe.Cmds {
		var final *tv
		if have {
			f := val
			final = &f
		}
		val = unwrap(s.command(dot, c, final))
		have = true
	}
	for _, d := range pipe.Decl {
		if pipe.IsAssign {
			s.set_(d.Ident[0], val)
		} else {
			s.vars = append(s.vars, tmplVar{d.Ident[0], val})
		}
	}
	return val
}

func (s *tmplState) command(dot tv, cmd *parse.CommandNode, final *tv) tv {
	first := cmd.Args[0]
	switch n := first.(type) {
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, cmd.Args, final)
	case *parse.ChainNode:
		return s.chainNode(dot, n, cmd.Args, final)
	case *parse.IdentifierNode:
		return s.function(dot, n, cmd.Args, final)
	case *parse.PipeNode:
		if len(cmd.Args) > 1 || final != nil {
			s.errorf("can't give argument to non-function %s", first)
		}
		return s.pipeline(dot, n)
	case *parse.VariableNode:
		return s.variable(dot, n, cmd.Args, final)
	}
	s.node = first
	if len(cmd.Args) > 1 || final != nil {
		s.errorf("can't give argument to non-function %s", first)
	}
	switch n := first.(type) {
	case *parse.BoolNode:
		return tv{t: types.Typ[types.Bool], v: kbool(n.True)}
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		s.errorf("nil is not a command")
	case *parse.NumberNode:
		return s.number(n)
	case *parse.StringNode:
		return tv{t: types.Typ[types.String], v: n.Text}
	}
	unsup("template: command %T", first)
	return tv{}
}

func (s *tmplState) number(n *parse.NumberNode) tv {
	switch {
	case n.IsInt:
		return tv{t: types.Typ[types.Int], v: kconst(64, uint64(n.Int64))}
	case n.IsFloat:
		return tv{t: types.Typ[types.Float64], v: fterm(64, n.Float64)}
	}
	unsup("template: number %s", n.Text)
	return tv{}
}

func (s *tmplState) chainNode(dot tv, n *parse.ChainNode, args []parse.Node, final *tv) tv {
	s.node = n
	return s.chain(dot, s.arg(dot, nil, n.Node), n.Field, args, final)
}

func (s *tmplState) variable(dot tv, n *parse.VariableNode, args []parse.Node, final *tv) tv {
	v := s.get(n.Ident[0])
	if len(n.Ident) == 1 {
		if len(args) > 1 || final != nil {
			s.errorf("can't give argument to non-function %s", n)
		}
		return v
	}
	return s.chain(dot, v, n.Ident[1:], args, final)
}

func (s *tmplState) chain(dot, recv tv, ident []string, args []parse.Node, final *tv) tv {
	for _, id := range ident[:len(ident)-1] {
		recv = s.field(dot, id, nil, nil, recv)
	}
	return s.field(dot, ident[len(ident)-1], args, final, recv)
}

func (s *tmplState) field(dot tv, name string, args []parse.Node, final *tv, recv tv) tv {
	recv = unwrap(recv)
	if !recv.valid() {
		s.errorf("nil data; no entry for key %q", name)
	}
	orig := recv.t
	pt, isPtr := recv.t.Underlying().(*types.Pointer)
	base, isNil := s.indirect(recv)
	P := s.g.p.w.e.P
	// methods, of the pointer if there is one
	if isPtr && isNil {
		if fn := P.findMethod(recv.t, nil, name); fn != nil {
			return s.callFn(dot, name, &Closure{fn: fn}, fn.Signature, []Value{recv.v}, args, final)
		}
		s.errorf("nil pointer evaluating %v.%s", orig, name)
	}
	_ = pt
	if base.addr != nil {
		q := s.g.ptrTo(base.t)
		if fn := P.findMethod(q, nil, name); fn != nil {
			return s.callFn(dot, name, &Closure{fn: fn}, fn.Signature, []Value{base.addr}, args, final)
		}
	} else if fn := P.findMethod(base.t, nil, name); fn != nil {
		return s.callFn(dot, name, &Closure{fn: fn}, fn.Signature, []Value{base.v}, args, final)
	}
	hasArgs := len(args) > 1 || final != nil
	switch t := base.t.Underlying().(type) {
	case *types.Struct:
		obj, path, _ := types.LookupFieldOrMethod(base.t, true, nil, name)
		if f, ok := obj.(*types.Var); ok && f.Exported() {
			cur := base
			for _, i := range path {
				var isNil bool
				if cur, isNil = s.indirect(cur); isNil {
					s.errorf("nil pointer evaluating %v.%s", orig, name)
				}
				st := cur.t.Underlying().(*types.Struct)
				ft := st.Field(i).Type()
				if cur.addr != nil {
					a := &(*cur.addr).(structV)[i]
					cur = tv{t: ft, v: s.g.load(ft, a), addr: a}
				} else {
					cur = tv{t: ft, v: copyVal(cur.v.(structV)[i])}
				}
			}
			if hasArgs {
				s.errorf("%s has arguments but cannot be invoked as function", name)
			}
			return unwrap(cur)
		}
	case *types.Map:
		if isString(t.Key()) {
			m, _ := base.v.(*MapV)
			if e := s.g.p.mapFind(m, t.Key(), name); e != nil {
				return unwrap(tv{t: t.Elem(), v: e.v})
			}
			return tv{t: t.Elem(), v: zeroOf(t.Elem())}
		}
	}
	s.errorf("can't evaluate field %s in type %v", name, orig)
	return tv{}
}

func (s *tmplState) function(dot tv, n *parse.IdentifierNode, args []parse.Node, final *tv) tv {
	s.node = n
	name := n.Ident
	if esc, ok := tmplEscapers[name]; ok && s.set.html {
		pkg := s.g.p.w.e.P.prog.ImportedPackage("html/template")
		fn := pkg.Func(esc)
		if fn == nil {
			unsup("template: escaper %s", name)
		}
		return s.callFn(dot, name, &Closure{fn: fn}, fn.Signature, nil, args, final)
	}
	if f, ok := s.set.funcs[name]; ok {
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			unsup("template: function %s of type %v", name, f.t)
		}
		return s.callFn(dot, name, f.v.(*Closure), sig, nil, args, final)
	}
	return s.builtin(dot, name, args, final)
}

// callFn calls a function with the evaluated arguments.
func (s *tmplState) callFn(dot tv, name string, c *Closure, sig *types.Signature, recv []Value, args []parse.Node, final *tv) tv {
	if len(args) > 0 {
		args = args[1:]
	}
	n := len(args)
	if final != nil {
		n++
	}
	np := sig.Params().Len()
	fixed := np
	if sig.Variadic() {
		fixed--
		if n < fixed {
			s.errorf("wrong number of args for %s: want at least %d got %d", name, fixed, n)
		}
	} else if n != np {
		s.errorf("wrong number of args for %s: want %d got %d", name, np, n)
	}
	var elem types.Type
	if sig.Variadic() {
		elem = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
	}
	pt := func(i int) types.Type {
		if i < fixed {
			return sig.Params().At(i).Type()
		}
		return elem
	}
	var vals []Value
	for i, a := range args {
		vals = append(vals, s.arg(dot, pt(i), a).v)
	}
	if final != nil {
		vals = append(vals, s.validate(*final, pt(len(vals))).v)
	}
	call := append([]Value(nil), recv...)
	call = append(call, vals[:fixed]...)
	if sig.Variadic() {
		rest := sliceV{}
		rest = append(rest, vals[fixed:]...)
		call = append(call, rest)
	}
	res := s.safeCall(name, c, call)
	switch sig.Results().Len() {
	case 1:
		return unwrap(tv{t: sig.Results().At(0).Type(), v: res})
	case 2:
		r := res.(tupleV)
		if err := r[1].(Iface); err.t != nil {
			s.errorf("error calling %s: %v", name, "error")
		}
		return unwrap(tv{t: sig.Results().At(0).Type(), v: r[0]})
	}
	s.errorf("can't call method/function %q with %d results", name, sig.Results().Len())
	return tv{}
}

func (s *tmplState) safeCall(name string, c *Closure, args []Value) (res Value) {
	g := s.g
	fr, depth := g.fr, g.depth
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				g.fr, g.depth = fr, depth
				msg = g.p.panicText(tp)
			}
		}()
		res = g.callClosure(c, args)
	}()
	if msg != "" {
		s.errorf("error calling %s: %s", name, msg)
	}
	return res
}

// arg evaluates an argument for a parameter of type t (nil: anything).
func (s *tmplState) arg(dot tv, t types.Type, n parse.Node) tv {
	s.node = n
	val := func(x tv) tv {
		if t == nil {
			return x
		}
		return s.validate(x, t)
	}
	switch n := n.(type) {
	case *parse.DotNode:
		return val(dot)
	case *parse.NilNode:
		if t == nil {
			return tv{}
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			return tv{t: t, v: zeroOf(t)}
		}
		s.errorf("cannot assign nil to %v", t)
	case *parse.FieldNode:
		return val(s.chain(dot, dot, n.Ident, []parse.Node{n}, nil))
	case *parse.VariableNode:
		return val(s.variable(dot, n, nil, nil))
	case *parse.PipeNode:
		return val(s.pipeline(dot, n))
	case *parse.IdentifierNode:
		return val(s.function(dot, n, nil, nil))
	case *parse.ChainNode:
		return val(s.chainNode(dot, n, nil, nil))
	case *parse.BoolNode:
		return val(tv{t: types.Typ[types.Bool], v: kbool(n.True)})
	case *parse.StringNode:
		return val(tv{t: types.Typ[types.String], v: n.Text})
	case *parse.NumberNode:
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok {
				w, sg := basicWidth(b)
				switch {
				case b.Info()&types.IsFloat != 0 && n.IsFloat:
					return tv{t: t, v: fterm(w, n.Float64)}
				case b.Info()&types.IsInteger != 0 && sg && n.IsInt:
					return tv{t: t, v: kconst(w, uint64(n.Int64))}
				case b.Info()&types.IsInteger != 0 && !sg && n.IsUint:
					return tv{t: t, v: kconst(w, n.Uint64)}
				}
				s.errorf("expected %v; found %s", t, n)
			}
		}
		return val(s.number(n))
	}
	unsup("template: argument %T", n)
	return tv{}
}

// validate makes x fit the type t.
func (s *tmplState) validate(x tv, t types.Type) tv {
	x = unwrap(x)
	if !x.valid() {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			return tv{t: t, v: zeroOf(t)}
		}
		s.errorf("invalid value; expected %v", t)
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(x.t, it) {
			return tv{t: t, v: Iface{x.t, x.v}}
		}
		if x.addr != nil {
			if q := s.g.ptrTo(x.t); types.Implements(q, it) {
				return tv{t: t, v: Iface{q, x.addr}}
			}
		}
		s.errorf("wrong type for value; expected %v; got %v", t, x.t)
	}
	if types.AssignableTo(x.t, t) {
		return tv{t: t, v: x.v, addr: x.addr}
	}
	if p, ok := x.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		y, isNil := s.indirect(x)
		if isNil {
			s.errorf("dereference of nil pointer of type %v", t)
		}
		return y
	}
	if x.addr != nil && types.AssignableTo(s.g.ptrTo(x.t), t) {
		return tv{t: t, v: x.addr}
	}
	s.errorf("wrong type for value; expected %v; got %v", t, x.t)
	return tv{}
}

func (s *tmplState) iface(x tv) Iface {
	x = unwrap(x)
	if !x.valid() {
		return Iface{}
	}
	return Iface{x.t, x.v}
}

func (s *tmplState) isPrintable(t types.Type) bool {
	return s.g.hasMethod(t, "Error") || s.g.hasMethod(t, "String")
}

// printed is the text of a value.
func (s *tmplState) printed(x tv) Value {
	x = unwrap(x)
	if !x.valid() {
		return "<no value>"
	}
	if _, ok := x.t.Underlying().(*types.Pointer); ok && !s.isPrintable(x.t) {
		y, isNil := s.indirect(x)
		if isNil {
			return "<nil>"
		}
		x = y
	}
	if x.addr != nil && !s.isPrintable(x.t) {
		if q := s.g.ptrTo(x.t); s.isPrintable(q) {
			return s.g.sprint(sliceV{Iface{q, x.addr}}, false)
		}
	}
	return s.g.sprint(sliceV{Iface{x.t, x.v}}, false)
}

func (s *tmplState) builtin(dot tv, name string, args []parse.Node, final *tv) tv {
	g, p := s.g, s.g.p
	if len(args) > 0 {
		args = args[1:]
	}
	boolv := func(t *Term) tv { return tv{t: types.Typ[types.Bool], v: t} }
	switch name {
	case "and", "or":
		var v tv
		for i, a := range args {
			v = s.arg(dot, nil, a)
			if s.truth(v) == (name == "or") {
				return v
			}
			_ = i
		}
		if final != nil {
			v = *final
		}
		return v
	}
	var xs []tv
	for _, a := range args {
		xs = append(xs, unwrap(s.arg(dot, nil, a)))
	}
	if final != nil {
		xs = append(xs, unwrap(*final))
	}
	need := func(n int) {
		if len(xs) < n {
			s.errorf("wrong number of args for %s: want at least %d got %d", name, n, len(xs))
		}
	}
	boxed := func(from int) sliceV {
		out := sliceV{}
		for _, x := range xs[from:] {
			out = append(out, s.iface(x))
		}
		return out
	}
	str := func(v Value) tv { return tv{t: types.Typ[types.String], v: v} }
	switch name {
	case "not":
		need(1)
		return boolv(kbool(!s.truth(xs[0])))
	case "len":
		need(1)
		x, isNil := s.indirect(xs[0])
		if isNil {
			s.errorf("error calling len: len of nil pointer")
		}
		n := 0
		switch v := x.v.(type) {
		case sliceV:
			n = len(v)
		case arrayV:
			n = len(v)
		case *MapV:
			if v != nil {
				n = v.n
			}
		case string, *SymStr:
			n = strLen(v)
		default:
			s.errorf("error calling len: len of type %v", x.t)
		}
		return tv{t: types.Typ[types.Int], v: kint(n)}
	case "index":
		need(1)
		x := xs[0]
		for _, i := range xs[1:] {
			y, isNil := s.indirect(x)
			if isNil {
				s.errorf("error calling index: index of nil pointer")
			}
			switch t := y.t.Underlying().(type) {
			case *types.Slice:
				sl := y.v.(sliceV)
				it, ok := i.v.(*Term)
				if !ok {
					s.errorf("error calling index: cannot index slice/array with type %v", i.t)
				}
				if !p.branch(p.tt.Cmp(OpUlt, p.tt.Resize(it, 64, isSigned(i.t)), kint(len(sl)))) {
					s.errorf("error calling index: error calling index: index out of range")
				}
				k := int(p.concretize(it))
				x = unwrap(tv{t: t.Elem(), v: g.load(t.Elem(), &sl[k]), addr: &sl[k]})
			case *types.Map:
				m, _ := y.v.(*MapV)
				if e := p.mapFind(m, t.Key(), s.validate(i, t.Key()).v); e != nil {
					x = unwrap(tv{t: t.Elem(), v: e.v})
				} else {
					x = tv{t: t.Elem(), v: zeroOf(t.Elem())}
				}
			default:
				unsup("template: index of %v", y.t)
			}
		}
		return x
	case "print":
		return str(g.sprint(boxed(0), false))
	case "println":
		return str(g.sprint(boxed(0), true))
	case "printf":
		need(1)
		return str(g.sprintf(s.validate(xs[0], types.Typ[types.String]).v, boxed(1), nil))
	case "html", "js", "urlquery":
		fn := p.w.e.P.prog.ImportedPackage("text/template").Func(map[string]string{"html": "HTMLEscaper", "js": "JSEscaper", "urlquery": "URLQueryEscaper"}[name])
		return str(s.safeCall(name, &Closure{fn: fn}, []Value{boxed(0)}))
	case "eq":
		need(2)
		for _, y := range xs[1:] {
			if p.branch(s.equal(xs[0], y)) {
				return boolv(gTrue)
			}
		}
		return boolv(gFalse)
	case "ne":
		need(2)
		return boolv(p.tt.Not(s.equal(xs[0], xs[1])))
	case "lt":
		need(2)
		return boolv(s.less(xs[0], xs[1]))
	case "gt":
		need(2)
		return boolv(s.less(xs[1], xs[0]))
	case "le":
		need(2)
		return boolv(p.tt.Or(s.less(xs[0], xs[1]), s.equal(xs[0], xs[1])))
	case "ge":
		need(2)
		return boolv(p.tt.Or(s.less(xs[1], xs[0]), s.equal(xs[0], xs[1])))
	}
	unsup("template: function %s", name)
	return tv{}
}

func (s *tmplState) equal(a, b tv) *Term {
	p := s.g.p
	if !a.valid() || !b.valid() {
		return kbool(a.valid() == b.valid())
	}
	ab, ok1 := a.t.Underlying().(*types.Basic)
	bb, ok2 := b.t.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		if types.Identical(a.t, b.t) && types.Comparable(a.t) {
			return p.valEq(a.t, a.v, b.v)
		}
		s.errorf("error calling eq: incompatible types for comparison")
	}
	if isString(ab) != isString(bb) {
		s.errorf("error calling eq: incompatible types for comparison")
	}
	if isString(ab) {
		return p.strEq(a.v, b.v)
	}
	x, y := a.v.(*Term), b.v.(*Term)
	if isFloat(ab) != isFloat(bb) || x.w != y.w && (x.w == 0 || y.w == 0) {
		s.errorf("error calling eq: incompatible types for comparison")
	}
	if isFloat(ab) {
		return p.floatCmp("==", x, y)
	}
	if x.w == 0 {
		return p.tt.Eq(x, y)
	}
	return p.tt.Eq(p.tt.Resize(x, 64, isSigned(ab)), p.tt.Resize(y, 64, isSigned(bb)))
}

func (s *tmplState) less(a, b tv) *Term {
	p := s.g.p
	if a.valid() && b.valid() {
		ab, ok1 := a.t.Underlying().(*types.Basic)
		bb, ok2 := b.t.Underlying().(*types.Basic)
		if ok1 && ok2 {
			switch {
			case isString(ab) && isString(bb):
				return p.strLess(a.v, b.v)
			case isFloat(ab) && isFloat(bb):
				return p.floatCmp("<", a.v.(*Term), b.v.(*Term))
			case ab.Info()&types.IsInteger != 0 && bb.Info()&types.IsInteger != 0:
				if isSigned(ab) && isSigned(bb) {
					return p.tt.Cmp(OpSlt, p.tt.Resize(a.v.(*Term), 64, true), p.tt.Resize(b.v.(*Term), 64, true))
				}
				unsup("template: comparison of unsigned numbers")
			}
		}
	}
	s.errorf("error calling lt: incompatible types for comparison")
	return nil
}

// ---- the packages' functions ----

func getTmpl(g *G, v Value) *tmplRef {
	s := g.deref(v)
	n, ok := (*s).(*Native)
	if !ok || n.kind != "template" {
		unsup("template value")
	}
	return n.x.(*tmplRef)
}

func newTmpl(set *tmplSet, name string) *Value {
	slot := new(Value)
	*slot = &Native{"template", &tmplRef{set, name}}
	return slot
}

func (s *tmplSet) add(name, text string) {
	for i := range s.srcs {
		if s.srcs[i].name == name {
			s.srcs = append(append([]tmplSrc(nil), s.srcs[:i]...), s.srcs[i+1:]...)
			break
		}
	}
	s.srcs = append(s.srcs, tmplSrc{name, text})
}

// fsFiles lists the files of a file system value: an embed.FS of the module.
func (g *G) fsFiles(v Iface, patterns sliceV) []tmplSrc {
	if v.t == nil || types.TypeString(v.t, nil) != "embed.FS" {
		unsup("templates from %v", v.t)
	}
	st, ok := v.v.(structV)
	if !ok || len(st) == 0 {
		unsup("embed.FS")
	}
	slot, _ := st[0].(*Value)
	if slot == nil {
		return nil
	}
	n, ok := (*slot).(*Native)
	if !ok {
		unsup("embed.FS")
	}
	var out []tmplSrc
	for _, pat := range patterns {
		for _, f := range n.x.([]tmplSrc) {
			if ok, _ := path.Match(g.concreteStr(pat), f.name); ok {
				out = append(out, f)
			}
		}
	}
	return out
}

// embedValue is the initial value of an embed.FS variable.
func (P *Program) embedValue(pkg string) Value {
	files := P.embeds[pkg]
	if len(files) == 0 {
		return structV{(*Value)(nil)}
	}
	var srcs []tmplSrc
	dir := filepath.Dir(files[0])
	for _, f := range files { // the directory of the package is the shortest
		if d := filepath.Dir(f); len(d) < len(dir) {
			dir = d
		}
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(dir, f)
		srcs = append(srcs, tmplSrc{rel, string(b)})
	}
	sort.Slice(srcs, func(i, j int) bool { return srcs[i].name < srcs[j].name })
	slot := new(Value)
	*slot = &Native{"embedfs", srcs}
	return structV{slot}
}

func (g *G) execTemplate(r *tmplRef, w Iface, data Iface) (err Value) {
	tt := r.set.build(r.name)
	if tt.err != "" {
		return g.newError(tt.err)
	}
	tree := tt.trees[r.name]
	if tree == nil {
		return g.newError(fmt.Sprintf("template: %q is an incomplete or empty template", r.name))
	}
	s := &tmplState{g: g, set: r.set, trees: tt.trees, name: r.name}
	d := unwrap(tv{t: types.NewInterfaceType(nil, nil), v: data})
	s.vars = []tmplVar{{"$", d}}
	var failed Value
	func() {
		defer func() {
			if x := recover(); x != nil {
				e, ok := x.(tmplErr)
				if !ok {
					panic(x)
				}
				failed = e.msg
			}
		}()
		s.walk(d, tree.Root)
	}()
	// what was produced before an error has been written
	res := g.callMethod(w, "Write", strToBytes(s.out.value())).(tupleV)
	if failed != nil {
		return g.newError(failed)
	}
	if e := res[1].(Iface); e.t != nil {
		return e
	}
	return Iface{}
}

func init() {
	for _, pkg := range []string{"html/template", "text/template"} {
		html := pkg == "html/template"
		m := func(name string, f func(g *G, fn *ssa.Function, a []Value) Value) {
			reg("(*"+pkg+".Template)."+name, f)
		}
		reg(pkg+".New", func(g *G, fn *ssa.Function, a []Value) Value {
			return newTmpl(&tmplSet{html: html, funcs: map[string]Iface{}}, g.concreteStr(a[0]))
		})
		m("New", func(g *G, fn *ssa.Function, a []Value) Value {
			return newTmpl(getTmpl(g, a[0]).set, g.concreteStr(a[1]))
		})
		m("Name", func(g *G, fn *ssa.Function, a []Value) Value { return getTmpl(g, a[0]).name })
		m("Funcs", func(g *G, fn *ssa.Function, a []Value) Value {
			set := getTmpl(g, a[0]).set
			if m, _ := a[1].(*MapV); m != nil {
				for _, e := range m.entries {
					if !e.deleted {
						set.funcs[g.concreteStr(e.k)] = e.v.(Iface)
					}
				}
			}
			return a[0]
		})
		parsed := func(g *G, v Value, set *tmplSet) Value {
			if tt := set.build(""); tt.err != "" {
				return tupleV{(*Value)(nil), g.newError(tt.err)}
			}
			return tupleV{v, Iface{}}
		}
		m("Parse", func(g *G, fn *ssa.Function, a []Value) Value {
			r := getTmpl(g, a[0])
			r.set.add(r.name, g.concreteStr(a[1]))
			return parsed(g, a[0], r.set)
		})
		m("ParseFS", func(g *G, fn *ssa.Function, a []Value) Value {
			r := getTmpl(g, a[0])
			fs := g.fsFiles(a[1].(Iface), a[2].(sliceV))
			if len(fs) == 0 {
				return tupleV{(*Value)(nil), g.newError("template: pattern matches no files")}
			}
			for _, f := range fs {
				r.set.add(path.Base(f.name), f.text)
			}
			return parsed(g, a[0], r.set)
		})
		reg(pkg+".ParseFS", func(g *G, fn *ssa.Function, a []Value) Value {
			set := &tmplSet{html: html, funcs: map[string]Iface{}}
			fs := g.fsFiles(a[0].(Iface), a[1].(sliceV))
			if len(fs) == 0 {
				return tupleV{(*Value)(nil), g.newError("template: pattern matches no files")}
			}
			for _, f := range fs {
				set.add(path.Base(f.name), f.text)
			}
			return parsed(g, newTmpl(set, path.Base(fs[0].name)), set)
		})
		m("Lookup", func(g *G, fn *ssa.Function, a []Value) Value {
			r := getTmpl(g, a[0])
			name := g.concreteStr(a[1])
			if tt := r.set.build(""); tt.err == "" {
				if _, ok := tt.trees[name]; ok {
					return newTmpl(r.set, name)
				}
			}
			return (*Value)(nil)
		})
		m("Templates", func(g *G, fn *ssa.Function, a []Value) Value {
			r := getTmpl(g, a[0])
			out := sliceV{}
			for _, s := range r.set.srcs {
				out = append(out, newTmpl(r.set, s.name))
			}
			return out
		})
		m("Clone", func(g *G, fn *ssa.Function, a []Value) Value {
			r := getTmpl(g, a[0])
			set := &tmplSet{html: html, funcs: map[string]Iface{}, srcs: append([]tmplSrc(nil), r.set.srcs...)}
			for k, v := range r.set.funcs {
				set.funcs[k] = v
			}
			return tupleV{newTmpl(set, r.name), Iface{}}
		})
		m("Execute", func(g *G, fn *ssa.Function, a []Value) Value {
			return g.execTemplate(getTmpl(g, a[0]), a[1].(Iface), a[2].(Iface))
		})
		m("ExecuteTemplate", func(g *G, fn *ssa.Function, a []Value) Value {
			return g.execTemplate(&tmplRef{getTmpl(g, a[0]).set, g.concreteStr(a[2])}, a[1].(Iface), a[3].(Iface))
		})
	}
	// what these do by reflection
	deref := func(stop bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface)
			for x.t != nil {
				if stop && (g.hasMethod(x.t, "String") || g.hasMethod(x.t, "Error")) {
					break
				}
				pt, ok := x.t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				q, _ := x.v.(*Value)
				if q == nil {
					break
				}
				x = Iface{pt.Elem(), g.load(pt.Elem(), q)}
			}
			return x
		}
	}
	reg("html/template.indirect", deref(false))
	reg("html/template.indirectToStringerOrError", deref(true))
	reg("html/template.indirectToJSONMarshaler", deref(false))
	reg("text/template.evalArgs", func(g *G, fn *ssa.Function, a []Value) Value { return g.sprint(a[0].(sliceV), false) })
	reg("crypto/sha256.Sum256", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.concreteStr(bytesToStr(a[0].(sliceV)))
		h := sha256.Sum256([]byte(s))
		out := make(arrayV, len(h))
		for i, b := range h {
			out[i] = gBytes[b]
		}
		return out
	})
	reg("os.Stat", func(g *G, fn *ssa.Function, a []Value) Value {
		return tupleV{Iface{}, g.newError("no such file or directory")}
	})
}
