package main

import (
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

type reObj struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

// concreteStr case-splits a string over its feasible contents.
func (g *G) concreteStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(g.p.concretize(t))
	}
	return string(out)
}

// reMatch is the symbolic result of matching s, by simulating the NFA with a
// Boolean term per state.
func (g *G) reMatch(ro *reObj, s Value) *Term {
	p := g.p
	if cs, ok := s.(string); ok && !hasTok(cs) {
		return kbool(ro.re.MatchString(cs))
	}
	if p.hasTokens(s) {
		return g.reMatchTok(ro, s)
	}
	tt := p.tt
	b := strBytes(s)
	pr := ro.prog
	matched := gFalse
	cur := map[uint32]*Term{}
	isWord := func(t *Term) *Term {
		rng := func(lo, hi byte) *Term {
			return tt.And(tt.Cmp(OpUle, gBytes[lo], t), tt.Cmp(OpUle, t, gBytes[hi]))
		}
		return tt.Or(tt.Or(rng('a', 'z'), rng('A', 'Z')), tt.Or(rng('0', '9'), tt.Eq(t, gBytes['_'])))
	}
	emptyCond := func(op syntax.EmptyOp, i int) *Term {
		c := gTrue
		if op&syntax.EmptyBeginText != 0 {
			c = tt.And(c, kbool(i == 0))
		}
		if op&syntax.EmptyEndText != 0 {
			c = tt.And(c, kbool(i == len(b)))
		}
		if op&syntax.EmptyBeginLine != 0 && i > 0 {
			c = tt.And(c, tt.Eq(b[i-1], gBytes['\n']))
		}
		if op&syntax.EmptyEndLine != 0 && i < len(b) {
			c = tt.And(c, tt.Eq(b[i], gBytes['\n']))
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			l, r := gFalse, gFalse
			if i > 0 {
				l = isWord(b[i-1])
			}
			if i < len(b) {
				r = isWord(b[i])
			}
			wb := tt.Not(tt.Eq(l, r))
			if op&syntax.EmptyWordBoundary != 0 {
				c = tt.And(c, wb)
			} else {
				c = tt.And(c, tt.Not(wb))
			}
		}
		return c
	}
	var add func(pc uint32, c *Term, i int, seen map[uint32]*Term)
	add = func(pc uint32, c *Term, i int, seen map[uint32]*Term) {
		if c.isFalse() {
			return
		}
		if old, ok := seen[pc]; ok {
			if old.isTrue() || old == c {
				return
			}
			n := tt.Or(old, c)
			if n == old {
				return
			}
			c = n
		}
		seen[pc] = c
		in := &pr.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out, c, i, seen)
			add(in.Arg, c, i, seen)
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out, c, i, seen)
		case syntax.InstEmptyWidth:
			add(in.Out, tt.And(c, emptyCond(syntax.EmptyOp(in.Arg), i)), i, seen)
		case syntax.InstMatch:
			matched = tt.Or(matched, c)
		case syntax.InstFail:
		}
	}
	for i := 0; ; i++ {
		seen := map[uint32]*Term{}
		for pc := uint32(0); int(pc) < len(pr.Inst); pc++ {
			if c, ok := cur[pc]; ok {
				add(pc, c, i, seen)
			}
		}
		add(uint32(pr.Start), gTrue, i, seen)
		if i >= len(b) {
			break
		}
		if !b[i].isConst() {
			if !p.branch(tt.Cmp(OpUlt, b[i], gBytes[0x80])) {
				unsup("regexp over non-ASCII symbolic byte")
			}
		} else if b[i].val >= 0x80 {
			unsup("regexp over mixed non-ASCII string")
		}
		next := map[uint32]*Term{}
		for pc := uint32(0); int(pc) < len(pr.Inst); pc++ {
			c, ok := seen[pc]
			if !ok {
				continue
			}
			in := &pr.Inst[pc]
			var m *Term
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if b[i].isConst() {
					m = kbool(in.MatchRune(rune(b[i].val)))
				} else {
					m = gFalse
					for lo := 0; lo < 128; {
						if !in.MatchRune(rune(lo)) {
							lo++
							continue
						}
						hi := lo
						for hi+1 < 128 && in.MatchRune(rune(hi+1)) {
							hi++
						}
						m = tt.Or(m, tt.And(tt.Cmp(OpUle, gBytes[lo], b[i]), tt.Cmp(OpUle, b[i], gBytes[hi])))
						lo = hi + 1
					}
				}
			default:
				continue
			}
			cc := tt.And(c, m)
			if cc.isFalse() {
				continue
			}
			if o, ok := next[in.Out]; ok {
				cc = tt.Or(o, cc)
			}
			next[in.Out] = cc
		}
		cur = next
	}
	return matched
}

// reMatchTok matches text containing symbolic numbers: only sound answers are
// given, for patterns whose literal cannot involve the token's characters.
func (g *G) reMatchTok(ro *reObj, s Value) *Term {
	unsup("regexp over text with symbolic numbers")
	return nil
}

func getRe(g *G, v Value) *reObj {
	n, ok := (*g.deref(v)).(*Native)
	if !ok {
		unsup("regexp object")
	}
	return n.x.(*reObj)
}

func init() {
	comp := func(g *G, expr string) (Value, error) {
		re, err := regexp.Compile(expr)
		if err != nil {
			return nil, err
		}
		rx, err := syntax.Parse(expr, syntax.Perl)
		if err != nil {
			return nil, err
		}
		pr, err := syntax.Compile(rx.Simplify())
		if err != nil {
			return nil, err
		}
		slot := new(Value)
		*slot = &Native{kind: "regexp", x: &reObj{re, pr}}
		return slot, nil
	}
	reg("regexp.Compile", func(g *G, fn *ssa.Function, a []Value) Value {
		v, err := comp(g, g.concreteStr(a[0]))
		if err != nil {
			return tupleV{(*Value)(nil), g.newError(err.Error())}
		}
		return tupleV{v, Iface{}}
	})
	reg("regexp.MustCompile", func(g *G, fn *ssa.Function, a []Value) Value {
		v, err := comp(g, g.concreteStr(a[0]))
		if err != nil {
			g.rtPanic("regexp: Compile: " + err.Error())
		}
		return v
	})
	reg("regexp.QuoteMeta", func(g *G, fn *ssa.Function, a []Value) Value { return regexp.QuoteMeta(g.concreteStr(a[0])) })
	reg("regexp.MatchString", func(g *G, fn *ssa.Function, a []Value) Value {
		v, err := comp(g, g.concreteStr(a[0]))
		if err != nil {
			return tupleV{gFalse, g.newError(err.Error())}
		}
		return tupleV{g.reMatch(getRe(g, v), a[1]), Iface{}}
	})
	reg("(*regexp.Regexp).MatchString", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.reMatch(getRe(g, a[0]), a[1])
	})
	reg("(*regexp.Regexp).Match", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.reMatch(getRe(g, a[0]), bytesToStr(a[1].(sliceV)))
	})
	reg("(*regexp.Regexp).String", func(g *G, fn *ssa.Function, a []Value) Value { return getRe(g, a[0]).re.String() })
	reg("(*regexp.Regexp).ReplaceAllString", func(g *G, fn *ssa.Function, a []Value) Value {
		return getRe(g, a[0]).re.ReplaceAllString(g.concreteStr(a[1]), g.concreteStr(a[2]))
	})
	reg("(*regexp.Regexp).FindString", func(g *G, fn *ssa.Function, a []Value) Value {
		return getRe(g, a[0]).re.FindString(g.concreteStr(a[1]))
	})
	ints := func(x []int) Value {
		if x == nil {
			return sliceV(nil)
		}
		out := make(sliceV, len(x))
		for i, n := range x {
			out[i] = kint(n)
		}
		return out
	}
	reg("(*regexp.Regexp).FindStringIndex", func(g *G, fn *ssa.Function, a []Value) Value {
		return ints(getRe(g, a[0]).re.FindStringIndex(g.concreteStr(a[1])))
	})
	strs := func(x []string) Value {
		if x == nil {
			return sliceV(nil)
		}
		out := make(sliceV, len(x))
		for i, n := range x {
			out[i] = n
		}
		return out
	}
	reg("(*regexp.Regexp).FindStringSubmatch", func(g *G, fn *ssa.Function, a []Value) Value {
		return strs(getRe(g, a[0]).re.FindStringSubmatch(g.concreteStr(a[1])))
	})
}
