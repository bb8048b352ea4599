package main

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Queries with divisions by constants are hard for bit-blasting and easy for
// linear integer arithmetic. lia translates such a query exactly: every
// bit-vector term becomes an integer term with the term's signed value, and
// every operation whose result might leave the range of its width is wrapped
// explicitly. Operations without a linear translation make it give up, and the
// query is then decided over bit vectors.

type liaVal struct {
	e      string
	lo, hi *big.Int
}

type lia struct {
	sb   strings.Builder
	memo map[*Term]liaVal
	vars []*Term
	rng  map[*Term][2]*big.Int
	n    int
}

type liaGiveUp struct{}

func pow2(n uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func bigStr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

// hasConstDiv tells whether a term has a division that bit-blasting would find
// hard.
func hasConstDiv(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OpUDiv, OpSDiv, OpURem, OpSRem:
		if t.w >= 32 && t.a[1].isConst() && !t.a[0].isConst() {
			return true
		}
	}
	for i := 0; i < int(t.n); i++ {
		if hasConstDiv(t.a[i], seen) {
			return true
		}
	}
	return false
}

func (l *lia) def(sort, e string) string {
	l.n++
	name := fmt.Sprintf("e%d", l.n)
	fmt.Fprintf(&l.sb, "(define-fun %s () %s %s)\n", name, sort, e)
	return name
}

func (l *lia) fresh(lo, hi *big.Int) string {
	l.n++
	name := fmt.Sprintf("q%d", l.n)
	fmt.Fprintf(&l.sb, "(declare-const %s Int)\n", name)
	fmt.Fprintf(&l.sb, "(assert (<= %s %s %s))\n", bigStr(lo), name, bigStr(hi))
	return name
}

func (l *lia) wrap(e string, lo, hi *big.Int, w uint8) liaVal {
	h := pow2(w - 1)
	min, max := new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	if lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 {
		return liaVal{l.def("Int", e), lo, hi}
	}
	e = fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", e, h, pow2(w), h)
	return liaVal{l.def("Int", e), min, max}
}

// uns is the unsigned value of a term.
func (l *lia) uns(v liaVal, w uint8) liaVal {
	if v.lo.Sign() >= 0 {
		return v
	}
	m := pow2(w)
	if v.hi.Sign() < 0 {
		return liaVal{l.def("Int", fmt.Sprintf("(+ %s %s)", v.e, m)), new(big.Int).Add(v.lo, m), new(big.Int).Add(v.hi, m)}
	}
	return liaVal{l.def("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", v.e, v.e, m, v.e)), new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
}

func (l *lia) boolean(t *Term) string {
	if t.isConst() {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if v, ok := l.memo[t]; ok {
		return v.e
	}
	var e string
	switch t.op {
	case OpVar:
		e = "|" + t.name + "|"
		fmt.Fprintf(&l.sb, "(declare-const %s Bool)\n", e)
		l.vars = append(l.vars, t)
		l.memo[t] = liaVal{e: e}
		return e
	case OpNot:
		e = "(not " + l.boolean(t.a[0]) + ")"
	case OpAnd:
		e = "(and " + l.boolean(t.a[0]) + " " + l.boolean(t.a[1]) + ")"
	case OpOr:
		e = "(or " + l.boolean(t.a[0]) + " " + l.boolean(t.a[1]) + ")"
	case OpIte:
		e = "(ite " + l.boolean(t.a[0]) + " " + l.boolean(t.a[1]) + " " + l.boolean(t.a[2]) + ")"
	case OpEq:
		if t.a[0].w == 0 {
			e = "(= " + l.boolean(t.a[0]) + " " + l.boolean(t.a[1]) + ")"
		} else {
			e = "(= " + l.num(t.a[0]).e + " " + l.num(t.a[1]).e + ")"
		}
	case OpSlt, OpSle:
		op := "<"
		if t.op == OpSle {
			op = "<="
		}
		e = "(" + op + " " + l.num(t.a[0]).e + " " + l.num(t.a[1]).e + ")"
	case OpUlt, OpUle:
		op := "<"
		if t.op == OpUle {
			op = "<="
		}
		w := t.a[0].w
		e = "(" + op + " " + l.uns(l.num(t.a[0]), w).e + " " + l.uns(l.num(t.a[1]), w).e + ")"
	default:
		panic(liaGiveUp{})
	}
	e = l.def("Bool", e)
	l.memo[t] = liaVal{e: e}
	return e
}

func (l *lia) num(t *Term) liaVal {
	if t.isConst() {
		x := big.NewInt(sext(t.val, t.w))
		return liaVal{bigStr(x), x, x}
	}
	if v, ok := l.memo[t]; ok {
		return v
	}
	v := l.num1(t)
	l.memo[t] = v
	return v
}

func (l *lia) num1(t *Term) liaVal {
	h := pow2(t.w - 1)
	min, max := new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	switch t.op {
	case OpVar:
		lo, hi := min, max
		if r, ok := l.rng[t]; ok {
			if r[0] != nil && r[0].Cmp(lo) > 0 {
				lo = r[0]
			}
			if r[1] != nil && r[1].Cmp(hi) < 0 {
				hi = r[1]
			}
		}
		e := "|" + t.name + "|"
		fmt.Fprintf(&l.sb, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", e, bigStr(lo), e, bigStr(hi))
		l.vars = append(l.vars, t)
		return liaVal{e, lo, hi}
	case OpIte:
		c := l.boolean(t.a[0])
		a, b := l.num(t.a[1]), l.num(t.a[2])
		lo, hi := a.lo, a.hi
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
		return liaVal{l.def("Int", fmt.Sprintf("(ite %s %s %s)", c, a.e, b.e)), lo, hi}
	case OpAdd:
		a, b := l.num(t.a[0]), l.num(t.a[1])
		return l.wrap("(+ "+a.e+" "+b.e+")", new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi), t.w)
	case OpSub:
		a, b := l.num(t.a[0]), l.num(t.a[1])
		return l.wrap("(- "+a.e+" "+b.e+")", new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo), t.w)
	case OpNeg:
		a := l.num(t.a[0])
		return l.wrap("(- "+a.e+")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo), t.w)
	case OpMul:
		a, b := l.num(t.a[0]), l.num(t.a[1])
		if a.lo.Cmp(a.hi) == 0 {
			a, b = b, a
		}
		if b.lo.Cmp(b.hi) != 0 {
			panic(liaGiveUp{})
		}
		x, y := new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.hi, b.lo)
		if x.Cmp(y) > 0 {
			x, y = y, x
		}
		return l.wrap("(* "+a.e+" "+b.e+")", x, y, t.w)
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		if !t.a[1].isConst() || t.a[1].val == 0 {
			panic(liaGiveUp{})
		}
		a := l.num(t.a[0])
		var m *big.Int
		signed := t.op == OpSDiv || t.op == OpSRem
		if signed {
			m = big.NewInt(sext(t.a[1].val, t.w))
			if m.Sign() < 0 {
				panic(liaGiveUp{})
			}
		} else {
			a = l.uns(a, t.w)
			m = new(big.Int).SetUint64(t.a[1].val)
		}
		// |a| = q*m + r with 0 <= r < m; the sign follows the dividend
		abs, top := a.e, a.hi
		if a.lo.Sign() < 0 {
			abs = l.def("Int", fmt.Sprintf("(ite (< %s 0) (- %s) %s)", a.e, a.e, a.e))
			if n := new(big.Int).Neg(a.lo); n.Cmp(top) > 0 {
				top = n
			}
		}
		qhi := new(big.Int).Div(top, m)
		rhi := new(big.Int).Sub(m, big.NewInt(1))
		key := t.a[0]
		q := l.fresh(new(big.Int), qhi)
		r := l.fresh(new(big.Int), rhi)
		_ = key
		fmt.Fprintf(&l.sb, "(assert (= %s (+ (* %s %s) %s)))\n", abs, m, q, r)
		e, hi := q, qhi
		if t.op == OpURem || t.op == OpSRem {
			e, hi = r, rhi
		}
		if a.lo.Sign() < 0 {
			e = l.def("Int", fmt.Sprintf("(ite (< %s 0) (- %s) %s)", a.e, e, e))
			return l.wrap(e, new(big.Int).Neg(hi), hi, t.w)
		}
		return l.wrap(e, new(big.Int), hi, t.w)
	case OpZext:
		a := l.uns(l.num(t.a[0]), t.a[0].w)
		return a
	case OpSext:
		return l.num(t.a[0])
	case OpExtract:
		a := l.num(t.a[0])
		return l.wrap(a.e, a.lo, a.hi, t.w)
	case OpShl:
		if t.a[1].isConst() && t.a[1].val < uint64(t.w) {
			a := l.num(t.a[0])
			m := new(big.Int).Lsh(big.NewInt(1), uint(t.a[1].val))
			return l.wrap("(* "+a.e+" "+m.String()+")", new(big.Int).Mul(a.lo, m), new(big.Int).Mul(a.hi, m), t.w)
		}
	}
	panic(liaGiveUp{})
}

// ranges collects the bounds the path condition puts on variables.
func (l *lia) ranges(pc []*Term) {
	l.rng = map[*Term][2]*big.Int{}
	upd := func(v *Term, lo, hi *big.Int) {
		r := l.rng[v]
		if lo != nil && (r[0] == nil || lo.Cmp(r[0]) > 0) {
			r[0] = lo
		}
		if hi != nil && (r[1] == nil || hi.Cmp(r[1]) < 0) {
			r[1] = hi
		}
		l.rng[v] = r
	}
	var walk func(t *Term, neg bool)
	walk = func(t *Term, neg bool) {
		switch t.op {
		case OpNot:
			walk(t.a[0], !neg)
		case OpAnd:
			if !neg {
				walk(t.a[0], false)
				walk(t.a[1], false)
			}
		case OpOr:
			if neg {
				walk(t.a[0], true)
				walk(t.a[1], true)
			}
		case OpSlt, OpSle:
			a, b := t.a[0], t.a[1]
			strict := t.op == OpSlt
			if neg { // not a<b: b<=a; not a<=b: b<a
				a, b, strict = b, a, !strict
			}
			d := int64(0)
			if strict {
				d = 1
			}
			if a.op == OpVar && b.isConst() {
				upd(a, nil, new(big.Int).Sub(big.NewInt(sext(b.val, b.w)), big.NewInt(d)))
			}
			if b.op == OpVar && a.isConst() {
				upd(b, new(big.Int).Add(big.NewInt(sext(a.val, a.w)), big.NewInt(d)), nil)
			}
		}
	}
	for _, c := range pc {
		walk(c, false)
	}
}

// liaCheck decides a conjunction; ok is false when it has no translation or no
// answer.
func liaCheck(solver string, cs []*Term, timeoutMS int) (res Res, m Model, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(liaGiveUp); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	l := &lia{memo: map[*Term]liaVal{}}
	l.ranges(cs)
	for _, r := range l.rng {
		if r[0] != nil && r[1] != nil && r[0].Cmp(r[1]) > 0 {
			return Unsat, nil, true
		}
	}
	fmt.Fprintf(&l.sb, "(set-option :produce-models true)\n(set-option :timeout %d)\n", timeoutMS)
	for _, c := range cs {
		e := l.boolean(c)
		fmt.Fprintf(&l.sb, "(assert %s)\n", e)
	}
	l.sb.WriteString("(check-sat)\n")
	for _, v := range l.vars {
		fmt.Fprintf(&l.sb, "(eval |%s|)\n", v.name)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeoutMS)*time.Millisecond+5*time.Second)
	defer cancel()
	if p, err := exec.LookPath("z3-new"); err == nil {
		solver = p // much better at integers than the older release
	}
	cmd := exec.CommandContext(ctx, solver, "-in")
	cmd.Stdin = strings.NewReader(l.sb.String())
	t0 := time.Now()
	out, _ := cmd.Output()
	if d := time.Since(t0); dumpSlow != "" && d > 500*time.Millisecond {
		os.WriteFile(fmt.Sprintf("%s/lia%d-%dms.smt2", dumpSlow, t0.UnixNano(), d.Milliseconds()), []byte(l.sb.String()), 0o644)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	switch strings.TrimSpace(lines[0]) {
	case "unsat":
		return Unsat, nil, true
	case "sat":
	default:
		return Unknown, nil, false
	}
	if len(lines) != len(l.vars)+1 {
		return Unknown, nil, false
	}
	m = Model{}
	for i, v := range l.vars {
		s := strings.NewReplacer("(", "", ")", "", " ", "").Replace(lines[i+1])
		switch s {
		case "true":
			m[v] = 1
		case "false":
			m[v] = 0
		default:
			x, good := new(big.Int).SetString(s, 10)
			if !good {
				return Unknown, nil, false
			}
			m[v] = uint64(x.Int64()) & mask(v.w)
		}
	}
	memo := map[*Term]uint64{}
	for _, c := range cs { // the model is checked against the original terms
		if x, known := evalTerm(c, m, memo); !known || x != 1 {
			return Unknown, nil, false
		}
	}
	return Sat, m, true
}
