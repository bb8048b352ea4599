package main

import (
	"encoding/binary"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- ulid ----
//
// IDs are concrete and, for the default (locked, monotonic) entropy, strictly
// increasing in creation order as long as the millisecond timestamp does not
// decrease, which is ulid's contract.

type ulidState struct {
	seq    uint64
	lastMS *Term
	nilIDs []ulidNil
	race   Value
}
type ulidNil struct {
	ms *Term
	id arrayV
}

func (g *G) ulidSt() *ulidState {
	s, _ := g.p.extra["ulid"].(*ulidState)
	if s == nil {
		s = &ulidState{seq: 1 << 40}
		g.p.extra["ulid"] = s
	}
	return s
}

func ulidBytes(hi uint64) arrayV {
	var b [16]byte
	binary.BigEndian.PutUint64(b[2:], hi)
	b[0] = 1
	a := make(arrayV, 16)
	for i := range a {
		a[i] = gBytes[b[i]]
	}
	return a
}

func (g *G) ulidNew(ms *Term, entropy Iface) Value {
	p := g.p
	st := g.ulidSt()
	kind := "nil"
	if entropy.t != nil {
		switch goTypeName(entropy.t) {
		case "*ulid.LockedMonotonicReader":
			kind = "locked"
		case "*ulid.MonotonicEntropy":
			kind = "mono"
		default:
			kind = "random"
		}
	}
	switch kind {
	case "nil":
		for _, x := range st.nilIDs {
			if p.branch(p.tt.Eq(x.ms, ms)) {
				return copyVal(x.id)
			}
		}
	case "mono":
		if p.sched.conc {
			p.sched.accessLeaf(g, g.deref(entropy.v), true)
		}
	case "random":
		// unordered within one millisecond
		st.seq += 1 << 20
		if st.lastMS != nil && p.branch(p.tt.Eq(st.lastMS, ms)) {
			if p.chooseSym("entropy", 2) == 1 {
				st.lastMS = ms
				st.seq++
				return ulidBytes(st.seq - (1 << 21))
			}
		}
		st.lastMS = ms
		return ulidBytes(st.seq)
	}
	back := func() bool {
		// x/c < y/c needs x < y, which is far cheaper to refute
		x, y := ms, st.lastMS
		if x.op == y.op && (x.op == OpUDiv || x.op == OpSDiv) && x.a[1] == y.a[1] {
			if !p.branch(p.tt.Cmp(OpSlt, x.a[0], y.a[0])) {
				return false
			}
		}
		return p.branch(p.tt.Cmp(OpUlt, ms, st.lastMS))
	}
	if st.lastMS != nil && back() {
		// the timestamp went backwards: the ID sorts before the previous one
		st.seq++
		st.lastMS = ms
		return ulidBytes(st.seq - (1 << 39))
	}
	st.lastMS = ms
	st.seq += 1 << 10
	id := ulidBytes(st.seq)
	if kind == "nil" {
		st.nilIDs = append(st.nilIDs, ulidNil{ms, id})
	}
	return copyVal(id)
}

const crock = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"

func ulidString(b []byte) string {
	// 128 bits, 26 chars of 5 bits, the first holding the top 3
	var out [26]byte
	var hi, lo uint64
	hi = binary.BigEndian.Uint64(b[:8])
	lo = binary.BigEndian.Uint64(b[8:])
	for i := 25; i >= 0; i-- {
		out[i] = crock[lo&31]
		lo = lo>>5 | hi<<59
		hi >>= 5
	}
	return string(out[:])
}

const ulidPkg = "github.com/oklog/ulid/v2"

func init() {
	reg(ulidPkg+".DefaultEntropy", func(g *G, fn *ssa.Function, a []Value) Value {
		slot := new(Value)
		*slot = &Native{kind: "entropy"}
		return Iface{types.NewPointer(fn.Pkg.Type("LockedMonotonicReader").Type()), slot}
	})
	reg(ulidPkg+".Monotonic", func(g *G, fn *ssa.Function, a []Value) Value {
		slot := new(Value)
		*slot = &Native{kind: "entropy"}
		return slot
	})
	reg(ulidPkg+".MustNew", func(g *G, fn *ssa.Function, a []Value) Value { return g.ulidNew(a[0].(*Term), a[1].(Iface)) })
	reg(ulidPkg+".New", func(g *G, fn *ssa.Function, a []Value) Value {
		return tupleV{g.ulidNew(a[0].(*Term), a[1].(Iface)), Iface{}}
	})
	reg(ulidPkg+".Make", func(g *G, fn *ssa.Function, a []Value) Value {
		ms := g.p.tt.Bin(OpUDiv, extOf(g.timeNow()), kconst(64, 1_000_000))
		slot := new(Value)
		*slot = &Native{kind: "entropy"}
		return g.ulidNew(ms, Iface{types.NewPointer(fn.Pkg.Type("LockedMonotonicReader").Type()), slot})
	})
	reg(ulidPkg+".Timestamp", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.p.tt.Bin(OpUDiv, extOf(a[0]), kconst(64, 1_000_000))
	})
	reg("("+ulidPkg+".ULID).String", func(g *G, fn *ssa.Function, a []Value) Value {
		b := make([]byte, 16)
		for i, x := range a[0].(arrayV) {
			b[i] = byte(g.p.concretize(x.(*Term)))
		}
		return ulidString(b)
	})

	// runtime bits reached from std code
	regs(func(g *G, fn *ssa.Function, a []Value) Value { return nil },
		"runtime.procyield", "sync.runtime_registerPoolCleanup", "internal/testlog.Getenv", "internal/testlog.Open", "internal/testlog.Stat")
	regs(func(g *G, fn *ssa.Function, a []Value) Value { unsup("randomness"); return nil },
		"math/rand.Seed", "math/rand.runtime_rand", "math/rand/v2.runtime_rand", "crypto/rand.Read", "internal/runtime/maps.rand")
}

func init() {
	reg("context.WithValue", func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			g.goPanic("cannot create context from nil parent")
		}
		if a[1].(Iface).t == nil {
			g.goPanic("nil key")
		}
		T := fn.Pkg.Type("valueCtx").Type()
		var slot Value = structV{a[0], a[1], a[2]}
		return Iface{g.ptrTo(T), &slot}
	})
}

// ptrTo returns the (canonical) pointer type.
func (g *G) ptrTo(t types.Type) types.Type {
	p := g.p.w.e.P
	p.ptrMu.Lock()
	defer p.ptrMu.Unlock()
	if x, ok := p.ptrs[t]; ok {
		return x
	}
	x := types.NewPointer(t)
	if p.ptrs == nil {
		p.ptrs = map[types.Type]types.Type{}
	}
	p.ptrs[t] = x
	return x
}
