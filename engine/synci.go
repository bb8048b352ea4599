package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mutexState struct {
	locked  bool
	owner   int
	readers int
	waitW   int
	vc      []uint32
	rvc     []uint32
}

type wgState struct {
	n  int
	vc []uint32
}

type poolState struct {
	items []Value
	vcs   [][]uint32
	refs  []oref
}

type atomState struct{ vc []uint32 }

// side returns per-object engine state keyed by the object's address.
func side[T any](p *Path, kind string, a Value) *T {
	k, ok := a.(*Value)
	if !ok {
		unsup("sync object of %T", a)
	}
	if k == nil {
		p.g.rtPanic("invalid memory address or nil pointer dereference")
	}
	m, _ := p.extra[kind].(map[*Value]*T)
	if m == nil {
		m = map[*Value]*T{}
		p.extra[kind] = m
	}
	s := m[k]
	if s == nil {
		s = new(T)
		m[k] = s
	}
	return s
}

func init() {
	lock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		g.point("Lock")
		m.waitW++
		defer func() { m.waitW-- }()
		g.block("Mutex.Lock", func() bool { return !m.locked && m.readers == 0 })
		m.locked, m.owner = true, g.id
		g.lockEvent(m, true)
		g.acquire(m.vc)
		g.acquire(m.rvc)
		g.atomicAccess(a[0].(*Value), true)
		return nil
	}
	unlock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		if !m.locked {
			p := g.p
			p.flushAsserts()
			p.fail("panic", "fatal error: sync: unlock of unlocked mutex", g.where(), p.model)
		}
		m.locked = false
		g.unlockEvent(m)
		g.atomicAccess(a[0].(*Value), true)
		g.release(&m.vc)
		g.pointAfter("Unlock")
		return nil
	}
	trylock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		g.point("TryLock")
		if m.locked || m.readers > 0 {
			g.barrier()
			return gFalse
		}
		m.locked, m.owner = true, g.id
		g.lockEvent(m, true)
		g.acquire(m.vc)
		g.acquire(m.rvc)
		g.atomicAccess(a[0].(*Value), true)
		return gTrue
	}
	rlock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		g.point("RLock")
		g.block("RWMutex.RLock", func() bool { return !m.locked && m.waitW == 0 })
		m.readers++
		g.lockEvent(m, false)
		g.acquire(m.vc)
		g.atomicAccess(a[0].(*Value), true)
		return nil
	}
	tryrlock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		g.point("TryRLock")
		if m.locked || m.waitW > 0 {
			g.barrier()
			return gFalse
		}
		m.readers++
		g.lockEvent(m, false)
		g.acquire(m.vc)
		g.atomicAccess(a[0].(*Value), true)
		return gTrue
	}
	runlock := func(g *G, fn *ssa.Function, a []Value) Value {
		m := side[mutexState](g.p, "mutex", a[0])
		if m.readers == 0 {
			p := g.p
			p.flushAsserts()
			p.fail("panic", "fatal error: sync: RUnlock of unlocked RWMutex", g.where(), p.model)
		}
		m.readers--
		g.unlockEvent(m)
		g.atomicAccess(a[0].(*Value), true)
		g.release(&m.rvc)
		g.pointAfter("RUnlock")
		return nil
	}
	regs(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	regs(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	regs(trylock, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg("(*sync.RWMutex).RLock", rlock)
	reg("(*sync.RWMutex).TryRLock", tryrlock)
	reg("(*sync.RWMutex).RUnlock", runlock)

	reg("(*sync.WaitGroup).Add", func(g *G, fn *ssa.Function, a []Value) Value {
		w := side[wgState](g.p, "wg", a[0])
		g.point("WaitGroup.Add")
		g.syncOp(w, 'c')
		w.n += constInt(a[1])
		if w.n < 0 {
			g.goPanicErr("sync: negative WaitGroup counter")
		}
		g.release(&w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(g *G, fn *ssa.Function, a []Value) Value {
		w := side[wgState](g.p, "wg", a[0])
		g.point("WaitGroup.Done")
		g.syncOp(w, 'c')
		w.n--
		if w.n < 0 {
			g.goPanicErr("sync: negative WaitGroup counter")
		}
		g.release(&w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		w := side[wgState](g.p, "wg", a[0])
		g.point("WaitGroup.Wait")
		g.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		g.syncOp(w, 'r')
		g.acquire(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(g *G, fn *ssa.Function, a []Value) Value {
		w := side[wgState](g.p, "wg", a[0])
		g.syncOp(w, 'c')
		w.n++
		c := a[1].(*Closure)
		g.p.sched.spawn(g, "WaitGroup.Go", func(ng *G) {
			ng.callClosure(c, nil)
			ng.syncOp(w, 'c')
			w.n--
			ng.release(&w.vc)
		})
		return nil
	})

	reg("(*sync.Pool).Get", func(g *G, fn *ssa.Function, a []Value) Value {
		ps := side[poolState](g.p, "pool", a[0])
		g.point("Pool.Get")
		if n := len(ps.items); n > 0 {
			v := ps.items[n-1]
			ps.items = ps.items[:n-1]
			g.acquire(ps.vcs[n-1])
			ps.vcs = ps.vcs[:n-1]
			g.after(ps.refs[n-1])
			ps.refs = ps.refs[:n-1]
			return v
		}
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		nf, _ := (*g.deref(a[0])).(structV)[fieldIndex(pt, "New")].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return g.callClosure(nf, nil)
	})
	reg("(*sync.Pool).Put", func(g *G, fn *ssa.Function, a []Value) Value {
		ps := side[poolState](g.p, "pool", a[0])
		g.point("Pool.Put")
		if a[1].(Iface).t == nil {
			return nil
		}
		ps.items = append(ps.items, a[1])
		var vc []uint32
		g.release(&vc)
		ps.vcs = append(ps.vcs, vc)
		ref, _ := g.event()
		ps.refs = append(ps.refs, ref)
		return nil
	})

	// sync.Map: a locked map with atomic operations.
	smap := func(g *G, a Value) *MapV {
		m := side[MapV](g.p, "syncmap", a)
		if m.idx == nil {
			m.idx = map[any]*mapEntry{}
		}
		g.point("sync.Map")
		g.syncOp(m, 'w')
		st := side[atomState](g.p, "atomic", a)
		g.acquire(st.vc)
		g.release(&st.vc)
		return m
	}
	anyT := types.NewInterfaceType(nil, nil)
	reg("(*sync.Map).Load", func(g *G, fn *ssa.Function, a []Value) Value {
		m := smap(g, a[0])
		if e := g.p.mapFind(m, anyT, a[1]); e != nil {
			return tupleV{e.v, gTrue}
		}
		return tupleV{Iface{}, gFalse}
	})
	reg("(*sync.Map).Store", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.mapSet(smap(g, a[0]), anyT, a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(g *G, fn *ssa.Function, a []Value) Value {
		m := smap(g, a[0])
		if e := g.p.mapFind(m, anyT, a[1]); e != nil {
			return tupleV{e.v, gTrue}
		}
		g.p.mapSet(m, anyT, a[1], a[2])
		return tupleV{a[2], gFalse}
	})
	reg("(*sync.Map).LoadAndDelete", func(g *G, fn *ssa.Function, a []Value) Value {
		m := smap(g, a[0])
		if e := g.p.mapFind(m, anyT, a[1]); e != nil {
			v := e.v
			g.p.mapDelete(m, anyT, a[1])
			return tupleV{v, gTrue}
		}
		return tupleV{Iface{}, gFalse}
	})
	reg("(*sync.Map).Delete", func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.mapDelete(smap(g, a[0]), anyT, a[1])
		return nil
	})
	reg("(*sync.Map).Range", func(g *G, fn *ssa.Function, a []Value) Value {
		m := smap(g, a[0])
		for _, e := range append([]*mapEntry(nil), m.entries...) {
			if e.deleted {
				continue
			}
			if !g.p.branch(g.callClosure(a[1].(*Closure), []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})

	// Cond
	reg("(*sync.Cond).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		st := (*g.deref(a[0])).(structV)
		pt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		l := st[fieldIndex(pt, "L")].(Iface)
		c := side[condState](g.p, "cond", a[0])
		w := &condWaiter{}
		c.ws = append(c.ws, w)
		g.syncOp(c, 'w')
		g.callMethod(l, "Unlock")
		g.block("Cond.Wait", func() bool { return w.fired })
		g.syncOp(c, 'w')
		g.acquire(w.vc)
		g.callMethod(l, "Lock")
		return nil
	})
	wake := func(all bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			c := side[condState](g.p, "cond", a[0])
			g.point("Cond.Signal")
			g.syncOp(c, 'w')
			for len(c.ws) > 0 {
				w := c.ws[0]
				c.ws = c.ws[1:]
				w.fired = true
				g.release(&w.vc)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg("(*sync.Cond).Signal", wake(false))
	reg("(*sync.Cond).Broadcast", wake(true))
	reg("(*sync.copyChecker).check", func(g *G, fn *ssa.Function, a []Value) Value { return nil })

	// ---- atomics ----
	sz := map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64}
	for n, w := range sz {
		w := w
		for _, pre := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pre+"Load"+n, atomicOp("load", w))
			reg(pre+"Store"+n, atomicOp("store", w))
			reg(pre+"Add"+n, atomicOp("add", w))
			reg(pre+"Swap"+n, atomicOp("swap", w))
			reg(pre+"CompareAndSwap"+n, atomicOp("cas", w))
			reg(pre+"And"+n, atomicOp("and", w))
			reg(pre+"Or"+n, atomicOp("or", w))
		}
	}
	reg("sync/atomic.LoadPointer", atomicOp("load", 64))
	reg("sync/atomic.StorePointer", atomicOp("store", 64))
	reg("sync/atomic.SwapPointer", atomicOp("swap", 64))
	reg("sync/atomic.CompareAndSwapPointer", atomicOp("cas", 64))

	// atomic.Value is one interface-valued atomic cell.
	av := func(g *G, a Value, op string) *Value {
		v := g.deref(a)
		g.point("atomic.Value." + op)
		st := side[atomState](g.p, "atomic", a)
		g.syncOp(st, map[bool]byte{true: 'r', false: 'w'}[op == "Load"])
		g.acquire(st.vc)
		g.atomicAccess(v, op != "Load")
		if op != "Load" {
			g.release(&st.vc)
		}
		return &(*v).(structV)[0]
	}
	chk := func(g *G, op string, old, nw Iface) {
		if nw.t == nil {
			g.goPanicErr("sync/atomic: " + op + " of nil value into Value")
		}
		if old.t != nil && !types.Identical(old.t, nw.t) {
			g.goPanicErr("sync/atomic: " + op + " of inconsistently typed value into Value")
		}
	}
	reg("(*sync/atomic.Value).Load", func(g *G, fn *ssa.Function, a []Value) Value { return *av(g, a[0], "Load") })
	reg("(*sync/atomic.Value).Store", func(g *G, fn *ssa.Function, a []Value) Value {
		c := av(g, a[0], "Store")
		chk(g, "store", (*c).(Iface), a[1].(Iface))
		*c = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(g *G, fn *ssa.Function, a []Value) Value {
		c := av(g, a[0], "Swap")
		chk(g, "swap", (*c).(Iface), a[1].(Iface))
		old := *c
		*c = a[1]
		return old
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(g *G, fn *ssa.Function, a []Value) Value {
		c := av(g, a[0], "CompareAndSwap")
		chk(g, "compare and swap", (*c).(Iface), a[2].(Iface))
		if g.p.branch(g.p.ifaceEq((*c).(Iface), a[1].(Iface))) {
			*c = a[2]
			return gTrue
		}
		return gFalse
	})
}

type condState struct{ ws []*condWaiter }
type condWaiter struct {
	fired bool
	vc    []uint32
}

// pointAfter is a scheduling point after a release; acquiring operations have
// one before them already, so this only matters for code that follows without
// another synchronisation operation, which the race detector covers.
func (g *G) pointAfter(op string) {
	p := g.p
	if p.sched.conc && g.moduleCaller() {
		p.sched_ = append(p.sched_, SchedStep{g.id, op})
	}
}

func atomicOp(op string, w uint8) intrinsic {
	return func(g *G, fn *ssa.Function, a []Value) Value {
		p := g.p
		ptr := g.deref(a[0])
		// counters whose result is dropped commute with everything that does
		// not read them; scheduling before a read covers the rest
		if op != "add" || !g.resultUnused() {
			g.point("atomic." + op)
		}
		st := side[atomState](p, "atomic", a[0])
		switch {
		case op == "load":
			g.syncOp(st, 'r')
		case op == "add" && g.resultUnused():
			g.syncOp(st, 'c')
		default:
			g.syncOp(st, 'w')
		}
		g.acquire(st.vc)
		g.atomicAccess(ptr, op != "load")
		if op != "load" {
			g.release(&st.vc)
		}
		cur := *ptr
		switch op {
		case "load":
			return copyVal(cur)
		case "store":
			*ptr = a[1]
			return nil
		case "add":
			*ptr = p.tt.Bin(OpAdd, cur.(*Term), a[1].(*Term))
			return *ptr
		case "and":
			*ptr = p.tt.Bin(OpBAnd, cur.(*Term), a[1].(*Term))
			return cur
		case "or":
			*ptr = p.tt.Bin(OpBOr, cur.(*Term), a[1].(*Term))
			return cur
		case "swap":
			*ptr = a[1]
			return cur
		case "cas":
			eq := gFalse
			if t, ok := cur.(*Term); ok {
				eq = p.tt.Eq(t, a[1].(*Term))
			} else {
				eq = kbool(cur == a[1])
			}
			if p.branch(eq) {
				*ptr = a[2]
				return gTrue
			}
			return gFalse
		}
		return nil
	}
}

// resultUnused: the value of the atomic operation now executing is dropped by
// the module-level caller.
func (g *G) resultUnused() bool {
	for fr := g.fr; fr != nil; fr = fr.caller {
		if strings.HasPrefix(fr.info.name, "(*sync") || strings.HasPrefix(fr.info.name, "sync/atomic.") {
			continue
		}
		c, ok := fr.cur.(*ssa.Call)
		return ok && len(*c.Referrers()) == 0
	}
	return false
}
