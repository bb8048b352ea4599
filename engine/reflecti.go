package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A reflect.Type is modelled as a *reflect.rtype whose target names the type;
// there is one for each type, so that types compare as they should.
func (p *Path) rtype(t types.Type) *Value {
	key := types.TypeString(t, nil)
	s, ok := p.w.rtypes[key]
	if !ok {
		s = new(Value)
		*s = &Native{"rtype", t}
		p.w.rtypes[key] = s
	}
	return s
}

func rtypeOf(v Value) types.Type {
	if s, ok := v.(*Value); ok && s != nil {
		if n, ok := (*s).(*Native); ok && n.kind == "rtype" {
			return n.x.(types.Type)
		}
	}
	unsup("reflect.Type")
	return nil
}

func init() {
	reg("reflect.TypeFor", func(g *G, fn *ssa.Function, a []Value) Value {
		rt := types.NewPointer(g.p.w.e.P.prog.ImportedPackage("reflect").Type("rtype").Type())
		return Iface{rt, g.p.rtype(fn.TypeArgs()[0])}
	})
	// only made, never looked into
	reg("internal/reflectlite.TypeOf", func(g *G, fn *ssa.Function, a []Value) Value {
		return Iface{fn.Pkg.Type("rtype").Type(), &Native{"reflectlite", nil}}
	})
	reg("(internal/reflectlite.rtype).Elem", func(g *G, fn *ssa.Function, a []Value) Value {
		return Iface{fn.Pkg.Type("rtype").Type(), &Native{"reflectlite", nil}}
	})
	reg("reflect.ValueOf", func(g *G, fn *ssa.Function, a []Value) Value { return &Native{"reflectvalue", a[0]} })
	reg("reflect.TypeOf", func(g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		rt := types.NewPointer(fn.Pkg.Type("rtype").Type())
		return Iface{rt, g.p.rtype(x.t)}
	})
	qual := func(p *types.Package) string { return p.Name() }
	reg("(*reflect.rtype).String", func(g *G, fn *ssa.Function, a []Value) Value {
		return types.TypeString(rtypeOf(a[0]), qual)
	})
	reg("(*reflect.rtype).Name", func(g *G, fn *ssa.Function, a []Value) Value {
		switch t := rtypeOf(a[0]).(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	})
	reg("(*reflect.rtype).Kind", func(g *G, fn *ssa.Function, a []Value) Value {
		k := 0
		switch t := rtypeOf(a[0]).Underlying().(type) {
		case *types.Basic:
			k = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}[t.Kind()]
		case *types.Array:
			k = 17
		case *types.Chan:
			k = 18
		case *types.Signature:
			k = 19
		case *types.Interface:
			k = 20
		case *types.Map:
			k = 21
		case *types.Pointer:
			k = 22
		case *types.Slice:
			k = 23
		case *types.Struct:
			k = 25
		}
		return kconst(64, uint64(k))
	})
}
