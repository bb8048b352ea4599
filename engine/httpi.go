package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The HTTP client is modelled as one round trip of its transport: no
// redirects, cookies or client timeouts.
func init() {
	reg("(*net/http.Client).Do", func(g *G, fn *ssa.Function, a []Value) Value {
		c := (*g.deref(a[0])).(structV)
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		var rt Iface
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Transport":
				rt, _ = c[i].(Iface)
			case "CheckRedirect", "Jar":
			}
		}
		if rt.t == nil {
			rt, _ = (*g.p.global(fn.Pkg.Var("DefaultTransport"))).(Iface)
		}
		if rt.t == nil {
			unsup("the default HTTP transport")
		}
		if n, ok := rt.t.(*types.Pointer); ok {
			if nn, ok := n.Elem().(*types.Named); ok && nn.Obj().Pkg() == fn.Pkg.Pkg {
				unsup("the real HTTP transport")
			}
		}
		r := g.callMethod(rt, "RoundTrip", a[1]).(tupleV)
		if err := r[1].(Iface); err.t != nil {
			// *url.Error{Op, URL, Err}
			up := g.p.w.e.P.prog.ImportedPackage("net/url").Type("Error").Type()
			slot := new(Value)
			*slot = structV{"Get", "", err}
			return tupleV{(*Value)(nil), Iface{types.NewPointer(up), slot}}
		}
		return tupleV{r[0], Iface{}}
	})
}
