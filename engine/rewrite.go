package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The native side of a replay runs the repository's own source with three
// mechanical substitutions: the clock, sync.Pool and scheduling points. They
// are made on copies, laid over the tree at build time.

type edit struct {
	off  int
	text string
	del  int
	prio int
}

const vname = "verif__"

func rewriteFile(pk *packages.Package, f *ast.File, src []byte) []byte {
	fset := pk.Fset
	info := pk.TypesInfo
	var edits []edit
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	seq := 0
	ins := func(p token.Pos, s string) { seq++; edits = append(edits, edit{off(p), s, 0, seq}) }
	repl := func(a, b token.Pos, s string) {
		seq++
		edits = append(edits, edit{off(a), s, off(b) - off(a), seq})
	}
	var stack []ast.Node
	parent := func(i int) ast.Node {
		if len(stack) < i+1 {
			return nil
		}
		return stack[len(stack)-1-i]
	}
	inBlock := func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BlockStmt, *ast.CaseClause:
			return true
		}
		return false
	}
	useTime, useSync := "", ""
	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, `"`)
		name := filepath.Base(path)
		if is.Name != nil {
			name = is.Name.Name
		}
		if path == "time" {
			useTime = name
		}
		if path == "sync" {
			useSync = name
		}
	}
	commStmt := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			ast.Inspect(c.Comm, func(m ast.Node) bool {
				if m != nil {
					commStmt[m] = true
				}
				return true
			})
		}
		return true
	})
	syncOp := func(c *ast.CallExpr) (string, bool) { // op, after
		sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr)
		if !ok {
			return "", false
		}
		fn, ok := info.Uses[sel.Sel].(*types.Func)
		if !ok || fn.Pkg() == nil {
			return "", false
		}
		recv := ""
		if r := fn.Type().(*types.Signature).Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if nt, ok := t.(*types.Named); ok {
				recv = nt.Obj().Name()
			}
		}
		low := func(n string) string {
			for _, p := range [][2]string{{"CompareAndSwap", "cas"}, {"Load", "load"}, {"Store", "store"}, {"Add", "add"}, {"Swap", "swap"}, {"And", "and"}, {"Or", "or"}} {
				if strings.HasPrefix(n, p[0]) {
					return p[1]
				}
			}
			return n
		}
		switch fn.Pkg().Path() {
		case "sync":
			switch recv {
			case "Mutex", "RWMutex":
				switch fn.Name() {
				case "Lock", "RLock", "TryLock":
					return fn.Name(), false
				case "Unlock", "RUnlock":
					return fn.Name(), true
				}
			case "Pool", "WaitGroup":
				return recv + "." + fn.Name(), false
			case "Map":
				return "sync.Map", false
			}
		case "sync/atomic":
			if recv == "Value" {
				return "atomic.Value." + fn.Name(), false
			}
			return "atomic." + low(fn.Name()), false
		}
		return "", false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					switch pn.Imported().Path() + "." + x.Sel.Name {
					case "time.Now", "time.Since", "time.Until", "time.NewTicker", "time.NewTimer", "time.After", "time.Tick":
						repl(id.Pos(), id.End(), vname)
					case "sync.Pool":
						repl(id.Pos(), id.End(), vname)
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && len(x.Args) == 1 {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					if _, d := parent(0).(*ast.DeferStmt); !d {
						ins(x.Args[0].Pos(), vname+`.At("close", `)
						ins(x.Args[0].End(), `)`)
					}
				}
			}
			if op, after := syncOp(x); op != "" {
				call := fmt.Sprintf("%s.Point(%q)", vname, op)
				switch pn := parent(0).(type) {
				case *ast.DeferStmt:
					if after {
						ins(x.Pos(), "func() { ")
						ins(x.End(), "; "+call+" }()")
					} else {
						ins(x.Pos(), "func() { "+call+"; ")
						ins(x.End(), " }()")
					}
				case *ast.GoStmt:
				case *ast.ExprStmt:
					if inBlock(parent(1)) || isComm(parent(1)) && !commStmt[pn] {
						if after {
							ins(x.End(), "; "+call)
						} else {
							ins(x.Pos(), call+"; ")
						}
					}
				default:
					if !after && !commStmt[n] {
						ins(x.Fun.Pos(), fmt.Sprintf("%s.At(%q, ", vname, op))
						ins(x.Fun.End(), ")")
					}
				}
			}
		case *ast.GoStmt:
			ins(x.Call.Fun.Pos(), vname+`.Wrap(`)
			ins(x.Call.Fun.End(), `)`)
			if inBlock(parent(0)) {
				ins(x.Pos(), vname+`.Point("go"); `)
			}
		case *ast.SendStmt:
			if !commStmt[n] {
				ins(x.Chan.Pos(), vname+`.At("send", `)
				ins(x.Chan.End(), `)`)
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !commStmt[n] {
				ins(x.X.Pos(), vname+`.At("recv", `)
				ins(x.X.End(), `)`)
			}
		case *ast.SelectStmt:
			op := "select"
			// a select with a single clause and no default compiles to a plain operation
			if len(x.Body.List) == 1 {
				switch c := x.Body.List[0].(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					op = "send"
				case nil:
					op = ""
				default:
					_ = c
					op = "recv"
				}
			}
			if op != "" && inBlock(parent(0)) {
				ins(x.Pos(), fmt.Sprintf("%s.Point(%q); ", vname, op))
			}
		}
		stack = append(stack, n)
		return true
	})
	imp := fmt.Sprintf(`; import %s "%s/internal/verif"; var _ = %s.Now`, vname, modPath, vname)
	_ = imp
	ins(f.Name.End(), fmt.Sprintf(`; import %s "%s/internal/verif"`, vname, modPath))
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].prio < edits[j].prio
	})
	var out []byte
	at := 0
	for _, e := range edits {
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.del
	}
	out = append(out, src[at:]...)
	tail := fmt.Sprintf("\nvar _ = %s.Now\n", vname)
	if useTime != "" && useTime != "_" {
		tail += fmt.Sprintf("var _ %s.Duration\n", useTime)
	}
	if useSync != "" && useSync != "_" {
		tail += fmt.Sprintf("var _ %s.Mutex\n", useSync)
	}
	return append(out, tail...)
}

func isComm(n ast.Node) bool { _, ok := n.(*ast.CommClause); return ok }

// nativeOverlay writes the rewritten sources into dir and returns the overlay.
func nativeOverlay(pkgs []*packages.Package, repo, hdir, hpkg, dir string, hs []*Harness, rewrite bool) (map[string]string, error) {
	ov := overlayFiles(repo, hdir, []string{hpkg})
	srcOf := map[string]string{}
	for dst, src := range ov {
		srcOf[dst] = src
	}
	n := 0
	var err error
	if rewrite {
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			if pk.PkgPath != modPath && !strings.HasPrefix(pk.PkgPath, modPath+"/") || strings.HasSuffix(pk.PkgPath, "/internal/verif") {
				return
			}
			for _, f := range pk.Syntax {
				name := pk.Fset.PositionFor(f.Pos(), false).Filename
				real := name
				if s, ok := srcOf[name]; ok {
					real = s
				}
				b, e := os.ReadFile(real)
				if e != nil {
					err = e
					return
				}
				n++
				out := filepath.Join(dir, fmt.Sprintf("f%03d_%s", n, filepath.Base(name)))
				if e := os.WriteFile(out, rewriteFile(pk, f, b), 0o644); e != nil {
					err = e
				}
				ov[name] = out
			}
		})
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t%q\n)\n\nfunc main() {\n\tverif.Main(map[string]func(){\n", modPath+"/internal/verifh/"+hpkg, modPath+"/internal/verif")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.Name, h.Name)
	}
	sb.WriteString("\t})\n}\n")
	m := filepath.Join(dir, "main_run.go")
	if e := os.WriteFile(m, []byte(sb.String()), 0o644); e != nil {
		err = e
	}
	ov[filepath.Join(repo, "internal", "verifrun", "main.go")] = m
	return ov, err
}
