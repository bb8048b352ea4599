package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/peterbourgon/trc"

// Harness is one entry point, described by its doc comment:
//
//	verif: prop=C01 preempt=2 maporder=all quick.N=3 thorough.N=5
type Harness struct {
	Name string
	Pkg  string
	Prop string
	Doc  string
	Opts map[string]string
	fn   *ssa.Function
}

// overlayFiles maps /repo paths to harness sources.
func overlayFiles(repo, hdir string, pkgs []string) map[string]string {
	out := map[string]string{}
	add := func(dir, dst string) {
		fs, _ := filepath.Glob(filepath.Join(hdir, dir, "*.go"))
		for _, f := range fs {
			out[filepath.Join(repo, dst, filepath.Base(f))] = f
		}
	}
	add("verif", "internal/verif")
	for _, p := range pkgs {
		add(p, "internal/verifh/"+p)
		if p == "cli" {
			addCommand(out, repo)
		}
	}
	return out
}

var cmdDir = struct {
	sync.Mutex
	dir string
}{}

// addCommand lays the sources of the command beside the cli harnesses: a
// package main cannot be imported, so the files are taken as they are except
// for the package clause. The entry point is the function with exec's
// signature, whatever its name.
func addCommand(out map[string]string, repo string) {
	cmdDir.Lock()
	defer cmdDir.Unlock()
	if cmdDir.dir == "" {
		cmdDir.dir, _ = os.MkdirTemp("", "gosym-cli")
	}
	clause := regexp.MustCompile(`(?m)^package main\b`)
	fs, _ := filepath.Glob(filepath.Join(repo, "cmd", "trc", "*.go"))
	entry := ""
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if fl, err := parser.ParseFile(token.NewFileSet(), f, b, 0); err == nil {
			for _, d := range fl.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && entryType(fd.Type) {
					entry = fd.Name.Name
				}
			}
		}
		loc := clause.FindIndex(b)
		if loc == nil {
			continue
		}
		b = append(append(append([]byte(nil), b[:loc[0]]...), "package cli"...), b[loc[1]:]...)
		dst := filepath.Join(cmdDir.dir, "cmd_"+filepath.Base(f))
		os.WriteFile(dst, b, 0o644)
		out[filepath.Join(repo, "internal", "verifh", "cli", "cmd_"+filepath.Base(f))] = dst
	}
	text := "package cli\n\nvar entry = " + entry + "\n"
	if entry == "" {
		text = "package cli\n\nimport (\n\t\"context\"\n\t\"io\"\n\n\t\"" + modPath + "/internal/verif\"\n)\n\n" +
			"func entry(context.Context, io.Reader, io.Writer, io.Writer, []string) error {\n\tverif.Unsupported(\"no entry point found in cmd/trc\")\n\treturn nil\n}\n"
	}
	dst := filepath.Join(cmdDir.dir, "entry.go")
	os.WriteFile(dst, []byte(text), 0o644)
	out[filepath.Join(repo, "internal", "verifh", "cli", "entry.go")] = dst
}

// entryType recognises func(context.Context, io.Reader, io.Writer, io.Writer, []string) error.
func entryType(t *ast.FuncType) bool {
	var ts []string
	for _, f := range t.Params.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ts = append(ts, types.ExprString(f.Type))
		}
	}
	if strings.Join(ts, ",") != "context.Context,io.Reader,io.Writer,io.Writer,[]string" {
		return false
	}
	return t.Results != nil && len(t.Results.List) == 1 && types.ExprString(t.Results.List[0].Type) == "error"
}

func loadProgram(repo, hdir string, hpkg string) (*Program, []*Harness, []*packages.Package, error) {
	files := overlayFiles(repo, hdir, []string{hpkg})
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, nil, err
		}
		ov[dst] = b
	}
	t0 := time.Now()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedEmbedFiles,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, modPath+"/internal/verifh/"+hpkg)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	t1 := time.Now()
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	if os.Getenv("GOSYM_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "load", t1.Sub(t0), "build", time.Since(t1))
	}
	P := &Program{prog: prog, modPath: modPath, embeds: map[string][]string{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if len(p.EmbedFiles) > 0 && strings.HasPrefix(p.PkgPath, modPath) {
			P.embeds[p.PkgPath] = p.EmbedFiles
		}
	})
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		if o := rt.Type("errorString"); o != nil {
			P.runtimeErr = o.Type()
		}
	}
	if P.runtimeErr == nil {
		P.runtimeErr = types.Typ[types.String]
	}
	var hs []*Harness
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Doc == nil || !strings.HasPrefix(fd.Name.Name, "H") {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Pkg: hpkg, Opts: map[string]string{}, fn: sp.Func(fd.Name.Name)}
				var doc []string
				for _, l := range strings.Split(fd.Doc.Text(), "\n") {
					l = strings.TrimSpace(l)
					if rest, ok := strings.CutPrefix(l, "verif:"); ok {
						for _, kv := range strings.Fields(rest) {
							k, v, _ := strings.Cut(kv, "=")
							h.Opts[k] = v
						}
					} else if l != "" {
						doc = append(doc, l)
					}
				}
				h.Prop = h.Opts["prop"]
				h.Doc = strings.Join(doc, " ")
				if h.Prop != "" {
					hs = append(hs, h)
				}
			}
		}
	}
	return P, hs, pkgs, nil
}

// opt reads an option, tier-specific first.
func (h *Harness) opt(tier, k string) (string, bool) {
	if v, ok := h.Opts[tier+"."+k]; ok {
		return v, true
	}
	v, ok := h.Opts[k]
	return v, ok
}

func (h *Harness) optInt(tier, k string, def int) int {
	if v, ok := h.opt(tier, k); ok {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return def
}

// ---- package initialisation and globals ----

func isModulePkg(p *ssa.Package) bool {
	path := p.Pkg.Path()
	first, _, _ := strings.Cut(path, "/")
	return strings.Contains(first, ".") // the module, harnesses and third-party code
}

// initModule runs the initialisers of the non-standard packages (in dependency
// order, by calling the harness package's init).
func (w *Worker) initModule(p *Path, g *G) {
	pkg := w.e.fn.Pkg
	if f := pkg.Func("init"); f != nil {
		g.call(f, nil, nil)
	}
}

// global returns the address of a package-level variable.
func (p *Path) global(gl *ssa.Global) *Value {
	w := p.w
	if isModulePkg(gl.Pkg) {
		s, ok := p.globals[gl]
		if !ok {
			s = new(Value)
			t := gl.Type().Underlying().(*types.Pointer).Elem()
			*s = zeroOf(t)
			if types.TypeString(t, nil) == "embed.FS" {
				*s = w.e.P.embedValue(gl.Pkg.Pkg.Path())
			}
			p.globals[gl] = s
		}
		return s
	}
	if w.inited[gl.Pkg] == 0 {
		w.initStd(p, gl.Pkg)
	}
	if why, ok := w.noinit[gl]; ok && w.inited[gl.Pkg] == 2 {
		unsup("%s is not initialised: %s", gl, why)
	}
	s, ok := w.std[gl]
	if !ok {
		s = new(Value)
		*s = zeroOf(gl.Type().Underlying().(*types.Pointer).Elem())
		w.std[gl] = s
	}
	return s
}

// initStd initialises a standard library package on first use of one of its
// variables. Where an initialiser needs what the engine does not model, paths that use the
// remaining variables are given up, and reported.
func (w *Worker) initStd(p *Path, pkg *ssa.Package) {
	w.inited[pkg] = 1
	f := pkg.Func("init")
	if f == nil {
		return
	}
	if skipInit[pkg.Pkg.Path()] {
		w.uninit(pkg, "initialiser not modelled")
		w.inited[pkg] = 2
		return
	}
	g := p.g
	saved := g.fr
	steps := p.steps
	conc := p.sched.conc
	p.sched.conc = false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					if os.Getenv("GOSYM_TRACE") != "" {
						fmt.Fprintln(os.Stderr, "std init", pkg.Pkg.Path(), u.msg, p.g.where())
					}
					w.uninit(pkg, u.msg)
					g.fr = saved
					return
				}
				if tp, ok := r.(targetPanic); ok {
					if os.Getenv("GOSYM_TRACE") != "" {
						fmt.Fprintln(os.Stderr, "std init panic", pkg.Pkg.Path(), p.panicText(tp), tp.where)
					}
					w.uninit(pkg, "panic")
					g.fr = saved
					return
				}
				panic(r)
			}
		}()
		g.fr = nil
		depth := g.depth
		g.call(f, nil, nil)
		g.depth = depth
	}()
	g.fr = saved
	w.inited[pkg] = 2
	p.steps = steps
	p.sched.conc = conc
}

// uninit notes the variables that the package's initialiser did not get to.
func (w *Worker) uninit(pkg *ssa.Package, why string) {
	for _, b := range pkg.Func("init").Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			gl, ok := st.Addr.(*ssa.Global)
			if !ok || gl.Pkg != pkg || strings.HasPrefix(gl.Name(), "init$") {
				continue
			}
			t := gl.Type().Underlying().(*types.Pointer).Elem()
			if n := map[string]uint64{"os.Interrupt": 2, "os.Kill": 9}[pkg.Pkg.Path()+"."+gl.Name()]; n != 0 {
				s := new(Value)
				*s = Iface{w.e.P.prog.ImportedPackage("syscall").Type("Signal").Type(), kconst(64, n)}
				w.std[gl] = s
				continue
			}
			if s := w.std[gl]; s == nil || reflect.DeepEqual(*s, zeroOf(t)) {
				w.noinit[gl] = why
			}
		}
	}
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "internal/cpu": true, "internal/godebug": true, "internal/poll": true, "crypto/tls": true}
