package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/pb33f/libopenapi"

// World is the loaded program.
type World struct {
	repo   string
	tier   string
	fset   *token.FileSet
	pkgs   []*packages.Package // repository packages, sorted
	byPath map[string]*packages.Package
	prog   *ssa.Program
	spkgs  map[*types.Package]*ssa.Package
	fns    []*ssa.Function // every function with a body from the repository, incl. closures and instances
	fnDecl map[*ssa.Function]*ast.FuncDecl

	cg *callgraph.Graph
	fl map[*ssa.Function]*Family
	cd map[*ssa.Function]*ctrlDeps

	lowAll []*Model
	lowSet map[*types.Named]bool
	impls  map[string][]*ssa.Function
}

// LoadWorld loads and type-checks the repository and builds SSA.
func LoadWorld(repo string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	w := &World{repo: repo, byPath: map[string]*packages.Package{}, spkgs: map[*types.Package]*ssa.Package{},
		fl: map[*ssa.Function]*Family{}, cd: map[*ssa.Function]*ctrlDeps{}}
	for _, p := range ps {
		if strings.HasPrefix(p.PkgPath, modPath) {
			w.pkgs = append(w.pkgs, p)
			w.byPath[p.PkgPath] = p
		}
	}
	if len(w.pkgs) < 25 {
		return nil, fmt.Errorf("only %d packages loaded", len(w.pkgs))
	}
	sort.Slice(w.pkgs, func(i, j int) bool { return w.pkgs[i].PkgPath < w.pkgs[j].PkgPath })
	w.fset = w.pkgs[0].Fset
	prog, sp := ssautil.Packages(w.pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	for _, s := range sp {
		if s != nil {
			w.spkgs[s.Pkg] = s
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		if inRepo(fn) {
			w.fns = append(w.fns, fn)
		}
	}
	sort.Slice(w.fns, func(i, j int) bool {
		a, b := w.fns[i], w.fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	theWorld, globalFnMemo = w, nil
	return w, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

// Pos formats a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.fset.Position(p)
	if rel, err := filepath.Rel(w.repo, ps.Filename); err == nil {
		return fmt.Sprintf("%s:%d", rel, ps.Line)
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// InstrPos gives the best available position for an instruction.
func (w *World) InstrPos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return w.Pos(i.Pos())
	}
	if b := i.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return w.Pos(x.Pos())
			}
		}
	}
	if i.Parent() != nil {
		return w.Pos(i.Parent().Pos())
	}
	return "-"
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := strings.TrimPrefix(p.Path(), modPath)
	s = strings.TrimPrefix(s, "/")
	if s == "" {
		s = "libopenapi"
	}
	return s
}

// FnName is a stable, line-free name for a function: pkg.(Recv).Name or pkg.Name;
// closures get the name of the outermost function.
func FnName(fn *ssa.Function) string {
	root := rootFn(fn)
	n := root.Name()
	if o := root.Origin(); o != nil {
		n = o.Name()
		root = o
	}
	pk := shortPkg(fnPkg(root))
	if rv := root.Signature.Recv(); rv != nil {
		return pk + "." + recvName(rv.Type()) + "." + n
	}
	return pk + "." + n
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// Callgraph lazily builds a VTA call graph.
func (w *World) Callgraph() *callgraph.Graph {
	if w.cg == nil {
		all := ssautil.AllFunctions(w.prog)
		w.cg = vta.CallGraph(all, cha.CallGraph(w.prog))
	}
	return w.cg
}

// Named looks up a named type by package suffix and name.
func (w *World) Named(pkg, name string) *types.Named {
	p := w.byPath[modPath+"/"+pkg]
	if pkg == "" {
		p = w.byPath[modPath]
	}
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Func looks up a package-level function.
func (w *World) Func(pkg, name string) *ssa.Function {
	path := modPath + "/" + pkg
	if pkg == "" {
		path = modPath
	}
	p := w.byPath[path]
	if p == nil {
		return nil
	}
	sp := w.spkgs[p.Types]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method looks up the method of *T or T.
func (w *World) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				f, ok := sel.Obj().(*types.Func)
				if !ok {
					continue
				}
				if fn := w.prog.FuncValue(f); fn != nil && len(fn.Blocks) > 0 && len(sel.Index()) == 1 {
					return fn
				}
			}
		}
	}
	return nil
}

// IsType reports whether t (or its pointee) is the named type pkgpath.name.
func IsType(t types.Type, pkgpath, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkgpath
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// StaticCallee resolves direct calls, calls of closures made in place and calls through a
// package-level function variable that is only ever given one function.
func StaticCallee(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil || c.IsInvoke() {
		return f
	}
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return globalFns()[g]
		}
	}
	return nil
}

var theWorld *World
var globalFnMemo map[*ssa.Global]*ssa.Function

func globalFns() map[*ssa.Global]*ssa.Function {
	if globalFnMemo != nil {
		return globalFnMemo
	}
	m, bad := map[*ssa.Global]*ssa.Function{}, map[*ssa.Global]bool{}
	note := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				f, ok := st.Val.(*ssa.Function)
				if !ok || m[g] != nil && m[g] != f {
					bad[g] = true
					continue
				}
				m[g] = f
			}
		}
	}
	for _, fn := range theWorld.fns {
		note(fn)
	}
	for _, p := range theWorld.prog.AllPackages() {
		if in := p.Func("init"); in != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
			note(in)
		}
	}
	for g := range bad {
		delete(m, g)
	}
	globalFnMemo = m
	return m
}

// calleeFull returns pkgpath + "." + [Recv.]Name for the static callee or invoked interface method.
func calleeFull(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	f := StaticCallee(c)
	if f == nil {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			return fo.FullName()
		}
	}
	return f.String()
}

func runDump(w *World, what string, args []string) {
	switch what {
	case "ssa":
		for _, fn := range w.fns {
			for _, a := range args {
				if FnName(fn) == a || strings.HasSuffix(fn.String(), a) {
					fn.WriteTo(os.Stdout)
				}
			}
		}
	case "flow":
		for _, fn := range w.fns {
			for _, a := range args {
				if FnName(fn) == a && fn.Parent() == nil {
					w.Family(fn).Dump(os.Stdout)
				}
			}
		}
	case "models":
		for _, m := range w.LowModels() {
			fmt.Println(m.Name(), len(m.Fields))
			for _, f := range m.Fields {
				fmt.Println("   ", f.Name(), types.TypeString(f.Type(), func(p *types.Package) string { return p.Name() }))
			}
		}
	}
}
