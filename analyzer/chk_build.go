package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: every field of a low-level object is read from its own keyword.

const lowPath = modPath + "/datamodel/low"

type labSet map[string]bool

func (s labSet) String() string {
	var o []string
	for k := range s {
		o = append(o, k)
	}
	sort.Strings(o)
	return strings.Join(o, ",")
}

// labelSlicer computes, for a value, the constant keywords handed to the calls it was
// produced by (FindKeyNode("x"), ExtractObject(ctx, "x", ...), a range over a key switch...).
type labelSlicer struct {
	w     *World
	memo  map[*ssa.Function]labSet
	busy  map[*ssa.Function]bool
	stops func(t types.Type) bool
	known map[string]bool // lower case keywords
}

func (l *labelSlicer) stop(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return l.stop(x.Elem())
	case *types.Named:
		p := x.Obj().Pkg()
		if p == nil {
			return false
		}
		switch p.Path() {
		case "context", modPath + "/index":
			return true
		}
		return l.stops != nil && l.stops(x)
	}
	return false
}

// of: the keywords in the backward slice of v.
func (l *labelSlicer) of(f *Family, v ssa.Value) labSet {
	all, out := labSet{}, labSet{}
	l.walk(f, v, all, map[ssa.Value]bool{}, 0)
	for k := range all {
		if l.known[lowWord(k)] {
			out[k] = true
		}
	}
	return out
}

func lowWord(k string) string { return strings.ToLower(strings.TrimPrefix(k, "$")) }

func (l *labelSlicer) walk(f *Family, v ssa.Value, out labSet, seen map[ssa.Value]bool, depth int) {
	if v == nil || seen[v] || depth > 60 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Parameter:
		return
	case *ssa.FreeVar:
		for _, b := range f.binds[x] {
			l.walk(f, b, out, seen, depth+1)
		}
		return
	case *ssa.Alloc:
		l.alloc(f, x, out, seen, depth)
		return
	case *ssa.MakeChan:
		for _, g := range f.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Send); ok {
						for _, c := range localVals(f, s.Chan, 0, map[ssa.Value]bool{}) {
							if c == x {
								l.walk(f, s.X, out, seen, depth+1)
							}
						}
					}
				}
			}
		}
		return
	case *ssa.Call:
		l.call(f, x.Common(), out, seen, depth)
		return
	case *ssa.MakeClosure:
		return
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			for _, c := range localVals(f, x.X, 0, map[ssa.Value]bool{}) {
				l.walk(f, c, out, seen, depth+1)
			}
			return
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && l.stop(fa.X.Type()) {
		return
	}
	for _, op := range in.Operands(nil) {
		if *op != nil {
			l.walk(f, *op, out, seen, depth+1)
		}
	}
}

func (l *labelSlicer) alloc(f *Family, a ssa.Value, out labSet, seen map[ssa.Value]bool, depth int) {
	if l.stop(a.Type()) {
		return
	}
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == a {
				l.walk(f, y.Val, out, seen, depth+1)
			}
		case *ssa.FieldAddr:
			l.alloc(f, y, out, seen, depth)
		case *ssa.IndexAddr:
			l.alloc(f, y, out, seen, depth)
		case ssa.CallInstruction:
			for _, arg := range y.Common().Args {
				if arg == a {
					l.call(f, y.Common(), out, seen, depth)
				}
			}
		case *ssa.MakeClosure:
			g, ok := y.Fn.(*ssa.Function)
			if !ok {
				continue
			}
			for i, fv := range g.FreeVars {
				if i < len(y.Bindings) && y.Bindings[i] == a {
					l.alloc(f, fv, out, seen, depth)
				}
			}
		}
	}
}

func (l *labelSlicer) call(f *Family, c *ssa.CallCommon, out labSet, seen map[ssa.Value]bool, depth int) {
	n := 0
	for _, a := range c.Args {
		for _, x := range localVals(f, a, 0, map[ssa.Value]bool{}) {
			if s, ok := constString(x); ok {
				out[s] = true
				n++
			}
		}
	}
	for _, a := range c.Args {
		if l.stop(a.Type()) {
			continue
		}
		l.walk(f, a, out, seen, depth+1)
	}
	if cal := StaticCallee(c); cal != nil && n == 0 {
		if p := fnPkg(cal); p != nil && strings.HasPrefix(p.Path(), lowPath) && len(cal.Blocks) > 0 {
			for s := range l.results(cal) {
				out[s] = true
			}
		}
	}
}

// results: keywords in the slices of what a function returns.
func (l *labelSlicer) results(fn *ssa.Function) labSet {
	if s, ok := l.memo[fn]; ok {
		return s
	}
	if l.busy[fn] {
		return nil
	}
	l.busy[fn] = true
	defer delete(l.busy, fn)
	out := labSet{}
	f := l.w.Family(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok {
				for _, r := range rt.Results {
					l.walk(f, r, out, map[ssa.Value]bool{}, 0)
				}
			}
		}
	}
	l.memo[fn] = out
	return out
}

// builderTypes: the field types the reflective model builder can fill, read from SetField.
func (w *World) builderTypes() []types.Type {
	var out []types.Type
	for _, p := range w.pkgs {
		if p.PkgPath != lowPath {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != "SetField" {
					continue
				}
				ast.Inspect(fd, func(n ast.Node) bool {
					cc, ok := n.(*ast.CaseClause)
					if !ok {
						return true
					}
					for _, e := range cc.List {
						if call, ok := e.(*ast.CallExpr); ok && len(call.Args) == 1 {
							if t := p.TypesInfo.TypeOf(call.Args[0]); t != nil {
								out = append(out, t)
							}
						}
					}
					return true
				})
			}
		}
	}
	return out
}

// keyword: the document keyword of a low-level field: the yaml name of the high-level field
// of the same name, or the field name itself.
func (w *World) keyword(m *Model, fld *types.Var) string {
	if k, ok := keywordOf[m.Name()+"."+fld.Name()]; ok {
		return k
	}
	if h := w.Named("datamodel/high/"+m.Pkg, m.N.Obj().Name()); h != nil {
		if st, ok := h.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fld.Name() {
					t := reflect.StructTag(st.Tag(i)).Get("yaml")
					if j := strings.Index(t, ","); j >= 0 {
						t = t[:j]
					}
					if t != "" && t != "-" {
						return t
					}
				}
			}
		}
	}
	return strings.ToLower(fld.Name()[:1]) + fld.Name()[1:]
}

// fields whose keyword is not their own name
var keywordOf = map[string]string{
	"arazzo.FailureAction.ComponentRef": "reference", // arazzo reusable object
	"arazzo.SuccessAction.ComponentRef": "reference",
	"arazzo.Parameter.ComponentRef":     "reference",
	"v2.Responses.Codes":                "*", // every key that is not another field's
	"v3.Responses.Codes":                "*",
}

func sameWord(a, b string) bool {
	return strings.EqualFold(strings.TrimPrefix(a, "$"), strings.TrimPrefix(b, "$"))
}

type fieldStore struct {
	fn    *ssa.Function
	in    *ssa.Store
	part  string // "", Value, KeyNode, ValueNode
	labs  labSet
	gates labSet
	sel   labSet // keywords the loop over the keys was compared equal to
	zero  bool
}

func init() {
	register("C05", "every content field of every low-level object is filled: by the reflective builder under its own name, or by an assignment whose value, key node and value node come from a lookup of that field's own keyword and of no other field's, and which no other keyword decides", checkBuild)
}

func checkBuild(w *World, r *Reporter) {
	bt := w.builderTypes()
	all := map[*types.Named]*Model{}
	for _, m := range w.AllLow() {
		all[m.N] = m
	}
	sl := &labelSlicer{w: w, memo: map[*ssa.Function]labSet{}, busy: map[*ssa.Function]bool{}, stops: func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && all[n] != nil
	}}
	sl.known = map[string]bool{}
	for _, m := range all {
		for _, fl := range m.Fields {
			sl.known[lowWord(w.keyword(m, fl))] = true
		}
	}
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, lowPath) {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if c, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasSuffix(n, "Label") && c.Val().Kind() == constant.String {
				sl.known[lowWord(constant.StringVal(c.Val()))] = true
			}
		}
	}
	owner := map[*types.Var]*Model{}
	for _, m := range all {
		for _, fl := range m.Fields {
			owner[fl] = m
		}
	}
	stores := map[*types.Var][]fieldStore{}
	handed := map[*types.Var]bool{} // fields whose address is handed to a helper
	for _, fn := range w.fns {
		if fnPkg(fn) == nil || !strings.HasPrefix(fnPkg(fn).Path(), lowPath) {
			continue
		}
		f := w.Family(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if fld := structFieldOf(fa.X.Type(), fa.Field); owner[fld] != nil && addrEscapes(fa) {
						handed[fld] = true
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				part := ""
				fld := structFieldOf(fa.X.Type(), fa.Field)
				if owner[fld] == nil {
					in, ok := fa.X.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					part = fld.Name()
					fld = structFieldOf(in.X.Type(), in.Field)
					if owner[fld] == nil {
						continue
					}
				}
				gates, sel := sl.gates(f, b)
				parts := map[string]ssa.Value{part: st.Val}
				if part == "" {
					if ps := complitParts(st.Val); len(ps) > 0 {
						parts = ps
					}
				}
				for pn, v := range parts {
					_, isC := v.(*ssa.Const)
					stores[fld] = append(stores[fld], fieldStore{fn: fn, in: st, part: pn, labs: sl.of(f, v), gates: gates, sel: sel, zero: isC})
				}
			}
		}
	}
	autoField := func(m *Model, fl *types.Var) bool {
		for _, t := range bt {
			if types.Identical(t, fl.Type()) && sameWord(fl.Name(), w.keyword(m, fl)) && fl.Name() != "Extensions" && fl.Name() != "PathItems" {
				return true
			}
		}
		return false
	}
	needs := map[*types.Named]bool{} // types with fields only the reflective builder fills
	for n, m := range all {
		for _, fl := range m.Fields {
			if autoField(m, fl) && len(stores[fl]) == 0 {
				needs[n] = true
			}
		}
	}
	w.modelThenBuild(r, all, needs)
	for _, m := range w.AllLow() {
		if m.Build != nil {
			r.Fn(FnName(m.Build))
		}
		words := map[string]*types.Var{}
		for _, fl := range m.Fields {
			words[strings.ToLower(strings.TrimPrefix(w.keyword(m, fl), "$"))] = fl
		}
		for _, fl := range m.Fields {
			key := m.Name() + "." + fl.Name()
			kw := w.keyword(m, fl)
			auto := autoField(m, fl)
			ss := stores[fl]
			if auto {
				r.OK("filled", key)
			} else if len(ss) == 0 && !handed[fl] {
				r.Bad("filled", key, w.Pos(fl.Pos()), fmt.Sprintf("nothing fills field %s of %s: the reflective builder does not know its type and no code assigns it", fl.Name(), m.Name()))
			} else {
				r.OK("filled", key)
			}
			for _, s := range ss {
				k := fmt.Sprintf("%s.%s@%s", key, s.part, FnName(s.fn))
				if fl.Name() == "Extensions" || kw == "*" {
					continue
				}
				own := false
				var foreign string
				for l := range s.sel {
					if sameWord(l, kw) {
						own = true
					} else {
						foreign = l
					}
				}
				for l := range s.labs {
					if sameWord(l, kw) {
						own = true
					} else if o := words[strings.ToLower(strings.TrimPrefix(l, "$"))]; o != nil && o != fl {
						foreign = l
					}
				}
				switch {
				case foreign != "":
					r.Bad("own-keyword", k, w.InstrPos(s.in), fmt.Sprintf("%s of field %s of %s is taken from keyword %q", nz(s.part, "the value"), fl.Name(), m.Name(), foreign))
				case own:
					r.OK("own-keyword", k)
				case len(s.labs) == 0:
					// no lookup by keyword in the slice: built by position or copied
					r.Note("no keyword: " + k)
				default:
					r.Bad("own-keyword", k, w.InstrPos(s.in), fmt.Sprintf("%s of field %s of %s is looked up under %s, not under %q", nz(s.part, "the value"), fl.Name(), m.Name(), s.labs, kw))
				}
				gf := ""
				for l := range s.gates {
					if o := words[strings.ToLower(strings.TrimPrefix(l, "$"))]; o != nil && o != fl && l != "$ref" {
						gf = l
					}
				}
				if gf != "" {
					r.Bad("own-gate", k, w.InstrPos(s.in), fmt.Sprintf("whether field %s of %s is filled depends on keyword %q", fl.Name(), m.Name(), gf))
				} else {
					r.OK("own-gate", k)
				}
			}
		}
	}
}

// gates: the keywords whose lookup decides whether block b is reached, and the keywords the
// current key has been found equal to when it is. A condition whose other side only reports an
// error is not a gate.
func (l *labelSlicer) gates(f *Family, b *ssa.BasicBlock) (labSet, labSet) {
	out, sel := labSet{}, labSet{}
	for cb := range l.w.CtrlBlocks(b) {
		iff, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.If)
		if !ok || isErrCond(iff.Cond) {
			continue
		}
		if k, eq, ok := eqConst(f, iff.Cond); ok {
			s := cb.Succs[0]
			if !eq {
				s = cb.Succs[1]
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				sel[k] = true
			}
			continue
		}
		decides := false
		for _, s := range cb.Succs {
			if !CanReachBlock(s, b, cb) && !failsOnly(s, map[*ssa.BasicBlock]bool{}) {
				decides = true
			}
		}
		if !decides {
			continue
		}
		for k := range l.of(f, iff.Cond) {
			out[k] = true
		}
	}
	return out, sel
}

// eqConst: v compares a string with a constant; eq tells whether true means equal.
func eqConst(f *Family, v ssa.Value) (string, bool, bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		op := x.Op.String()
		if op != "==" && op != "!=" {
			return "", false, false
		}
		for _, o := range []ssa.Value{x.X, x.Y} {
			if s, ok := constString(o); ok && s != "" {
				return s, op == "==", true
			}
		}
	case *ssa.Call:
		if c := x.Common().StaticCallee(); c != nil && c.Name() == "EqualFold" {
			for _, o := range x.Common().Args {
				if s, ok := constString(o); ok {
					return s, true, true
				}
			}
		}
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			s, eq, ok := eqConst(f, x.X)
			return s, !eq, ok
		}
	}
	return "", false, false
}

// failsOnly: every return reachable from b hands back an error.
func failsOnly(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		if len(rt.Results) == 0 {
			return false
		}
		last := rt.Results[len(rt.Results)-1]
		if n, ok := types.Unalias(last.Type()).(*types.Named); !ok || n.Obj().Name() != "error" {
			return false
		}
		c, isC := last.(*ssa.Const)
		return !isC || !c.IsNil()
	}
	for _, s := range b.Succs {
		if !failsOnly(s, seen) {
			return false
		}
	}
	return true
}

func nz(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// isErrCond: err == nil / err != nil.
func isErrCond(v ssa.Value) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, x := range []ssa.Value{bo.X, bo.Y} {
		if n, ok := types.Unalias(x.Type()).(*types.Named); ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
			return true
		}
	}
	return false
}

// complitParts: the parts of a reference struct built in place.
func complitParts(v ssa.Value) map[string]ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok || !isLowGeneric(u.Type()) {
		return nil
	}
	out := map[string]ssa.Value{}
	for _, rf := range *al.Referrers() {
		fa, ok := rf.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				out[structFieldOf(al.Type(), fa.Field).Name()] = st.Val
			}
		}
	}
	return out
}

// addrEscapes: the address is stored or passed on (not just loaded or written through).
func addrEscapes(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case ssa.CallInstruction:
			if c := x.Common().StaticCallee(); c == nil || c.Signature.Recv() == nil || len(x.Common().Args) == 0 || x.Common().Args[0] != a {
				return true
			}
		}
	}
	return false
}

// CanReachBlock: some path leads from a to b without passing avoid.
func CanReachBlock(a, b, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// objRoots: the objects a pointer (possibly wrapped in an interface) refers to.
func objRoots(f *Family, v ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, x := range localVals(f, v, 0, map[ssa.Value]bool{}) {
		switch y := x.(type) {
		case *ssa.MakeInterface:
			out = append(out, objRoots(f, y.X)...)
		case *ssa.TypeAssert:
			out = append(out, objRoots(f, y.X)...)
		case *ssa.ChangeInterface:
			out = append(out, objRoots(f, y.X)...)
		case *ssa.FieldAddr:
			out = append(out, y)
		case *ssa.UnOp:
			out = append(out, objRoots(f, y.X)...)
		default:
			out = append(out, x)
		}
	}
	return out
}

// modelled: the call hands the object to the reflective builder, itself or in a helper.
func (w *World) modelled(f *Family, c *ssa.CallCommon, roots map[ssa.Value]bool, depth int) bool {
	cal := StaticCallee(c)
	if cal == nil || depth > 3 {
		return false
	}
	if cal.Origin() != nil {
		cal = cal.Origin()
	}
	bm := fnPkg(cal) != nil && fnPkg(cal).Path() == lowPath && cal.Name() == "BuildModel"
	for i, a := range c.Args {
		hit := false
		for _, x := range objRoots(f, a) {
			hit = hit || roots[x]
		}
		if !hit {
			continue
		}
		if bm {
			return true
		}
		if len(cal.Blocks) == 0 || i >= len(cal.Params) || !inRepo(cal) {
			continue
		}
		cf := w.Family(cal)
		pr := map[ssa.Value]bool{cal.Params[i]: true}
		for _, b := range cal.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok && w.modelled(cf, cc.Common(), pr, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// modelThenBuild: an object is handed to the reflective builder before it is built.
func (w *World) modelThenBuild(r *Reporter, all map[*types.Named]*Model, needs map[*types.Named]bool) {
	for _, fn := range w.fns {
		if fnPkg(fn) == nil || !strings.HasPrefix(fnPkg(fn).Path(), lowPath) || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		f := w.Family(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				var recv ssa.Value
				var tn *types.Named
				if c.IsInvoke() {
					if c.Method.Name() != "Build" {
						continue
					}
					recv = c.Value
				} else {
					cal := StaticCallee(c)
					if cal == nil || cal.Name() != "Build" || cal.Signature.Recv() == nil {
						continue
					}
					recv = c.Args[0]
					tn = namedOf(cal.Signature.Recv().Type())
					if tn != nil && (all[tn] == nil || !needs[tn]) {
						continue
					}
					pr := map[ssa.Value]bool{cal.Params[0]: true}
					self := false
					for _, cb := range cal.Blocks {
						for _, cin := range cb.Instrs {
							if cc, ok := cin.(ssa.CallInstruction); ok && w.modelled(w.Family(cal), cc.Common(), pr, 1) {
								self = true
							}
						}
					}
					if self {
						continue
					}
				}
				name := "the object"
				if tn != nil {
					name = shortPkg(tn.Obj().Pkg()) + "." + tn.Obj().Name()
				}
				key := fmt.Sprintf("%s in %s", name, FnName(fn))
				roots := map[ssa.Value]bool{}
				for _, x := range objRoots(f, recv) {
					roots[x] = true
				}
				w2 := func(x ssa.Instruction) bool {
					cc, ok := x.(ssa.CallInstruction)
					return ok && w.modelled(f, cc.Common(), roots, 0)
				}
				ok = false
				done := false
				if entry := fn.Blocks[0].Instrs[0]; !w2(entry) {
					done, _ = CanReach(entry, func(x ssa.Instruction) bool { return x == in }, w2)
				}
				ok = !done
				if !ok && tn != nil && rootFn(fn) != nil && w.modelsType(rootFn(fn), tn) {
					// a later pass over the objects an earlier loop of the function modelled
					ok = fromParam(roots)
				}
				if ok {
					r.OK("model-then-build", key)
				} else {
					r.Bad("model-then-build", key, w.InstrPos(in), fmt.Sprintf("%s is built in %s without having been handed to BuildModel first: its plain fields stay empty", name, FnName(fn)))
				}
			}
		}
	}
	r.Min("model-then-build", 12)
	r.Min("filled", 400)
	r.Min("own-keyword", 300)
	r.Min("own-gate", 300)
}

// modelsType: fn hands every object of type t it creates to the reflective builder.
func (w *World) modelsType(fn *ssa.Function, t *types.Named) bool {
	f := w.Family(fn)
	found := false
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || namedOf(al.Type()) != t || !al.Heap {
					continue
				}
				roots := map[ssa.Value]bool{al: true}
				hit := false
				for _, b2 := range g.Blocks {
					for _, in2 := range b2.Instrs {
						if cc, ok := in2.(ssa.CallInstruction); ok && w.modelled(f, cc.Common(), roots, 0) {
							hit = true
						}
					}
				}
				if !hit {
					return false
				}
				found = true
			}
		}
	}
	return found
}

// fromParam: none of the roots is an object created here.
func fromParam(roots map[ssa.Value]bool) bool {
	for v := range roots {
		if al, ok := v.(*ssa.Alloc); ok && !isLowGeneric(al.Type().Underlying().(*types.Pointer).Elem()) {
			return false
		}
	}
	return true
}
