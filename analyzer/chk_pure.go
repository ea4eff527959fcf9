package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C13", "unchanged", checkPure) }

// queryName: exported functions and methods that answer a question about what they are given.
var queryName = regexp.MustCompile(`^(Get|Dive|Run|Is|Has|Find|Count|Hash|Compare|Render|Marshal|Total|Search|Look|Equal|Are|To[A-Z]|String$|First|From|Len|Detect|YAML|Convert|Generate|Validate|Schema$|Summar|Origin|Go[A-Z]|Keys|Values|Line|Version|Serialize|Describe)`)

// working: building, opening and indexing make new objects and fill them in; they are commands, and what is
// built lazily is built by them.
var working = regexp.MustCompile(`^(Build|build|New|new|Open|open|Index|index|Create|ExtractRefs|ExtractExternal|ExtractComponents)`)

// memoFields: what a question may fill in, because it only keeps what any later question would work out again.
var memoFields = map[string]string{
	"datamodel/high/base.SchemaProxy.rendered":            "the schema built from the proxy, kept under the lock of the proxy",
	"datamodel/high/base.SchemaProxy.buildError":          "the error of building it, kept under the lock of the proxy",
	"datamodel/low/base.SchemaProxy.buildError":           "kept by the one-time build",
	"datamodel/low/base.SchemaProxy.cachedHash":           "the hash, kept under a lock",
	"index.LocalFile.parsed":                              "the parsed content, kept under a lock",
	"index.RemoteFile.parsed":                             "the parsed content, kept under a lock",
	"index.SpecIndex.root":                                "the root of an index that has none yet",
	"index.Rolodex.debouncedIgnoredCircRefs":              "unique results, kept under a lock",
	"index.Rolodex.debouncedSafeCircRefs":                 "unique results, kept under a lock",
	"index.Rolodex.safeCircularReferences":                "collected from the indexes when nobody has checked yet, kept under a lock",
	"index.Rolodex.indexWaits":                            "who waits for whom while files are fetched",
	"index.Resolver.indexesVisited":                       "statistics",
	"index.SpecIndex.allComponentSchemas":                 "a copy of the definitions, kept under a lock",
	"index.SpecIndex.legacyNodeMap":                       "a view of the node lines, kept under a lock",
	"index.SpecIndexConfig.id":                            "the identity is drawn when first asked for",
	"index.SpecIndex.pathCount":                           "count",
	"index.SpecIndex.operationCount":                      "count",
	"index.SpecIndex.operationTagsCount":                  "count",
	"index.SpecIndex.totalTagsCount":                      "count",
	"index.SpecIndex.globalTagsCount":                     "count",
	"index.SpecIndex.globalLinksCount":                    "count",
	"index.SpecIndex.globalCallbacksCount":                "count",
	"index.SpecIndex.operationParamCount":                 "count",
	"index.SpecIndex.componentParamCount":                 "count",
	"index.SpecIndex.schemaCount":                         "count",
	"index.SpecIndex.componentsCounted":                   "the components are counted once",
	"index.SpecIndex.componentsInlineParamUniqueCount":    "count",
	"index.SpecIndex.componentsInlineParamDuplicateCount": "count",
}

// commands: functions with the name of a question that are asked to change what they get.
var commands = map[string]string{
	"index.SpecIndex.GetPathCount":                "part of building an index, which counts once and keeps what it finds on the way",
	"index.SpecIndex.GetOperationCount":           "as above",
	"index.SpecIndex.GetComponentSchemaCount":     "as above",
	"index.SpecIndex.GetComponentParameterCount":  "as above",
	"index.SpecIndex.GetGlobalTagsCount":          "as above",
	"index.SpecIndex.GetOperationsParameterCount": "as above",
	"index.SpecIndex.GetGlobalCallbacksCount":     "as above",
	"index.SpecIndex.GetGlobalLinksCount":         "as above",
	"utils.CheckForMergeNodes":                    "documented to expand merge keys in place, called while building",
}

// madeNew: functions whose result is a tree of new nodes.
var madeNew = map[string]bool{
	"datamodel/high.NodeBuilder.Render": true,
	"utils.CloneYAMLNode":               true,
	"utils.CloneYAMLNodeWithFlags":      true,
}

// ofDocument: types that a document, its model or its index consists of.
func ofDocument(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.Contains(p, "go.yaml.in/yaml") {
		return n.Obj().Name() == "Node"
	}
	if p == modPath && n.Obj().Name() == "document" {
		return true
	}
	if !n.Obj().Exported() || !strings.HasPrefix(p, modPath) {
		return false
	}
	s := strings.TrimPrefix(p, modPath+"/")
	switch n.Obj().Name() {
	case "NodeBuilder", "NodeOrigin", "InlineRenderContext":
		return false
	}
	return strings.HasPrefix(s, "datamodel") || s == "index" || s == "orderedmap"
}

type pureAn struct {
	w    *World
	in   map[*ssa.Function]*ssa.Function // function -> the one it is reached from
	memo map[*ssa.Parameter]int          // 1 in progress or fresh, 2 not fresh
	args []pureFrame                     // the calls being looked into
}

type pureFrame struct {
	fn *ssa.Function
	c  *ssa.CallCommon
}

func checkPure(w *World, r *Reporter) {
	a := &pureAn{w: w, in: map[*ssa.Function]*ssa.Function{}, memo: map[*ssa.Parameter]int{}}
	cg := w.Callgraph()
	var q []*ssa.Function
	roots := 0
	for _, fn := range w.fns {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && queryName.MatchString(fn.Name()) && commands[FnName(fn)] == "" && !working.MatchString(fn.Name()) {
			a.in[fn] = fn
			q = append(q, fn)
			roots++
		}
	}
	for len(q) > 0 {
		fn := q[0]
		q = q[1:]
		add := func(g *ssa.Function) {
			if g != nil && inRepo(g) && len(g.Blocks) > 0 && a.in[g] == nil && !working.MatchString(g.Name()) && commands[FnName(g)] == "" {
				a.in[g] = fn
				q = append(q, g)
			}
		}
		if n := cg.Nodes[fn]; n != nil {
			for _, e := range n.Out {
				// a function value is followed where it is made, not wherever a value of its type is called
				if e.Site != nil && (e.Site.Common().IsInvoke() || e.Site.Common().StaticCallee() != nil) {
					add(e.Callee.Func)
				}
			}
		}
		for _, f := range fn.AnonFuncs {
			add(f)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
	}
	type bad struct{ pos, msg string }
	bads := map[string]bad{}
	oks := map[string]bool{}
	for _, fn := range w.fns {
		if a.in[fn] == nil {
			continue
		}
		r.Fn(FnName(fn))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, wr := range writesOf(in) {
					if g := globalOf(wr); g != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						name := shortPkg(g.Pkg.Pkg) + "." + g.Name()
						key := FnName(rootOf(fn)) + " " + name
						if memoVars[name] != "" {
							oks[key] = true
						} else if _, ok := bads[key]; !ok {
							bads[key] = bad{w.InstrPos(in), "asking changes the package variable " + name + " (reached from " + a.trail(fn) + ")"}
						}
					}
					for _, t := range ownersOf(wr, false, map[ssa.Value]bool{}) {
						if t.owner == nil || !ofDocument(t.owner) {
							continue
						}
						name := ownType(t.owner) + "." + t.field
						key := FnName(rootOf(fn)) + " " + name
						if memoFields[name] != "" || a.fresh(t.base, 0, map[ssa.Value]bool{}) && !(t.through && a.copied(t, in)) {
							oks[key] = true
							continue
						}
						if _, ok := bads[key]; !ok {
							bads[key] = bad{w.InstrPos(in), "asking changes what is asked: " + name + " of an object that was not made here is written (reached from " + a.trail(fn) + ")"}
						}
					}
				}
			}
		}
	}
	var ks []string
	for k := range bads {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Bad("unchanged", k, bads[k].pos, bads[k].msg)
	}
	for k := range oks {
		if _, ok := bads[k]; !ok {
			r.OK("unchanged", k)
		}
	}
	r.Min("unchanged", 60)
	_ = roots
}

func (a *pureAn) trail(fn *ssa.Function) string {
	f := fn
	for i := 0; i < 20 && a.in[f] != nil && a.in[f] != f; i++ {
		f = a.in[f]
	}
	return FnName(f)
}

func ownType(t types.Type) string {
	n := namedOf(t)
	return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
}

// writesOf: the memory an instruction writes: the address of a store, or the map or slice that is changed.
func writesOf(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				return []ssa.Value{c.Args[0]}
			}
			return nil
		}
		f := c.StaticCallee()
		if f == nil || len(c.Args) == 0 {
			return nil
		}
		full := calleeFull(c)
		if omWrite(c) {
			return []ssa.Value{c.Args[0]}
		}
		if strings.HasPrefix(full, "sort.") || strings.HasPrefix(full, "slices.Sort") || strings.HasPrefix(full, "slices.Reverse") || strings.HasPrefix(full, "slices.Delete") || strings.HasPrefix(full, "slices.Compact") {
			if strings.HasPrefix(full, "sort.Search") || strings.HasPrefix(full, "sort.SliceIsSorted") {
				return nil
			}
			return []ssa.Value{c.Args[0]}
		}
	}
	return nil
}

// target: the object whose field the written memory is, or is reached through.
type target struct {
	base    ssa.Value
	owner   types.Type
	field   string
	through bool // the memory the field refers to is written, not the field
}

func ownersOf(v ssa.Value, through bool, seen map[ssa.Value]bool) []target {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if namedOf(x.X.Type()) == nil {
			return ownersOf(x.X, through, seen)
		}
		return []target{{x.X, x.X.Type(), fieldName(x.X.Type(), x.Field), through}}
	case *ssa.Field:
		return []target{{x.X, x.X.Type(), fieldName(x.X.Type(), x.Field), true}}
	case *ssa.IndexAddr:
		return ownersOf(x.X, through, seen)
	case *ssa.Slice:
		return ownersOf(x.X, through, seen)
	case *ssa.MakeInterface:
		return ownersOf(x.X, through, seen)
	case *ssa.ChangeType:
		return ownersOf(x.X, through, seen)
	case *ssa.UnOp:
		if al := cellOf(x.X); al != nil {
			var out []target
			for _, st := range reachingStores(al, x) {
				out = append(out, ownersOf(st, true, seen)...)
			}
			return out
		}
		return ownersOf(x.X, true, seen)
	case *ssa.Phi:
		var out []target
		for _, e := range x.Edges {
			out = append(out, ownersOf(e, through, seen)...)
		}
		return out
	}
	return nil
}

// reachingStores: what a variable may hold when it is read; a store is forgotten when another one lies on
// every way from it to the read.
func reachingStores(al *ssa.Alloc, at *ssa.UnOp) []ssa.Value {
	var sts []*ssa.Store
	for _, f := range familyFns(al.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && cellOf(st.Addr) == al {
					sts = append(sts, st)
				}
			}
		}
	}
	var out []ssa.Value
	for _, s := range sts {
		gone := false
		for _, t := range sts {
			if s != t && before(s, t) && before(t, at) {
				gone = true
			}
		}
		if !gone {
			out = append(out, s.Val)
		}
	}
	return out
}

// before: p has happened whenever q happens.
func before(p, q ssa.Instruction) bool {
	if p.Parent() != q.Parent() {
		return false
	}
	if p.Block() == q.Block() {
		for _, in := range p.Block().Instrs {
			if in == p {
				return true
			}
			if in == q {
				return false
			}
		}
	}
	return p.Block().Dominates(q.Block())
}

// copied: the variable holds a copy of a struct of somebody else, whose lists and maps it shares.
func (a *pureAn) copied(t target, at ssa.Instruction) bool {
	al := cellOf(t.base)
	if al == nil {
		return false
	}
	for _, b := range at.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !before(st, at) {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if ok && cellOf(fa.X) == al && fieldName(fa.X.Type(), fa.Field) == t.field && a.fresh(st.Val, 0, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	for _, f := range familyFns(al.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if ok && cellOf(st.Addr) == al && !a.fresh(st.Val, 0, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

// fresh: is the object one that the question itself has made.
func (a *pureAn) fresh(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	if d > 12 {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		// a variable that holds a struct is fresh memory
		return true
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeChan, *ssa.MakeClosure:
		return true
	case *ssa.MakeInterface:
		return a.fresh(x.X, d+1, seen)
	case *ssa.FieldAddr:
		return a.fresh(x.X, d+1, seen)
	case *ssa.IndexAddr:
		return a.fresh(x.X, d+1, seen)
	case *ssa.Slice:
		return a.fresh(x.X, d+1, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.fresh(e, d+1, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return a.fresh(x.X, d+1, seen)
	case *ssa.ChangeInterface:
		return a.fresh(x.X, d+1, seen)
	case *ssa.TypeAssert:
		return a.fresh(x.X, d+1, seen)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.freshCall(c, x.Index, d, seen)
		}
		return a.fresh(x.Tuple, d+1, seen)
	case *ssa.Call:
		return a.freshCall(x, 0, d, seen)
	case *ssa.Parameter:
		for i := len(a.args) - 1; i >= 0; i-- {
			if a.args[i].fn != x.Parent() {
				continue
			}
			fr, rest := a.args[i], a.args
			ok := false
			for j, q := range x.Parent().Params {
				if q == x && j < len(fr.c.Args) {
					a.args = rest[:i]
					ok = a.fresh(fr.c.Args[j], d+1, seen)
					a.args = rest
				}
			}
			return ok
		}
		return a.freshParam(x)
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return a.fresh(b, d+1, seen)
		}
		return false
	case *ssa.UnOp:
		return a.freshLoad(x.X, d, seen)
	case *ssa.Lookup:
		return a.freshElems(x.X, d, seen)
	}
	return false
}

// freshLoad: what is loaded from an address was made here.
func (a *pureAn) freshLoad(addr ssa.Value, d int, seen map[ssa.Value]bool) bool {
	switch c := addr.(type) {
	case *ssa.Alloc:
		return a.freshCell(c, d, seen)
	case *ssa.FreeVar:
		if al := cellOf(c); al != nil {
			return a.freshCell(al, d, seen)
		}
	case *ssa.FieldAddr:
		if ofDocument(c.X.Type()) && fieldName(c.X.Type(), c.Field) == "Alias" {
			return a.fresh(c.X, d+1, seen)
		}
		// a field of an object that was made here, into which only new objects were put
		root := c.X
		if u, ok := root.(*ssa.UnOp); ok {
			if al := cellOf(u.X); al != nil {
				return a.freshField(root, c.Field, d, seen) && a.fresh(root, d+1, seen)
			}
		}
		return a.fresh(root, d+1, seen) && a.freshField(root, c.Field, d, seen)
	case *ssa.IndexAddr:
		if node := contentOf(c.X); node != nil && !a.stored(node) {
			return a.fresh(node, d+1, seen)
		}
		return a.freshElems(c.X, d, seen)
	}
	return false
}

// contentOf: the node whose list of children v is.
func contentOf(v ssa.Value) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa.X.Type(), fa.Field) != "Content" || !ofDocument(fa.X.Type()) {
		return nil
	}
	return fa.X
}

// stored: the function itself puts children into the node.
func (a *pureAn) stored(node ssa.Value) bool {
	if _, ok := node.(*ssa.Alloc); !ok {
		return false
	}
	for _, ref := range *node.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fieldName(fa.X.Type(), fa.Field) != "Content" {
			continue
		}
		for _, u := range *fa.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
				return true
			}
		}
	}
	return false
}

func cellOf(v ssa.Value) *ssa.Alloc {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return cellOf(b)
		}
	}
	return nil
}

// freshField: everything stored in this function family into the field of objects of that type is new.
func (a *pureAn) freshField(obj ssa.Value, field int, d int, seen map[ssa.Value]bool) bool {
	fn := instrFn(obj)
	if fn == nil {
		return false
	}
	n, ok := a.fieldStores(fn, obj, field, d, seen)
	if ok && n == 0 {
		// an object that comes from its constructor, with what that has put in
		if u, isU := obj.(*ssa.UnOp); isU {
			if al := cellOf(u.X); al != nil {
				if s := onlyStore(al); s != nil {
					obj = s
				}
			}
		}
		if c, isC := obj.(*ssa.Call); isC {
			if f := c.Common().StaticCallee(); f != nil && inRepo(f) && len(f.Blocks) > 0 {
				n, ok = a.fieldStores(f, obj, field, d, seen)
			}
		}
	}
	return ok && n > 0
}

func (a *pureAn) fieldStores(fn *ssa.Function, obj ssa.Value, field, d int, seen map[ssa.Value]bool) (n int, ok bool) {
	for _, f := range familyFns(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(fa.X.Type(), obj.Type()) {
					continue
				}
				n++
				if !a.fresh(st.Val, d+1, seen) {
					return n, false
				}
			}
		}
	}
	return n, true
}

func instrFn(v ssa.Value) *ssa.Function {
	return v.Parent()
}

// freshElems: the elements of a list or map made here are new as well.
func (a *pureAn) freshElems(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
		n := 0
		for _, f := range familyFns(v.Parent()) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch s := in.(type) {
					case *ssa.Store:
						ia, ok := s.Addr.(*ssa.IndexAddr)
						if !ok || !sameList(ia.X, v) {
							continue
						}
						n++
						if !a.fresh(s.Val, d+1, seen) {
							return false
						}
					case *ssa.MapUpdate:
						if !sameList(s.Map, v) {
							continue
						}
						n++
						if !a.fresh(s.Value, d+1, seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Slice:
		return a.freshElems(x.X, d+1, seen)
	case *ssa.Phi:
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); ok {
				continue
			}
			if !a.freshElems(e, d+1, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, arg := range x.Common().Args {
				if _, ok := arg.(*ssa.Const); ok {
					continue
				}
				if !a.freshElems(arg, d+1, seen) {
					return false
				}
			}
			return true
		}
	case *ssa.UnOp:
		if al := cellOf(x.X); al != nil {
			return a.cellStores(al, func(val ssa.Value) bool {
				if _, ok := val.(*ssa.Const); ok || seen[val] {
					return true
				}
				seen[val] = true
				return a.freshElems(val, d+1, seen)
			})
		}
	}
	return false
}

func sameList(x, v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		if x == v {
			return true
		}
		switch y := x.(type) {
		case *ssa.UnOp:
			al := cellOf(y.X)
			if al == nil {
				return false
			}
			if s := onlyStore(al); s != nil {
				x = s
				continue
			}
			return false
		case *ssa.Slice:
			x = y.X
		default:
			return false
		}
	}
	return false
}

func (a *pureAn) cellStores(al *ssa.Alloc, ok func(ssa.Value) bool) bool {
	n := 0
	for _, f := range familyFns(al.Parent()) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, isSt := in.(*ssa.Store); isSt && cellOf(st.Addr) == al {
					n++
					if !ok(st.Val) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (a *pureAn) freshCell(al *ssa.Alloc, d int, seen map[ssa.Value]bool) bool {
	return a.cellStores(al, func(v ssa.Value) bool { return a.fresh(v, d+1, seen) })
}

func familyFns(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	collectFamily(rootOf(f), &out)
	return out
}

func (a *pureAn) freshCall(c *ssa.Call, idx, d int, seen map[ssa.Value]bool) bool {
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			// the list may be that of somebody else, with room at its end
			return a.fresh(c.Common().Args[0], d+1, seen)
		}
		return true
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	if strings.HasPrefix(calleeFull(c.Common()), "slices.Clone") || strings.HasPrefix(calleeFull(c.Common()), "maps.Clone") {
		return true
	}
	if len(f.Blocks) == 0 {
		return !inRepo(f) && !strings.Contains(calleeFull(c.Common()), "yaml")
	}
	if !inRepo(f) {
		return true
	}
	if madeNew[FnName(f)] {
		return true
	}
	if len(a.args) > 8 {
		return false
	}
	a.args = append(a.args, pureFrame{f, c.Common()})
	defer func() { a.args = a.args[:len(a.args)-1] }()
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if ok && idx < len(ret.Results) && !a.fresh(ret.Results[idx], d+1, seen) {
			return false
		}
	}
	return true
}

// freshParam: every question hands a new object to this parameter.
func (a *pureAn) freshParam(p *ssa.Parameter) bool {
	switch a.memo[p] {
	case 1:
		return true
	case 2:
		return false
	}
	a.memo[p] = 1
	fn := p.Parent()
	args := a.args
	a.args = nil
	ok := a.paramCalls(p, fn)
	a.args = args
	if !ok {
		a.memo[p] = 2
	}
	return ok
}

func (a *pureAn) paramCalls(p *ssa.Parameter, fn *ssa.Function) bool {
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	n := a.w.Callgraph().Nodes[fn]
	if n == nil || len(n.In) == 0 || a.in[fn] == fn {
		return false
	}
	if givenAway(fn) {
		return false
	}
	for _, e := range n.In {
		if e.Site == nil {
			return false
		}
		c := e.Site.Common()
		caller := e.Caller.Func
		if !inRepo(caller) {
			return false // what a library hands over is not new
		}
		if a.in[caller] == nil {
			continue
		}
		i := idx
		if c.IsInvoke() {
			if idx == 0 {
				return false
			}
			i = idx - 1
		}
		if i >= len(c.Args) || !a.fresh(c.Args[i], 0, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// givenAway: the function is handed to a library, or to an iterator of one, which calls it with what it has.
func givenAway(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, arg := range ci.Common().Args {
				if mc, ok := arg.(*ssa.MakeClosure); ok {
					arg = mc.Fn
				}
				if arg != ssa.Value(fn) {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil {
					if c, ok := ci.Common().Value.(*ssa.Call); ok {
						f = c.Common().StaticCallee()
					}
				}
				if f == nil || !inRepo(f) {
					return true
				}
			}
		}
	}
	return false
}

// memoVars: package variables that only keep what would be worked out again.
var memoVars = map[string]string{
	"what-changed/model.defaultRulesCache": "the built-in rules, made once",
}

// globalOf: the package variable that the written memory is, or is reached through.
func globalOf(v ssa.Value) *ssa.Global {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}
