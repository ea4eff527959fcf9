package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: errors are not dropped.

var errorType = types.Universe.Lookup("error").Type()

// errResults: the positions of the error results of a call.
func errResults(c *ssa.CallCommon) []int {
	var out []int
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if isErrType(res.At(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

// errUsed: the i-th result of the call is looked at.
func errUsed(v ssa.Value, i, n int) bool {
	if v == nil {
		return false
	}
	if n == 1 {
		return hasUse(v)
	}
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Extract:
			if x.Index == i && hasUse(x) {
				return true
			}
		case *ssa.Return: // forwarded whole
			return true
		}
	}
	return false
}

func hasUse(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// canFail: some return of fn hands back an error that is not always nil. Function arguments
// (literals or functions) given at the call are followed; BuildModel never fails for the
// repository's own model types.
type failAn struct {
	w     *World
	yes   map[failKey]bool
	depth int
}

func (a *failAn) call(c *ssa.CallCommon, i int) bool {
	if c.IsInvoke() {
		imps := a.w.implsOf(c)
		if len(imps) == 0 {
			return true
		}
		for _, f := range imps {
			if a.fn(f, i, nil) {
				return true
			}
		}
		return false
	}
	f := StaticCallee(c)
	if f == nil {
		if cl := closureFns(c.Value, 0); len(cl) > 0 {
			for _, g := range cl {
				if a.fn(g, i, nil) {
					return true
				}
			}
			return false
		}
		return true
	}
	return a.fn(f, i, c.Args)
}

func (a *failAn) fn(f *ssa.Function, i int, args []ssa.Value) bool {
	if f.Name() == "BuildModel" && fnPkg(f) != nil && fnPkg(f).Path() == modPath+"/datamodel/low" {
		return false
	}
	if !inRepo(f) || len(f.Blocks) == 0 {
		return !neverFailsStd(f)
	}
	hasFn := false
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			hasFn = true
		}
	}
	if fnPkg(f).Path() == modPath+"/datamodel" && strings.HasPrefix(f.Name(), "Translate") && args != nil {
		// hands back what the functions it is given return
		for _, v := range args {
			if _, ok := v.Type().Underlying().(*types.Signature); !ok {
				continue
			}
			cl := closureFns(v, 0)
			if g, ok := v.(*ssa.Function); ok && len(cl) == 0 {
				cl = []*ssa.Function{g}
			}
			if len(cl) == 0 {
				return true
			}
			for _, g := range cl {
				if n := g.Signature.Results().Len(); n > 0 && a.eval(g, n-1, nil) {
					return true
				}
			}
		}
		return false
	}
	if hasFn && args != nil && a.depth < 4 {
		a.depth++
		defer func() { a.depth-- }()
		return a.eval(f, i, args)
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return a.yes[failKey{f, i}]
}

func (a *failAn) eval(f *ssa.Function, i int, args []ssa.Value) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			if a.val(f, ret.Results[i], args, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

type failKey struct {
	f *ssa.Function
	i int
}

// newFailAn: the least fixpoint over all functions with an error result.
func newFailAn(w *World) *failAn {
	a := &failAn{w: w, yes: map[failKey]bool{}}
	for ch := true; ch; {
		ch = false
		for _, f := range w.fns {
			res := f.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				k := failKey{f, i}
				if o := f.Origin(); o != nil {
					k.f = o
				}
				if a.yes[k] || !isErrType(res.At(i).Type()) {
					continue
				}
				if a.eval(f, i, nil) {
					a.yes[k] = true
					ch = true
				}
			}
		}
	}
	return a
}

func isErrType(t types.Type) bool {
	if types.Identical(t, errorType) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && (types.Identical(s.Elem(), errorType) || isOwnErr(s.Elem())) || isOwnErr(t)
}

// isOwnErr: a pointer to one of the repository's error types.
func isOwnErr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) &&
		types.Implements(t, errorType.Underlying().(*types.Interface))
}

// val: the error value can be something else than nil.
func (a *failAn) val(f *ssa.Function, v ssa.Value, args []ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return !x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if a.val(f, e, args, seen) {
				return true
			}
		}
		return false
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callIn(f, &c.Call, x.Index, args)
		}
	case *ssa.Call:
		return a.callIn(f, &x.Call, 0, args)
	case *ssa.ChangeInterface:
		return a.val(f, x.X, args, seen)
	case *ssa.UnOp:
		// a local variable
		cell := x.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			bs := a.w.Family(f).binds[fv]
			if len(bs) == 0 {
				return true
			}
			cell = bs[0]
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok {
			return true
		}
		return a.cell(f, al, args, seen)
	}
	return true
}

// cell: something other than nil can have been stored to the variable.
func (a *failAn) cell(f *ssa.Function, al ssa.Value, args []ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[al] {
		return false
	}
	seen[al] = true
	fam := a.w.Family(f)
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == al {
				if a.val(y.Parent(), y.Val, args, seen) {
					return true
				}
			} else {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b != al {
					continue
				}
				if a.cell(f, g.FreeVars[i], args, seen) {
					return true
				}
			}
			_ = fam
		default:
			return true
		}
	}
	return false
}

func (a *failAn) callIn(f *ssa.Function, c *ssa.CallCommon, i int, args []ssa.Value) bool {
	// a call of a function parameter: what was passed for it
	if p, ok := c.Value.(*ssa.Parameter); ok && args != nil {
		for k, q := range f.Params {
			if q == p && k < len(args) {
				cl := closureFns(args[k], 0)
				if fn, ok := args[k].(*ssa.Function); ok && len(cl) == 0 {
					cl = []*ssa.Function{fn}
				}
				if len(cl) == 0 {
					return true
				}
				for _, g := range cl {
					if a.fn(g, i, nil) {
						return true
					}
				}
				return false
			}
		}
	}
	return a.call(c, i)
}

func neverFailsStd(f *ssa.Function) bool {
	p := fnPkg(f)
	if p == nil {
		return false
	}
	switch p.Path() {
	case "fmt":
		return f.Name() != "Errorf" && f.Signature.Results().Len() > 1
	case "strings", "bytes", "hash/maphash":
		return true // writers into memory; formatted printing
	case "crypto/rand":
		return true // since Go 1.24
	}
	return false
}

// errFlow: the values an error value becomes: through phis, conversions, local variables.
type errFlow struct {
	w     *World
	vals  map[ssa.Value]bool
	uses  []ssa.Instruction // reported, returned or kept
	cmps  []*ssa.BinOp      // compared with nil
	kinds []*ssa.Call       // asked for its kind
}

func (w *World) errFlowOf(v ssa.Value) *errFlow {
	e := &errFlow{w: w, vals: map[ssa.Value]bool{}}
	e.add(v)
	return e
}

func (e *errFlow) add(v ssa.Value) {
	if v == nil || e.vals[v] || v.Referrers() == nil {
		return
	}
	e.vals[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			e.add(x)
		case *ssa.ChangeInterface:
			e.add(x)
		case *ssa.MakeInterface:
			e.add(x)
		case *ssa.TypeAssert:
			e.add(x)
		case *ssa.Extract:
			e.add(x)
		case *ssa.BinOp:
			if isNilConst(x.X) || isNilConst(x.Y) {
				e.cmps = append(e.cmps, x)
			}
		case *ssa.Store:
			if x.Val == v {
				e.store(x)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if len(*x.Referrers()) > 0 {
					for _, q := range *x.Referrers() {
						if bo, ok := q.(*ssa.BinOp); ok && bo.X == x && isIntConst(bo.Y) {
							e.cmps = append(e.cmps, bo)
						}
					}
				}
				continue
			}
			if onlyClassifies(&x.Call) {
				e.kinds = append(e.kinds, x)
				continue
			}
			e.uses = append(e.uses, x)
		default:
			e.uses = append(e.uses, r)
		}
	}
}

// onlyClassifies: the call asks what kind of error it is and hands nothing on.
func onlyClassifies(c *ssa.CallCommon) bool {
	f := StaticCallee(c)
	if f == nil || fnPkg(f) == nil {
		return false
	}
	switch fnPkg(f).Path() + "." + f.Name() {
	case "errors.Is", "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return true
	}
	return false
}

func (e *errFlow) store(st *ssa.Store) {
	switch a := st.Addr.(type) {
	case *ssa.Alloc:
		e.cell(a)
	case *ssa.FreeVar:
		// a variable of the enclosing function: kept there, when it is used there
		bs := e.w.Family(st.Parent()).binds[a]
		n := len(e.uses) + len(e.cmps)
		if len(bs) > 0 && !e.vals[bs[0]] {
			e.cell(bs[0])
			if len(e.uses)+len(e.cmps) == n {
				return
			}
		}
		e.uses = append(e.uses, st)
	default:
		// the argument list of a variadic call, or something longer lived
		e.uses = append(e.uses, st)
	}
}

// cell: a local variable that holds the error.
func (e *errFlow) cell(a ssa.Value) {
	if e.vals[a] || a.Referrers() == nil {
		return
	}
	e.vals[a] = true
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp:
			e.add(y)
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := y.Fn.(*ssa.Function)
			for i, b := range y.Bindings {
				if b == a {
					e.cell(g.FreeVars[i])
				}
			}
		default:
			e.uses = append(e.uses, r)
		}
	}
}

// handed: the error is handed on. ok, or the reason it is not.
func (a *failAn) handed(e *errFlow) (bool, string) {
	use := map[ssa.Instruction]bool{}
	for _, u := range e.uses {
		use[u] = true
	}
	pred := func(in ssa.Instruction) bool {
		if use[in] {
			return true
		}
		switch x := in.(type) {
		case *ssa.Return:
			for i, v := range x.Results {
				if e.vals[v] {
					return true
				}
				if isErrType(x.Parent().Signature.Results().At(i).Type()) && (e.fresh(v, 0) || knownNonNil(v, x.Block())) {
					return true
				}
			}
		case *ssa.Call:
			for _, k := range e.kinds {
				if k == x {
					return true // told apart from other errors
				}
			}
			if f := StaticCallee(&x.Call); f != nil && fnPkg(f) != nil {
				if f.Name() == "AllowCircularReferenceResolving" {
					return true // the configuration says whether it counts
				}
				switch fnPkg(f).Path() + "." + f.Name() {
				case "errors.New", "fmt.Errorf", "errors.Join":
					return true
				}
			}
		case *ssa.Alloc:
			if n := namedOf(x.Type()); n != nil && types.Implements(types.NewPointer(n), errorType.Underlying().(*types.Interface)) {
				return true
			}
		}
		return false
	}
	cut := func(b *ssa.BasicBlock, i int) bool {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		v := bo.X
		if isNilConst(v) {
			v = bo.Y
		} else if !isNilConst(bo.Y) {
			return false
		}
		nilSide := 1
		switch bo.Op.String() {
		case "==":
			nilSide = 0
		case "!=":
		default:
			return false
		}
		if e.vals[v] {
			return i == nilSide // it is not nil here
		}
		if isErrType(v.Type()) && !a.val(b.Parent(), v, nil, map[ssa.Value]bool{}) {
			return i != nilSide // never anything but nil
		}
		return false
	}
	for _, c := range e.cmps {
		for _, r := range *c.Referrers() {
			iff, ok := r.(*ssa.If)
			if !ok {
				if len(e.uses) == 0 {
					return true, "" // part of a larger condition, kept as a bool
				}
				continue
			}
			side := 0
			switch c.Op.String() {
			case "==", "<=":
				side = 1
			case "<":
				side = 1
			}
			b := iff.Block().Succs[side]
			if len(b.Instrs) == 0 {
				continue
			}
			if pred(b.Instrs[0]) {
				continue
			}
			if _, isRet := b.Instrs[0].(*ssa.Return); !isRet {
				if ok, _ := MustReach(b.Instrs[0], pred, cut); ok {
					continue
				}
			}
			return false, "is lost on a path where it is not nil"
		}
	}
	if len(e.cmps) == 0 && len(e.uses) == 0 {
		return false, "is not looked at"
	}
	return true, ""
}

func init() {
	register("C08", "errors", checkErrors)
}

// lostOK: errors that are left behind on purpose, by caller and callee. An entry also covers a
// helper all of whose callers are covered for the same callee, and a helper that wraps the callee.
var lostOK = map[string]string{
	// reading a document without checking it
	"datamodel.extractSpecInfoInternal>datamodel.extractSpecInfoInternal":         "parses the JSON view; with the document check bypassed anything is accepted",
	"datamodel.extractSpecInfoInternal>datamodel.parseVersionTypeData":            "the caller asked for the document check to be bypassed",
	"datamodel.extractSpecInfoInternal>go.yaml.in/yaml/v4.Unmarshal":              "the caller asked for the document check to be bypassed: kept as text",
	"index.LocalFile.IndexWithContext>datamodel.ExtractSpecInfoWithDocumentCheck": "check bypassed: a file that is no specification still has an index",
	"index.RemoteFile.Index>datamodel.ExtractSpecInfoWithDocumentCheck":           "check bypassed: a file that is no specification still has an index",
	// collected elsewhere
	"datamodel/low/v2.createDocument>index.Rolodex.IndexTheRolodex":                     "the rolodex keeps what it caught; read through GetCaughtErrors",
	"datamodel/low/v3.createDocument>index.Rolodex.IndexTheRolodex":                     "the rolodex keeps what it caught; read through GetCaughtErrors",
	"datamodel/low/v2.createDocument>index.NewRemoteFSWithConfig":                       "fails only without a configuration, which is given here",
	"datamodel/low/v3.createDocument>index.NewRemoteFSWithConfig":                       "fails only without a configuration, which is given here",
	"bundler.buildSchema>datamodel/low/base.Schema.Build":                               "the schema is built again, lazily, by its proxy, which keeps the error",
	"bundler.prepareCollectedInlineReferences>bundler.buildComponents":                  "builds empty components",
	"index.RemoteFS.indexRemoteFile>index.RemoteFile.Index":                             "an index was made all the same",
	"index.Rolodex.IndexTheRolodex>(index.CanBeIndexed).Index":                          "indexing a file does not fail any more; its index keeps its errors",
	"datamodel/low.ExtractObject>datamodel/low.LocateRefNodeWithContext":                "nothing is there under the label",
	"datamodel/low.ExtractMapExtensions>datamodel/low.LocateRefNodeWithContext":         "the referenced node is no map",
	"datamodel/low/base.resolveSchemaBuildInput>datamodel/low.LocateRefNodeWithContext": "circular schemas are reported by the circular reference check",
	"datamodel/low/v3.extractPathItemsMap>datamodel/low/v3.PathItem.Build":              "logged; the other paths are kept",
	"index.FindComponent>github.com/pb33f/jsonpath/pkg/jsonpath.NewPath":                "the reference is reported as not found",
	"index.SpecIndex.ExtractComponentsFromRefs>golang.org/x/sync/singleflight.Group.Do": "the function it runs returns no error",
	// schema identifiers: one that cannot be resolved is used as written
	"*>index.ResolveSchemaId":                "an $id that cannot be resolved is used as written",
	"*>index.ResolveRefAgainstSchemaId":      "a reference that cannot be resolved against an $id is used as written",
	"*>index.SpecIndex.RegisterSchemaId":     "a second schema of the same $id is logged",
	"*>index.Rolodex.RegisterGlobalSchemaId": "a second schema of the same $id is logged",
	// lookups that report nothing found
	"bundler.resolveDiscriminatorMappingTarget>index.Rolodex.OpenWithContext":                                 "a mapping value need not be a file",
	"bundler.resolveDiscriminatorMappingTarget>(index.CanBeIndexed).Index":                                    "a mapping value need not be a file",
	"*>(index.RolodexFile).GetContentAsYAMLNode":                                                              "no node: the reference is reported as not found",
	"index.SpecIndex.SearchIndexForReferenceByReferenceWithContext>index.Rolodex.Open":                        "the reference is reported as not found",
	"index.detectRemoteContentType>index.fetchWithRetry":                                                      "logged; the type stays unknown",
	"index.LocalFS.extractFile>(io/fs.File).Stat":                                                             "only the time of the last change",
	"index.ResolvingError.Error>utils.UnwrapErrors":                                                           "the parts of the error are printed",
	"datamodel/low/base.SchemaProxy.attemptPropertyMerging>datamodel/low/base.PropertyMerger.MergeProperties": "documented: the original schema is kept",
	"orderedmap.Map.ToYamlNode>(orderedmap.marshaler).MarshalYAML":                                            "keys are scalars",
	// generated values and code
	"arazzo.Engine.runWorkflow>arazzo.Engine.newExpressionContext":                                      "documented as non-fatal",
	"generator/golang.Generator.populateUnion>datamodel/high/base.SchemaProxy.BuildSchema":              "only for a nicer name; the variant itself reports",
	"generator/golang.Generator.schemaProxyMetadataLiteral>datamodel/high/base.SchemaProxy.BuildSchema": "the schema was built before",
	"generator/golang.inferMetadataYAMLScalarTag>go.yaml.in/yaml/v4.Unmarshal":                          "text that is not YAML is a string",
	"generator/golang.schemaFromReferenceSiblingNode>generator/golang.schemaProxyFromProviderYAML":      "made from a node that was parsed before",
	"renderer.ReadDictionary>os.Open": "documented: no words without a dictionary",
	"renderer.readFile>io.ReadAll":    "documented: no words without a dictionary",
	"renderer.SchemaRenderer.DiveIntoSchema>renderer.semanticSchemaForTransformedRef":                "mock values are best effort here",
	"renderer.SchemaRenderer.renderMockStringValue>renderer.SchemaRenderer.generatePatternString":    "a pattern that cannot be generated falls back to a word",
	"renderer.SchemaRenderer.renderSchemaBestEffort>renderer.SchemaRenderer.renderSchemaWithBudgets": "documented as best effort",
}

type errCheck struct {
	w       *World
	callers map[*ssa.Function]map[*ssa.Function]bool
	calls   map[*ssa.Function]map[string]bool
}

func calleeKey(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + strings.ReplaceAll(c.Value.Type().String(), modPath+"/", "") + ")." + c.Method.Name()
	}
	if f := StaticCallee(c); f != nil {
		return FnName(f)
	}
	return "?"
}

func (e *errCheck) exempt(fn *ssa.Function, callee string, depth int) bool {
	fn = rootFn(fn)
	if lostOK["*>"+callee] != "" || lostOK[FnName(fn)+">"+callee] != "" {
		return true
	}
	if depth == 0 || fn.Object() == nil || fn.Object().Exported() || len(e.callers[fn]) == 0 {
		return false
	}
	for c := range e.callers[fn] {
		if rootFn(c) != fn && !e.exempt(c, callee, depth-1) {
			return false
		}
	}
	return true
}

func (e *errCheck) build() {
	e.callers = map[*ssa.Function]map[*ssa.Function]bool{}
	e.calls = map[*ssa.Function]map[string]bool{}
	for _, fn := range e.w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				root := rootFn(fn)
				if e.calls[root] == nil {
					e.calls[root] = map[string]bool{}
				}
				e.calls[root][calleeKey(ci.Common())] = true
				if f := StaticCallee(ci.Common()); f != nil {
					if o := f.Origin(); o != nil {
						f = o
					}
					if e.callers[f] == nil {
						e.callers[f] = map[*ssa.Function]bool{}
					}
					e.callers[f][fn] = true
				}
			}
		}
	}
}

func (e *errCheck) allowed(fn *ssa.Function, c *ssa.CallCommon) bool {
	if e.exempt(fn, calleeKey(c), 3) {
		return true
	}
	// a helper that wraps a call whose error may be left behind here
	if f := StaticCallee(c); f != nil && inRepo(f) && f.Object() != nil && !f.Object().Exported() && len(e.callers[f]) == 1 {
		for k := range e.calls[f] {
			if e.exempt(fn, k, 0) {
				return true
			}
		}
	}
	return false
}

func checkErrors(w *World, r *Reporter) {
	a := newFailAn(w)
	e := &errCheck{w: w}
	e.build()
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				n := c.Signature().Results().Len()
				for _, i := range errResults(c) {
					if !inScopeErr(c) {
						continue
					}
					cal := calleeKey(c)
					key := FnName(rootFn(fn)) + "->" + cal
					r.Fn(FnName(rootFn(fn)))
					var v ssa.Value
					if call, ok := in.(*ssa.Call); ok {
						v = call
					}
					if !a.call(c, i) {
						r.OK("cannot-fail", key)
						continue
					}
					why := ""
					rule := "looked-at"
					if !errUsed(v, i, n) {
						why = "is dropped"
					} else {
						r.OK(rule, key)
						rule = "handed-on"
						ev := v
						if n > 1 {
							ev = extractOf(v, i)
						}
						_, why = a.handed(w.errFlowOf(ev))
					}
					switch {
					case why == "":
						r.OK(rule, key)
					case e.allowed(fn, c):
						r.OK("left-on-purpose", key)
					default:
						r.Bad(rule, key, w.InstrPos(in), fmt.Sprintf("in %s the error of %s %s", FnName(rootFn(fn)), cal, why))
					}
				}
			}
		}
	}
	r.Min("looked-at", 1300)
	r.Min("handed-on", 1100)
}

// inScopeErr: calls of the repository's own functions, and the library calls that read or
// parse a document.
func inScopeErr(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		m := c.Method
		if m.Name() == "Close" {
			return false
		}
		p := m.Pkg()
		if p == nil {
			return true
		}
		return strings.HasPrefix(p.Path(), modPath) || p.Path() == "io/fs" || p.Path() == "io" || p.Path() == "context"
	}
	f := StaticCallee(c)
	if f == nil {
		return true
	}
	if inRepo(f) {
		return true
	}
	p := fnPkg(f)
	if p == nil {
		return false
	}
	switch p.Path() {
	case "strconv", "net/url", "path/filepath", "time":
		return false // conversions of single values
	case "go.yaml.in/yaml/v4", "go.yaml.in/yaml/v4/internal/libyaml":
		return f.Name() == "Unmarshal" || f.Name() == "Load"
	case "encoding/json":
		return f.Name() == "Unmarshal"
	case "encoding/xml":
		return false
	}
	return f.Name() != "Close"
}

func extractOf(v ssa.Value, i int) ssa.Value {
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			return x
		}
	}
	return v
}

func isIntConst(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// fresh: the value is an error made here (or the one that is followed), never nil.
func (e *errFlow) fresh(v ssa.Value, depth int) bool {
	if e.vals[v] {
		return true
	}
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return e.fresh(x.X, depth+1)
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !e.fresh(y, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Alloc:
		return true
	case *ssa.Slice:
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return e.freshCall(&c.Call, x.Index, depth)
		}
	case *ssa.Call:
		return e.freshCall(&x.Call, 0, depth)
	}
	return false
}

func (e *errFlow) freshCall(c *ssa.CallCommon, i, depth int) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "append"
	}
	f := StaticCallee(c)
	if f == nil {
		return false
	}
	if p := fnPkg(f); p != nil && (p.Path() == "errors" || p.Path() == "fmt") {
		return true
	}
	if !inRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) && !e.fresh(ret.Results[i], depth+1) {
			return false
		}
	}
	return true
}

// knownNonNil: the block is entered only where v was found not to be nil.
func knownNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.X) || isNilConst(bo.Y)) {
			continue
		}
		side := 0
		switch bo.Op.String() {
		case "!=":
		case "==":
			side = 1
		default:
			continue
		}
		for _, q := range *bo.Referrers() {
			if iff, ok := q.(*ssa.If); ok {
				s := iff.Block().Succs[side]
				if len(s.Preds) == 1 && s.Dominates(b) {
					return true
				}
			}
		}
	}
	return false
}
