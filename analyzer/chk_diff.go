package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const wcPath = modPath + "/what-changed/model"

// diffEv is one primitive comparison: what reaches the left and the right side.
type diffEv struct {
	L, R  OrgSet // left/right nodes
	LO    OrgSet // left/right objects
	RO    OrgSet
	Gates OrgSet
	Label string // constant label, "" when not constant
	LabP  *ssa.Parameter
	KindP *ssa.Parameter // change type is this parameter
	Kind  string         // prop, removed, added, both, nested
	Pos   string
	Early bool
	Deep  bool // inside a nested object comparison
}

type diffWalker struct {
	w    *World
	memo map[*ssa.Function][]diffEv
	busy map[*ssa.Function]bool
}

// changeKind reads the constant change type passed to CreateChange.
func changeKind(w *World, v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return "", false
	}
	for _, p := range w.pkgs {
		if p.PkgPath != wcPath {
			continue
		}
		for _, n := range []string{"PropertyAdded", "ObjectAdded", "PropertyRemoved", "ObjectRemoved", "Modified"} {
			k, ok := p.Types.Scope().Lookup(n).(*types.Const)
			if !ok || !constant.Compare(k.Val(), token.EQL, c.Value) {
				continue
			}
			switch n {
			case "PropertyAdded", "ObjectAdded":
				return "added", true
			case "PropertyRemoved", "ObjectRemoved":
				return "removed", true
			case "Modified":
				return "both", true
			}
		}
	}
	return "", false
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func isNilConst(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (d *diffWalker) side(f *Family, v ssa.Value) OrgSet {
	if isNilConst(v) {
		return OrgSet{}
	}
	return f.valMem(v)
}

// objSide: a map key handed over as the "object" of a change names both sides at once.
func (d *diffWalker) objSide(f *Family, v ssa.Value) OrgSet {
	if m, ok := v.(*ssa.MakeInterface); ok {
		if _, ok := m.X.Type().Underlying().(*types.Basic); ok {
			return OrgSet{}
		}
	}
	return d.side(f, v)
}

type labelEx struct{ label, reason string }

// labelExempt: reports whose label is deliberately not the field's own name.
// Key: comparator ":" left field + right field as they reach the report.
var labelExempt = map[string]labelEx{
	"CompareDocuments:VersionVersion":           {"openapi", "the v3 Version field is the openapi keyword"},
	"CompareExamples:RootNode":                  {"example", "the whole example, when one side has none"},
	"CompareSchemas:vnvn":                       {"$ref", "vn is the proxy's reference node"},
	"CompareSchemas:SchemaTypeRefSchemaTypeRef": {"$schema", "SchemaTypeRef holds $schema"},
	"CompareScopes:Values":                      {"scopes", "Values is the content of scopes"},
	"CompareScopes:ValuesValues":                {"scopes", "Values is the content of scopes"},
}

// fieldLabel: fields of the v2 container objects; the label is the keyword the container
// itself sits under in the document.
var fieldLabel = map[string]string{
	"v2.ParameterDefinitions.Definitions": "parameters",
	"v2.ResponsesDefinitions.Definitions": "responses",
	"v2.SecurityDefinitions.Definitions":  "securityDefinitions",
	"v2.Definitions.Schemas":              "definitions",
}

// diffExempt: content fields whose differences are deliberately not reported.
var diffExempt = map[string]string{
	"CompareContact:base.Contact.Extensions": "Contact.Hash documents that a contact's extensions are not part of its identity; nothing in the change model of a contact can carry them",
	"ComparePathItems:v2.PathItem.Ref":       "a path item $ref is a pointer; what it points at is compared in place",
}

func (d *diffWalker) Events(root *ssa.Function) []diffEv {
	root = rootFn(root)
	if e, ok := d.memo[root]; ok {
		return e
	}
	if d.busy[root] {
		return nil
	}
	d.busy[root] = true
	defer delete(d.busy, root)
	f := d.w.Family(root)
	var out []diffEv
	setLabel := func(e *diffEv, v ssa.Value) {
		if s, ok := constString(v); ok {
			e.Label = s
			return
		}
		for p := range paramsOf(f, v) {
			e.LabP = p
		}
	}
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && IsType(al.Type(), wcPath, "PropertyCheck") {
					if _, isPP := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isPP {
						e := diffEv{L: OrgSet{}, R: OrgSet{}, LO: OrgSet{}, RO: OrgSet{}, Kind: "prop", Gates: f.Gates(b), Pos: d.w.InstrPos(in), Early: d.w.EarlyExit(f, b)}
						for _, ref := range *al.Referrers() {
							fa, ok := ref.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							fld := structFieldOf(al.Type(), fa.Field)
							for _, r2 := range *fa.Referrers() {
								st, ok := r2.(*ssa.Store)
								if !ok || st.Addr != fa {
									continue
								}
								switch fld.Name() {
								case "LeftNode":
									e.L.addAll(d.side(f, st.Val))
								case "RightNode":
									e.R.addAll(d.side(f, st.Val))
								case "Original":
									e.LO.addAll(d.side(f, st.Val))
								case "New":
									e.RO.addAll(d.side(f, st.Val))
								case "Label":
									setLabel(&e, st.Val)
								}
							}
						}
						out = append(out, e)
					}
					continue
				}
				if al, ok := in.(*ssa.Alloc); ok && IsType(al.Type(), wcPath, "Change") {
					// a report built in place
					e := diffEv{L: OrgSet{}, R: OrgSet{}, LO: OrgSet{}, RO: OrgSet{}, Gates: f.Gates(b), Pos: d.w.InstrPos(in), Early: d.w.EarlyExit(f, b)}
					if al.Referrers() != nil {
						for _, ref := range *al.Referrers() {
							fa, ok := ref.(*ssa.FieldAddr)
							if !ok {
								continue
							}
							for _, r2 := range *fa.Referrers() {
								st, ok := r2.(*ssa.Store)
								if !ok || st.Addr != fa {
									continue
								}
								switch structFieldOf(al.Type(), fa.Field).Name() {
								case "Original":
									e.L.addAll(d.side(f, st.Val))
								case "New":
									e.R.addAll(d.side(f, st.Val))
								case "OriginalObject":
									e.LO.addAll(d.side(f, st.Val))
								case "NewObject":
									e.RO.addAll(d.side(f, st.Val))
								case "Property":
									setLabel(&e, st.Val)
								}
							}
						}
					}
					l, r := len(e.L)+len(e.LO) > 0, len(e.R)+len(e.RO) > 0
					switch {
					case l && r:
						e.Kind = "both"
					case l:
						e.Kind = "removed"
					case r:
						e.Kind = "added"
					default:
						continue
					}
					out = append(out, e)
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				callee := cc.StaticCallee()
				gates := func() OrgSet { return f.Gates(b) }
				if callee == nil && !cc.IsInvoke() && len(cc.Args) == 8 {
					for _, cf := range funcValues(cc.Value, 0) {
						if cf.Name() == "CreateChange" && fnPkg(cf).Path() == wcPath {
							callee = cf
						}
					}
				}
				if callee == nil && !cc.IsInvoke() {
					// dynamic call of a comparison function value: (left, right)
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					if len(closureFns(cc.Value, 0)) == 0 && len(cc.Args) >= 2 && types.Identical(cc.Args[0].Type(), cc.Args[1].Type()) {
						out = append(out, diffEv{L: d.side(f, cc.Args[0]), R: d.side(f, cc.Args[1]), LO: OrgSet{}, RO: OrgSet{}, Kind: "nested", Gates: gates(), Pos: d.w.InstrPos(in), Early: d.w.EarlyExit(f, b)})
					}
					continue
				}
				if callee == nil || callee.Parent() != nil {
					continue
				}
				pk := fnPkg(callee)
				if pk == nil || pk.Path() != wcPath || len(callee.Blocks) == 0 {
					continue
				}
				name := callee.Name()
				if o := callee.Origin(); o != nil {
					name = o.Name()
				}
				if name == "CreateChange" {
					a := cc.Args
					e := diffEv{L: d.side(f, a[3]), R: d.side(f, a[4]), LO: d.objSide(f, a[6]), RO: d.objSide(f, a[7]), Gates: gates(), Pos: d.w.InstrPos(in), Early: d.w.EarlyExit(f, b)}
					ln, rn := isNilConst(a[3]) && isNilConst(a[6]), isNilConst(a[4]) && isNilConst(a[7])
					if k, ok := changeKind(d.w, a[1]); ok {
						e.Kind = k
					} else {
						switch {
						case rn && !ln:
							e.Kind = "removed"
						case ln && !rn:
							e.Kind = "added"
						default:
							e.Kind = "both"
						}
						if p, ok := a[1].(*ssa.Parameter); ok {
							e.KindP = p
						}
					}
					setLabel(&e, a[2])
					out = append(out, e)
					continue
				}
				if callee.Signature.Recv() != nil {
					continue
				}
				evs := d.Events(callee)
				args := f.callArgs(cc)
				gs := gates()
				early := d.w.EarlyExit(f, b)
				for i := range cc.Args {
					if isNilConst(cc.Args[i]) {
						args[i] = OrgSet{}
					}
				}
				if isPairComparator(callee) {
					e := diffEv{L: args[0], R: args[1], LO: OrgSet{}, RO: OrgSet{}, Kind: "nested", Gates: gs, Pos: d.w.InstrPos(in), Early: early}
					if cv, ok := in.(ssa.Value); ok && cv.Referrers() != nil && len(*cv.Referrers()) == 0 {
						e.Kind = "dropped"
					}
					out = append(out, e)
				}
				for _, e := range evs {
					n := diffEv{Deep: e.Deep || isPairComparator(callee) && strings.HasPrefix(callee.Name(), "Compare"), Kind: e.Kind, Pos: d.w.InstrPos(in), Early: e.Early || early, Label: e.Label}
					if e.KindP != nil {
						for i, p := range callee.Params {
							if p != e.KindP || i >= len(cc.Args) {
								continue
							}
							if k, ok := changeKind(d.w, cc.Args[i]); ok {
								n.Kind = k
							} else if pp, ok := cc.Args[i].(*ssa.Parameter); ok {
								n.KindP = pp
							}
						}
					}
					n.L = compose(e.L, callee.Params, args)
					n.R = compose(e.R, callee.Params, args)
					n.LO = compose(e.LO, callee.Params, args)
					n.RO = compose(e.RO, callee.Params, args)
					n.Gates = gs.clone()
					n.Gates.addAll(compose(e.Gates, callee.Params, args))
					if e.LabP != nil {
						for i, p := range callee.Params {
							if p == e.LabP && i < len(cc.Args) {
								setLabel(&n, cc.Args[i])
							}
						}
					}
					if len(n.L) == 0 && len(n.R) == 0 && len(n.LO) == 0 && len(n.RO) == 0 {
						continue
					}
					out = append(out, n)
				}
			}
		}
	}
	d.memo[root] = out
	return out
}

// funcValues resolves a function value to the declared functions it may denote.
func funcValues(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.ChangeType:
		return funcValues(x.X, depth+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, funcValues(e, depth+1)...)
		}
		return out
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			var out []*ssa.Function
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					out = append(out, funcValues(st.Val, depth+1)...)
				}
			}
			return out
		}
	}
	return nil
}

func paramsOf(f *Family, v ssa.Value) map[*ssa.Parameter]bool {
	out := map[*ssa.Parameter]bool{}
	for o := range f.get(v) {
		out[o.Root] = true
	}
	return out
}

// isPairComparator: exported Compare*-shaped function: first two parameters have the same
// type, it returns a *XxxChanges value (or slice/map of them).
func isPairComparator(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() < 2 || s.Results().Len() != 1 {
		return false
	}
	if !types.Identical(s.Params().At(0).Type(), s.Params().At(1).Type()) {
		return false
	}
	return strings.Contains(s.Results().At(0).Type().String(), "Changes")
}

// comparedTypes: the low models a comparator's first parameter denotes.
func (w *World) comparedTypes(fn *ssa.Function, all map[*types.Named]*Model) []*Model {
	t := fn.Signature.Params().At(0).Type()
	res := map[*Model]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			rec(x.Elem())
		case *types.Slice:
			rec(x.Elem())
		case *types.Named:
			if m := all[x]; m != nil {
				res[m] = true
				if m.N.Obj().Name() == "SchemaProxy" {
					for n, mm := range all {
						if n.Obj().Name() == "Schema" && mm.Pkg == "base" {
							delete(res, m)
							res[mm] = true
						}
					}
				}
				return
			}
			if x.TypeArgs() != nil {
				for i := 0; i < x.TypeArgs().Len(); i++ {
					rec(x.TypeArgs().At(i))
				}
			}
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		p := fn.Params[0]
		f := w.Family(fn)
		for _, g := range f.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ta, ok := in.(*ssa.TypeAssert); ok && f.get(ta.X)[Org{Root: p}] {
						if pt, ok := ta.AssertedType.(*types.Pointer); ok {
							if n := namedOf(pt); n != nil && all[n] != nil {
								res[all[n]] = true
							}
						}
					}
				}
			}
		}
	} else {
		rec(t)
	}
	var out []*Model
	for m := range res {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func sidesHas(s OrgSet, p *ssa.Parameter, fld *types.Var) bool {
	for o := range s {
		if o.Root == p && o.Field == fld {
			return true
		}
	}
	return false
}

func sideFields(s OrgSet, p *ssa.Parameter) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for o := range s {
		if o.Root == p && o.Field != nil {
			out[o.Field] = true
		}
	}
	return out
}

func sideRoot(s OrgSet, p *ssa.Parameter) bool {
	for o := range s {
		if o.Root == p {
			return true
		}
	}
	return false
}

func init() {
	register("C02", "for every comparison function and every content field of the objects it compares: the left object's field and the right object's field reach one comparison together (and, where that comparison only sees objects present on both sides, an addition and a removal are created as well), decided only by that field's own presence", checkDiffComplete)
}

type cmpInfo struct {
	fn   *ssa.Function
	l, r *ssa.Parameter
	ms   []*Model
	evs  []diffEv
}

func (w *World) comparators() []cmpInfo {
	all := map[*types.Named]*Model{}
	for _, m := range w.AllLow() {
		all[m.N] = m
	}
	d := &diffWalker{w: w, memo: map[*ssa.Function][]diffEv{}, busy: map[*ssa.Function]bool{}}
	var out []cmpInfo
	for _, fn := range w.fns {
		if fn.Parent() != nil || fn.Origin() != nil && fn.Origin() != fn || fnPkg(fn).Path() != wcPath {
			continue
		}
		if !isPairComparator(fn) || !strings.HasPrefix(fn.Name(), "Compare") {
			continue
		}
		ms := w.comparedTypes(fn, all)
		if len(ms) == 0 {
			continue
		}
		out = append(out, cmpInfo{fn, fn.Params[0], fn.Params[1], ms, d.Events(fn)})
	}
	return out
}

func checkDiffComplete(w *World, r *Reporter) {
	cs := w.comparators()
	for _, c := range cs {
		r.Fn(FnName(c.fn))
		for _, m := range c.ms {
			for _, fld := range m.Fields {
				key := c.fn.Name() + ":" + m.Name() + "." + fld.Name()
				if _, ok := diffExempt[key]; ok {
					continue
				}
				var prop, nested, both, rem, add bool
				why := "no comparison receives the field of both objects"
				for _, e := range c.evs {
					lh := sidesHas(e.L, c.l, fld) || sidesHas(e.LO, c.l, fld)
					rh := sidesHas(e.R, c.r, fld) || sidesHas(e.RO, c.r, fld)
					if !lh && !rh {
						continue
					}
					if bad := crossGate(e.Gates, c, m, fld); bad != "" {
						why = "the comparison at " + e.Pos + " only runs depending on another field, " + bad
						continue
					}
					switch e.Kind {
					case "prop":
						prop = prop || lh && rh
					case "nested":
						nested = nested || lh && rh
						// a comparison handed a zero value for one side reports the other as added or removed
						rem = rem || lh && len(e.R) == 0 && len(e.RO) == 0
						add = add || rh && len(e.L) == 0 && len(e.LO) == 0
					case "both":
						both = both || lh && rh
					case "removed":
						rem = rem || lh
					case "added":
						add = add || rh
					case "dropped":
						why = "the result of comparing it at " + e.Pos + " is discarded"
					}
				}
				switch {
				case prop, (nested || both) && rem && add, rem && add:
					r.OK("field-compared", key)
				case nested || both:
					miss := "removal"
					if rem {
						miss = "addition"
					}
					r.Bad("field-compared", key, w.Pos(c.fn.Pos()), fmt.Sprintf("%s: field %s is compared when both objects have it, but its %s is never reported", c.fn.Name(), fld.Name(), miss))
				default:
					r.Bad("field-compared", key, w.Pos(c.fn.Pos()), fmt.Sprintf("%s does not compare field %s of %s: %s", c.fn.Name(), fld.Name(), m.Name(), why))
				}
			}
		}
	}
	r.Min("field-compared", 250)
	checkDiffPairing(w, r, cs)
	checkCollected(w, r)
	checkWholeLoops(w, r)
}

func crossGate(g OrgSet, c cmpInfo, m *Model, fld *types.Var) string {
	content := map[*types.Var]bool{}
	for _, f := range m.Fields {
		content[f] = true
	}
	for o := range g {
		if o.Root != c.l && o.Root != c.r || o.Field == nil {
			continue
		}
		if o.Field != fld && content[o.Field] {
			return o.Field.Name()
		}
	}
	return ""
}

// wrongSide: the set has origins in the other object and none in its own.
func wrongSide(s OrgSet, own, other *ssa.Parameter) bool {
	return sideRoot(s, other) && !sideRoot(s, own)
}

func checkDiffPairing(w *World, r *Reporter, cs []cmpInfo) {
	for _, c := range cs {
		content := map[*types.Var]*Model{}
		for _, m := range c.ms {
			for _, f := range m.Fields {
				content[f] = m
			}
		}
		for _, e := range c.evs {
			if e.Kind == "dropped" || e.Deep {
				continue
			}
			lf, rf := sideFields(e.L, c.l), sideFields(e.R, c.r)
			lo, ro := sideFields(e.LO, c.l), sideFields(e.RO, c.r)
			name := func(m map[*types.Var]bool) string {
				var o []string
				for v := range m {
					o = append(o, v.Name())
				}
				sort.Strings(o)
				return strings.Join(o, ",")
			}
			any := name(lf) + name(rf) + name(lo) + name(ro)
			if any == "" {
				continue
			}
			key := c.fn.Name() + ":" + e.Kind + ":" + name(lf) + "/" + name(rf)
			if why, ok := labelExempt[c.fn.Name()+":"+name(lf)+name(rf)]; ok && e.Label != "" && (why.label == e.Label) {
				e.Label = ""
			}
			if wrongSide(e.L, c.l, c.r) || wrongSide(e.R, c.r, c.l) || wrongSide(e.LO, c.l, c.r) || wrongSide(e.RO, c.r, c.l) {
				r.Bad("sides", key, e.Pos, fmt.Sprintf("%s: a value of the right object is handed to the comparison as the left one, or the reverse (left node %s, right node %s, left object %s, right object %s)", c.fn.Name(), e.L, e.R, e.LO, e.RO))
			} else {
				r.OK("sides", key)
			}
			if len(lf) > 0 && len(rf) > 0 {
				if name(lf) != name(rf) {
					r.Bad("same-field", key, e.Pos, fmt.Sprintf("%s compares %s with %s", c.fn.Name(), name(lf), name(rf)))
				} else {
					r.OK("same-field", key)
				}
			}
			if e.Label != "" {
				fs := map[*types.Var]bool{}
				for v := range lf {
					fs[v] = true
				}
				for v := range rf {
					fs[v] = true
				}
				ok := false
				for v := range fs {
					if m := content[v]; m != nil && fieldLabel[m.Name()+"."+v.Name()] == e.Label {
						ok = true
					}
					if strings.EqualFold(v.Name(), strings.TrimPrefix(e.Label, "$")) {
						ok = true
					}
				}
				if ok {
					r.OK("label", key)
				} else if len(fs) > 0 {
					r.Bad("label", key, e.Pos, fmt.Sprintf("%s reports %s under the label %q", c.fn.Name(), name(fs), e.Label))
				}
			}
		}
	}
}
