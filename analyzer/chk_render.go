package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: rendering writes every field of a high-level object under its own keyword.

// renderType is a high-level type with a MarshalYAML method.
type renderType struct {
	N    *types.Named
	S    *types.Struct
	Pkg  string
	M    *ssa.Function // MarshalYAML
	Hand bool          // writes its keywords itself instead of using a NodeBuilder
}

func (t *renderType) Name() string { return t.Pkg + "." + t.N.Obj().Name() }

func (w *World) renderTypes() []*renderType {
	var out []*renderType
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, highPath+"/") {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}
			h, ok := tn.Type().(*types.Named)
			if !ok || h.TypeParams().Len() > 0 {
				continue
			}
			st, ok := h.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := w.Method(h, "MarshalYAML")
			if m == nil {
				continue
			}
			rt := &renderType{N: h, S: st, Pkg: p.Types.Name(), M: m}
			rt.Hand = !w.usesBuilder(m, 0, map[*ssa.Function]bool{})
			out = append(out, rt)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func isBuilderFn(c *ssa.CallCommon) bool {
	cal := StaticCallee(c)
	if cal == nil || cal.Pkg == nil && cal.Origin() == nil {
		return false
	}
	if p := fnPkg(cal); p == nil || p.Path() != highPath {
		return false
	}
	switch cal.Name() {
	case "NewNodeBuilder", "RenderInline", "RenderInlineWithContext":
		return true
	}
	return false
}

// usesBuilder: fn makes a NodeBuilder, itself or in a function of its package.
func (w *World) usesBuilder(fn *ssa.Function, depth int, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] || depth > 3 {
		return false
	}
	seen[fn] = true
	var fns []*ssa.Function
	collectFamily(fn, &fns)
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if isBuilderFn(c.Common()) {
					return true
				}
				if cal := StaticCallee(c.Common()); cal != nil && fnPkg(cal) == fnPkg(fn) && w.usesBuilder(cal, depth+1, seen) {
					return true
				}
			}
		}
	}
	return false
}

func tagName(s *types.Struct, i int, which string) (string, []string) {
	t := strings.Split(reflect.StructTag(s.Tag(i)).Get(which), ",")
	return t[0], t[1:]
}

// fields of rendered types that are not part of the document
var notRendered = map[string]bool{
	"base.Schema.ParentProxy":                           true,
	"v3.Document.Index":                                 true,
	"v3.Document.Rolodex":                               true,
	"base.SecurityRequirement.ContainsEmptyRequirement": true, // says that Requirements is empty
}

// keywords that are not the name of the field
var tagOf = map[string]string{
	"arazzo.Criterion.ExpressionType": "type",
	"arazzo.Criterion.Type":           "type",
}

// a pointer to a zero that is not written: writing the value the specification gives the
// keyword anyway (false), or one it forbids (multipleOf: 0)
var zeroIsDefault = map[string]bool{"uniqueItems": true, "nullable": true, "deprecated": true, "multipleOf": true}

func init() {
	register("C07", "every exported field of a rendered high-level object is written under its own keyword, whatever the other fields hold, with its own low-level object", checkRender)
}

func checkRender(w *World, r *Reporter) {
	r.Min("keyword", 200)
	r.Min("builder-self", 50)
	r.Min("written", 60)
	r.Min("custom", 8)
	r.Min("builder-loop", 3)
	for _, t := range w.renderTypes() {
		r.Fn(FnName(t.M))
		tags := map[string]string{}
		byTag := map[string]string{}
		for i := 0; i < t.S.NumFields(); i++ {
			f := t.S.Field(i)
			key := t.Name() + "." + f.Name()
			if !f.Exported() || f.Embedded() || notRendered[key] {
				continue
			}
			y, opts := tagName(t.S, i, "yaml")
			j, _ := tagName(t.S, i, "json")
			pos := w.Pos(f.Pos())
			if f.Name() == "Extensions" {
				if !t.Hand {
					// written by the builder under the keys of the map
					r.OK("keyword", key)
				}
				tags[f.Name()] = "*"
				continue
			}
			if k, ok := tagOf[key]; ok {
				tags[f.Name()] = k
				continue
			}
			if y == "-" {
				tags[f.Name()] = "-"
				continue
			}
			want := strings.ToLower(f.Name()[:1]) + f.Name()[1:]
			if !sameKeyword(y, want, key) {
				r.Bad("keyword", key, pos, fmt.Sprintf("field %s of %s is written under the keyword %q", f.Name(), t.Name(), y))
			} else if o := byTag[y]; o != "" {
				r.Bad("keyword", key, pos, fmt.Sprintf("fields %s and %s of %s are written under the same keyword %q", o, f.Name(), t.Name(), y))
			} else if j != y {
				r.Bad("keyword", key, pos, fmt.Sprintf("field %s of %s is %q in YAML and %q in JSON", f.Name(), t.Name(), y, j))
			} else {
				r.OK("keyword", key)
			}
			byTag[y] = f.Name()
			tags[f.Name()] = y
			if t.Hand {
				continue
			}
			if why := unrenderable(f.Type(), w); why != "" {
				r.Bad("type-rendered", key, pos, fmt.Sprintf("field %s of %s is of a type the node builder does not write: %s", f.Name(), t.Name(), why))
			} else {
				r.OK("type-rendered", key)
			}
			if p, ok := f.Type().(*types.Pointer); ok {
				if b, ok := p.Elem().(*types.Basic); ok && (b.Kind() == types.Bool || b.Kind() == types.Int64 || b.Kind() == types.Float64) && !zeroIsDefault[y] {
					rz := false
					for _, o := range opts {
						if o == "renderZero" {
							rz = true
						}
					}
					if rz {
						r.OK("zero-written", key)
					} else {
						r.Bad("zero-written", key, pos, fmt.Sprintf("an explicit zero of field %s of %s is not written: the field is a pointer to tell it from an absent one but has no renderZero", f.Name(), t.Name()))
					}
				}
			}
		}
		if t.Hand {
			w.checkHandWritten(r, t, tags)
		}
		w.checkCustom(r, t, tags)
	}
	w.checkBuilderSelf(r)
	w.checkBuilderLoops(r)
}

// checkBuilderLoops: the node builder is given every field, writes every entry and every pair
// of an ordered map: the calls that do lie in loops that run to their end and that do not skip
// them.
func (w *World) checkBuilderLoops(r *Reporter) {
	for _, fn := range w.fns {
		p := fnPkg(fn)
		if p == nil || p.Path() != highPath && p.Path() != modPath+"/orderedmap" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := ""
				if c := ci.Common(); c.IsInvoke() {
					name = c.Method.Name()
				} else if cal := StaticCallee(c); cal != nil && cal.Signature.Recv() != nil && recvName(cal.Signature.Recv().Type()) == "NodeBuilder" {
					name = cal.Name()
				}
				if name != "add" && name != "AddYAMLNode" {
					continue
				}
				key := FnName(fn)
				r.Fn(key)
				inLoop, skipped := false, false
				ctl := w.CtrlBlocks(b)
				for h, body := range loopBlocks(fn) {
					if !body[b] {
						continue
					}
					inLoop = true
					for x := range ctl {
						if body[x] && x != h {
							skipped = true
						}
					}
				}
				switch {
				case !inLoop:
					r.Bad("builder-loop", key, w.InstrPos(in), "the node builder is not given every field or entry: the call is in no loop")
				case skipped:
					r.Bad("builder-loop", key, w.InstrPos(in), "the node builder is not given every field or entry: the loop can skip some")
				case w.EarlyExit(w.Family(fn), b):
					r.Bad("builder-loop", key, w.InstrPos(in), "the node builder is not given every field or entry: the loop can stop early")
				default:
					r.OK("builder-loop", key)
				}
			}
		}
	}
}

func sameKeyword(tag, want, key string) bool {
	switch tag {
	case want, "$" + want:
		return true
	}
	alt := map[string]string{
		"SchemaTypeRef":     "$schema",
		"Reference":         "$ref",
		"OAuth2MetadataUrl": "oauth2MetadataUrl",
	}
	if key == "v3.Document.Version" {
		return tag == "openapi"
	}
	if up := key[strings.LastIndex(key, ".")+1:]; up == strings.ToUpper(up) {
		return tag == strings.ToLower(up)
	}
	n := key[strings.LastIndex(key, ".")+1:]
	if a, ok := alt[n]; ok {
		return tag == a || n == "Reference" && tag == "reference"
	}
	return false
}

// unrenderable: the type is none of those NodeBuilder.AddYAMLNode has a case for.
func unrenderable(t types.Type, w *World) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Float32, types.Float64:
			return ""
		}
		return t.String()
	case *types.Slice:
		return ""
	case *types.Pointer:
		return ""
	case *types.Interface:
		return ""
	}
	return t.String()
}

// checkBuilderSelf: a node builder is made for an object and the low-level object of the same object.
func (w *World) checkBuilderSelf(r *Reporter) {
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isBuilderFn(ci.Common()) || len(ci.Common().Args) < 2 {
					continue
				}
				if p := fnPkg(fn); p != nil && p.Path() == highPath {
					continue // the helpers themselves
				}
				h, l := unwrapIface(ci.Common().Args[0]), unwrapIface(ci.Common().Args[1])
				key := FnName(fn)
				if c, ok := l.(*ssa.Const); ok && c.IsNil() {
					r.OK("builder-self", key)
					continue
				}
				r.Fn(FnName(rootFn(fn)))
				if lowObjectOf(h, l) {
					r.OK("builder-self", key)
				} else {
					r.Bad("builder-self", key, w.InstrPos(in), "an object is rendered with the low-level object of another one, or with none of its own")
				}
			}
		}
	}
}

func unwrapIface(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// lowObjectOf: l is what h's private low field holds (or its accessor returns).
func lowObjectOf(h, l ssa.Value) bool {
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		// two loads of the same cell or of the same field of the same object
		ua, ok := a.(*ssa.UnOp)
		if !ok {
			return false
		}
		ub, ok := b.(*ssa.UnOp)
		if !ok {
			return false
		}
		if ua.X == ub.X {
			return true
		}
		fa, ok := ua.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		fb, ok := ub.X.(*ssa.FieldAddr)
		return ok && fa.X == fb.X && fa.Field == fb.Field
	}
	switch x := l.(type) {
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		f := structFieldOf(fa.X.Type(), fa.Field)
		return f != nil && f.Name() == "low" && same(fa.X, h)
	case *ssa.Call:
		cal := StaticCallee(&x.Call)
		return cal != nil && (cal.Name() == "GoLow" || cal.Name() == "GoLowUntyped") && len(x.Call.Args) == 1 && same(x.Call.Args[0], h)
	}
	return false
}

// checkHandWritten: a MarshalYAML that fills an ordered map itself.
func (w *World) checkHandWritten(r *Reporter, t *renderType, tags map[string]string) {
	f := w.Family(t.M)
	recv := t.M.Params[0]
	type ev struct {
		in    ssa.Instruction
		label string
		flds  map[string]bool
		gates map[string]bool
	}
	var evs []ev
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				e := ev{in: in, flds: map[string]bool{}, gates: map[string]bool{}}
				onMap := false
				for _, a := range c.Args {
					if isMapOrInner(a) && fieldLoaded(a, t.N) == nil {
						onMap = true
						continue
					}
					if k, ok := a.(*ssa.Const); ok && k.Value != nil {
						if s, ok := constString(k); ok {
							e.label = s
							continue
						}
					}
					for o := range f.get(a) {
						if o.Root == recv && o.Field != nil {
							e.flds[o.Field.Name()] = true
						}
					}
				}
				if !onMap || len(e.flds) == 0 {
					continue
				}
				for o := range f.Gates(b) {
					if o.Root == recv && o.Field != nil {
						e.gates[o.Field.Name()] = true
					}
				}
				evs = append(evs, e)
			}
		}
	}
	names := make([]string, 0, len(tags))
	for n := range tags {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		key := t.Name() + "." + n
		want := tags[n]
		if want == "-" {
			continue // checkCustom
		}
		ok, why := false, "nothing writes it"
		for _, e := range evs {
			if !e.flds[n] {
				continue
			}
			if want != "*" && e.label != want {
				why = fmt.Sprintf("it is written as %q (%s)", e.label, w.InstrPos(e.in))
				continue
			}
			bad := ""
			for g := range e.gates {
				if g != n && !(g == "Reference") && !(t.Name() == "arazzo.Criterion" && g == "ExpressionType") {
					bad = g
				}
			}
			if bad != "" {
				why = fmt.Sprintf("whether it is written depends on field %s (%s)", bad, w.InstrPos(e.in))
				continue
			}
			ok = true
		}
		if ok {
			r.OK("written", key)
		} else {
			r.Bad("written", key, w.Pos(t.M.Pos()), fmt.Sprintf("field %s of %s does not come out under its keyword: %s", n, t.Name(), why))
		}
	}
	for i := 0; i < t.S.NumFields(); i++ {
		fld := t.S.Field(i)
		p, ok := fld.Type().(*types.Pointer)
		if !ok || !fld.Exported() {
			continue
		}
		if _, ok := p.Elem().Underlying().(*types.Basic); !ok {
			continue
		}
		key := t.Name() + "." + fld.Name()
		for _, e := range evs {
			if !e.flds[fld.Name()] {
				continue
			}
			byValue := false
			for cb := range w.CtrlBlocks(e.in.Block()) {
				if iff, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.If); ok && looksThrough(iff.Cond, t.N, fld, 0) {
					byValue = true
				}
			}
			if byValue {
				r.Bad("zero-written", key, w.InstrPos(e.in), fmt.Sprintf("an explicit zero of field %s of %s is not written: whether it is written depends on the value, not on its presence", fld.Name(), t.Name()))
			} else {
				r.OK("zero-written", key)
			}
		}
	}
	for _, e := range evs {
		for n := range e.flds {
			want := tags[n]
			if want == "" || want == "*" && e.label == "" || want == e.label {
				continue
			}
			r.Bad("written", t.Name()+"."+n+"="+e.label, w.InstrPos(e.in), fmt.Sprintf("field %s of %s is written under the keyword %q", n, t.Name(), e.label))
		}
	}
}

// checkCustom: fields the builder does not write (yaml:"-") reach what each of the marshalling
// methods returns.
func (w *World) checkCustom(r *Reporter, t *renderType, tags map[string]string) {
	for n, k := range tags {
		if k != "-" {
			continue
		}
		for _, mn := range []string{"MarshalYAML", "MarshalYAMLInline", "MarshalYAMLInlineWithContext"} {
			m := w.Method(t.N, mn)
			if m == nil {
				continue
			}
			r.Fn(FnName(m))
			f := w.Family(m)
			got := false
			w.wholeCustom(r, t, n, mn, m, map[*ssa.Function]bool{})
			for _, b := range m.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) == 0 {
					continue
				}
				for o := range f.valMem(ret.Results[0]) {
					if o.Root == m.Params[0] && (o.Field != nil && o.Field.Name() == n) {
						got = true
					}
				}
			}
			key := t.Name() + "." + n + "@" + mn
			if got {
				r.OK("custom", key)
			} else {
				r.Bad("custom", key, w.Pos(m.Pos()), fmt.Sprintf("field %s of %s does not reach what %s returns", n, t.Name(), mn))
			}
		}
	}
}

// isMapOrInner: an ordered map, or the map embedded in it.
func isMapOrInner(v ssa.Value) bool {
	if isOrderedMapType(v.Type()) {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return isOrderedMapType(fa.X.Type())
		}
	}
	return false
}

// wholeCustom: no loop that collects the elements of field n stops before the last one.
func (w *World) wholeCustom(r *Reporter, t *renderType, n, mn string, m *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[m] {
		return
	}
	seen[m] = true
	f := w.Family(m)
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if cal := StaticCallee(&c.Call); cal != nil && len(cal.Params) > 0 && namedOf(cal.Params[0].Type()) == t.N && cal.Name() != mn && strings.HasPrefix(strings.ToLower(cal.Name()), "marshalyaml") {
					w.wholeCustom(r, t, n, mn, cal, seen)
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				has := false
				for _, a := range c.Call.Args[1:] {
					for o := range f.valMem(a) {
						if o.Root == m.Params[0] && o.Field != nil && o.Field.Name() == n {
							has = true
						}
					}
				}
				if !has {
					continue
				}
				key := t.Name() + "." + n + "@" + mn + "#" + FnName(g)
				if w.EarlyStop(f, b) {
					r.Bad("custom-loop", key, w.InstrPos(in), fmt.Sprintf("the loop that writes the elements of %s of %s can stop before the last one", n, t.Name()))
				} else {
					r.OK("custom-loop", key)
				}
			}
		}
	}
}

// looksThrough: the condition compares what the pointer in field fld points to.
func looksThrough(v ssa.Value, h *types.Named, fld *types.Var, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return looksThrough(x.X, h, fld, depth+1) || looksThrough(x.Y, h, fld, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if looksThrough(e, h, fld, depth+1) {
				return true
			}
		}
	case *ssa.UnOp:
		if u, ok := x.X.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == h && structFieldOf(fa.X.Type(), fa.Field) == fld {
				return true
			}
		}
		return looksThrough(x.X, h, fld, depth+1)
	}
	return false
}
