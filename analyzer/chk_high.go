package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: every content field of a low-level object is carried over to the high-level object.

const highPath = modPath + "/datamodel/high"

// highPair is a high-level model type and the low-level type it is made from.
type highPair struct {
	H   *types.Named
	L   *Model
	pkg string
}

func (p highPair) Name() string { return p.pkg + "." + p.H.Obj().Name() }

// highPairs: exported structs of datamodel/high/<pkg> with a private field low of type *L.
func (w *World) highPairs() []highPair {
	all := map[*types.Named]*Model{}
	for _, m := range w.AllLow() {
		all[m.N] = m
	}
	var out []highPair
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, highPath+"/") {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}
			h, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := h.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Exported() || f.Embedded() {
					continue
				}
				if _, isP := f.Type().(*types.Pointer); !isP {
					continue
				}
				if l := all[namedOf(f.Type())]; l != nil {
					out = append(out, highPair{h, l, p.Types.Name()})
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

type highStore struct {
	fn    *ssa.Function
	in    ssa.Instruction
	orgs  OrgSet
	gates OrgSet
	lp    *ssa.Parameter
	early bool
	fill  bool // a map held by the field is filled in place
}

// highStores: the assignments to the exported fields of H in functions of the high packages
// that take a low object, keyed by field.
func (w *World) highStores(p highPair) map[*types.Var][]highStore {
	out := map[*types.Var][]highStore{}
	for _, fn := range w.fns {
		if !strings.HasPrefix(fnPkg(fn).Path(), highPath) || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		root := rootFn(fn)
		var lp *ssa.Parameter
		for _, q := range root.Params {
			if namedOf(q.Type()) == p.L.N {
				lp = q
			}
		}
		if lp == nil {
			continue
		}
		f := w.Family(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && len(ci.Common().Args) > 1 {
					// a map held by the field is filled in place
					if fld := fieldLoaded(ci.Common().Args[0], p.H); fld != nil && isOrderedMapType(fld.Type()) {
						orgs := OrgSet{}
						for _, a := range ci.Common().Args[1:] {
							orgs.addAll(f.valMem(a))
						}
						out[fld] = append(out[fld], highStore{fn, in, orgs, f.Gates(b), lp, w.EarlyExit(f, b), true})
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != p.H {
					continue
				}
				fld := structFieldOf(fa.X.Type(), fa.Field)
				if fld == nil || !fld.Exported() {
					continue
				}
				hs := highStore{fn, st, w.highOrgs(f, p.H, st.Val, map[ssa.Value]bool{}), f.Gates(b), lp, w.EarlyExit(f, b), false}
				hs.viaTag(w, f)
				out[fld] = append(out[fld], hs)
			}
		}
	}
	return out
}

func init() {
	register("C06", "every content field of every low-level object reaches the field of the same name of the high-level object made from it, and no other field of the low object does; whether it does is decided only by that field's own presence", checkHigh)
}

func checkHigh(w *World, r *Reporter) {
	r.Min("carried", 350)
	r.Min("own-field", 350)
	for _, p := range w.highPairs() {
		stores := w.highStores(p)
		lf := map[string]*types.Var{}
		for _, f := range p.L.Fields {
			lf[f.Name()] = f
		}
		st := p.H.Underlying().(*types.Struct)
		hf := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			h := st.Field(i)
			if !h.Exported() || h.Embedded() {
				continue
			}
			hf[h.Name()] = true
			key := p.Name() + "." + h.Name()
			l := lf[h.Name()]
			if l == nil {
				r.Note("high field without low field: " + key)
				continue
			}
			if len(stores[h]) == 0 {
				r.Bad("carried", key, w.Pos(h.Pos()), fmt.Sprintf("field %s of the low-level %s never reaches the high-level object: nothing assigns the field", h.Name(), p.L.Name()))
				continue
			}
			carried, why := false, "no value assigned to it comes from it"
			for _, s := range stores[h] {
				r.Fn(FnName(rootFn(s.fn)))
				k := key + "@" + FnName(s.fn)
				own := false
				foreign := ""
				for o := range s.orgs {
					if o.Root != s.lp || o.Field == nil || lf[o.Field.Name()] != o.Field {
						continue
					}
					if o.Field == l {
						own = true
					} else {
						foreign = o.Field.Name()
					}
				}
				if s.fill && own {
					foreign = ""
				}
				if foreign != "" {
					r.Bad("own-field", k, w.InstrPos(s.in), fmt.Sprintf("field %s of the high-level %s is given a value of field %s of the low-level object", h.Name(), p.Name(), foreign))
				} else {
					r.OK("own-field", k)
				}
				if !own {
					continue
				}
				if ok, other := gatesOnlyOn(s.gates, s.lp, l); !ok {
					why = "whether it does depends on another field, " + other + " (" + w.InstrPos(s.in) + ")"
					continue
				}
				if s.early {
					why = "it is assigned in a loop that can stop early (" + w.InstrPos(s.in) + ")"
					continue
				}
				carried = true
			}
			if carried {
				r.OK("carried", key)
			} else {
				r.Bad("carried", key, w.Pos(h.Pos()), fmt.Sprintf("field %s of the low-level %s does not reach the high-level object as it should: %s", h.Name(), p.L.Name(), why))
			}
		}
		for n := range lf {
			if !hf[n] {
				r.Note("low field without high field: " + p.Name() + "." + n)
			}
		}
	}
}

// highOrgs: where the assigned value comes from. What the high object already holds does not
// count, and a value made by a local function literal comes from what that call is given.
func (w *World) highOrgs(f *Family, h *types.Named, v ssa.Value, seen map[ssa.Value]bool) OrgSet {
	out := OrgSet{}
	for _, x := range localVals(f, v, 0, map[ssa.Value]bool{}) {
		if seen[x] {
			continue
		}
		seen[x] = true
		c, ok := x.(*ssa.Call)
		if !ok {
			out.addAll(f.valMem(x))
			continue
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for i, a := range c.Call.Args {
				if i == 0 {
					if u, ok := a.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == h {
							continue
						}
					}
					out.addAll(w.highOrgs(f, h, a, seen))
					continue
				}
				out.addAll(f.valMem(a))
			}
			continue
		}
		if f.localLiteral(c.Call.Value) {
			for _, a := range c.Call.Args {
				out.addAll(f.valMem(a))
			}
			continue
		}
		out.addAll(f.valMem(x))
	}
	return out
}

// viaTag: an assignment chosen by a constant tag (a switch over a parameter of a function
// literal, or over the tag that came with the value through a channel) takes its value from
// the calls of the literal that are given that constant.
func (s *highStore) viaTag(w *World, f *Family) {
	tags := map[string]bool{}
	for cb := range w.CtrlBlocks(s.in.Block()) {
		iff, ok := cb.Instrs[len(cb.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op.String() != "==" {
			continue
		}
		if t := cb.Succs[0]; len(t.Preds) != 1 || !t.Dominates(s.in.Block()) {
			continue
		}
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			if c, ok := o.(*ssa.Const); ok && c.Value != nil {
				tags[c.Value.ExactString()] = true
			}
		}
	}
	if len(tags) == 0 {
		return
	}
	orgs := OrgSet{}
	gates := OrgSet{}
	found := false
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if !f.localLiteral(ci.Common().Value) {
					continue
				}
				hit := false
				for _, a := range ci.Common().Args {
					if c, ok := a.(*ssa.Const); ok && c.Value != nil && tags[c.Value.ExactString()] {
						hit = true
					}
				}
				if !hit {
					continue
				}
				found = true
				for _, a := range ci.Common().Args {
					orgs.addAll(f.valMem(a))
				}
				gates.addAll(f.Gates(b))
			}
		}
	}
	if found {
		s.orgs, s.gates = orgs, gates
	}
}

// localLiteral: the value denotes a function literal of this family.
func (f *Family) localLiteral(v ssa.Value) bool {
	for _, x := range localVals(f, v, 0, map[ssa.Value]bool{}) {
		if cl := closureFns(x, 0); len(cl) > 0 && rootFn(cl[0]) == f.root {
			return true
		}
	}
	return false
}

func isOrderedMapType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/orderedmap"
}

// fieldLoaded: v is what a field of an H holds (or the map embedded in it).
func fieldLoaded(v ssa.Value, h *types.Named) *types.Var {
	for i := 0; i < 4; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		if namedOf(fa.X.Type()) == h {
			return structFieldOf(fa.X.Type(), fa.Field)
		}
		v = fa.X
	}
	return nil
}
