package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "for every change-report type and every field that holds nested reports (pointer, slice or map): GetAllChanges, TotalChanges and TotalBreakingChanges include the same-named result of that field in what they return, decided only by that field's own presence, in no loop that can stop early", checkAggregation)
}

var aggrExempt = map[string]string{
	"ExamplesChanges.TotalBreakingChanges:PropertyChanges": "documented: examples cannot break a contract",
	"ResponseChanges.TotalBreakingChanges:ExamplesChanges": "as above, always zero",
}

// changesTypes: named struct types of what-changed/model whose name ends in Changes.
func (w *World) changesTypes() []*types.Named {
	var out []*types.Named
	for _, p := range w.pkgs {
		if p.PkgPath != wcPath && p.PkgPath != modPath+"/what-changed/reports" {
			continue
		}
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() || !strings.HasSuffix(nm, "Changes") {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); ok {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// holdsChanges: t is a pointer/slice/map (nested) of a change-report type.
func holdsChanges(t types.Type) bool {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return holdsChanges(x.Elem())
	case *types.Slice:
		return holdsChanges(x.Elem())
	case *types.Map:
		return holdsChanges(x.Elem())
	case *types.Named:
		return x.Obj().Pkg() != nil && x.Obj().Pkg().Path() == wcPath && strings.HasSuffix(x.Obj().Name(), "Changes")
	}
	return false
}

// holdsPlain: a slice of plain changes ([]*Change).
func holdsPlain(t types.Type) bool {
	return isSliceOf(t, wcPath, "Change")
}

// flowsOut: the value v takes part in what its function returns (through arithmetic,
// appends, local cells, closures' captured cells and calls).
func flowsOut(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return:
			return true
		case *ssa.Store:
			if x.Val == v && flowsCell(x.Addr, seen) {
				return true
			}
		case *ssa.If:
			// a counter stepped under this condition
			for _, b := range x.Parent().Blocks {
				for d := range map[*ssa.BasicBlock]bool{x.Block(): true} {
					if b != d && d.Dominates(b) {
						for _, in := range b.Instrs {
							if bo, ok := in.(*ssa.BinOp); ok && flowsOut(bo, seen) {
								return true
							}
						}
					}
				}
			}
		case ssa.Value:
			if flowsOut(x, seen) {
				return true
			}
		}
	}
	return false
}

func flowsCell(addr ssa.Value, seen map[ssa.Value]bool) bool {
	switch a := addr.(type) {
	case *ssa.FreeVar:
		// the captured cell: find the bindings
		for _, mc := range closuresOf(a.Parent()) {
			for i, fv := range a.Parent().FreeVars {
				if fv == a && i < len(mc.Bindings) && flowsOut(mc.Bindings[i], seen) {
					return true
				}
			}
		}
		return false
	case *ssa.FieldAddr:
		return flowsCell(a.X, seen) || flowsOut(a.X, seen)
	case *ssa.IndexAddr:
		return flowsOut(a.X, seen) || flowsCell(a.X, seen)
	case *ssa.Slice:
		return flowsOut(a, seen)
	}
	return flowsOut(addr, seen)
}

func closuresOf(fn *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc)
			}
		}
	}
	return out
}

// nestedCalls finds, interprocedurally, the values on which a method called name is invoked.
func (w *World) nestedCalls(root *ssa.Function, name string, busy map[*ssa.Function]bool) []SinkEvent {
	root = rootFn(root)
	if busy[root] {
		return nil
	}
	busy[root] = true
	defer delete(busy, root)
	f := w.Family(root)
	var out []SinkEvent
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				// direct use of the Changes slice of a report (range/append/len)
				if fa, ok := in.(*ssa.FieldAddr); ok {
					fld := structFieldOf(fa.X.Type(), fa.Field)
					if fld != nil && (fld.Name() == "Changes" && holdsChanges(fa.X.Type()) && name == "GetAllChanges" || holdsPlain(fld.Type()) && fld.Name() != "Changes") && flowsOut(fa, map[ssa.Value]bool{}) {
						out = append(out, SinkEvent{In: in, Orgs: f.get(fa).clone(), Gates: f.Gates(b), Pos: w.InstrPos(in), Early: false})
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				cv, isVal := in.(ssa.Value)
				if !isVal || !flowsOut(cv, map[ssa.Value]bool{}) {
					continue
				}
				if cc.IsInvoke() {
					if cc.Method.Name() == name {
						out = append(out, SinkEvent{In: in, Orgs: f.valMem(cc.Value), Gates: f.Gates(b), Pos: w.InstrPos(in), Early: w.EarlyExit(f, b)})
					}
					continue
				}
				cal := cc.StaticCallee()
				if cal == nil {
					// method expression / method value handed to a helper
					continue
				}
				if cal.Name() == name && cal.Signature.Recv() != nil && len(cc.Args) > 0 {
					out = append(out, SinkEvent{In: in, Orgs: f.valMem(cc.Args[0]), Gates: f.Gates(b), Pos: w.InstrPos(in), Early: w.EarlyExit(f, b)})
					continue
				}
				if !inRepo(cal) || len(cal.Blocks) == 0 || cal.Parent() != nil {
					continue
				}
				evs := w.nestedCalls(cal, name, busy)
				if len(evs) == 0 {
					continue
				}
				args := f.callArgs(cc)
				gates := f.Gates(b)
				early := w.EarlyExit(f, b)
				for _, e := range evs {
					g2 := gates.clone()
					g2.addAll(compose(e.Gates, cal.Params, args))
					out = append(out, SinkEvent{In: in, Orgs: compose(e.Orgs, cal.Params, args), Gates: g2, Pos: w.InstrPos(in), Early: early || e.Early})
				}
			}
		}
	}
	return out
}

func checkAggregation(w *World, r *Reporter) {
	cts := w.changesTypes()
	for _, n := range cts {
		st := n.Underlying().(*types.Struct)
		for _, mname := range []string{"GetAllChanges", "TotalChanges", "TotalBreakingChanges"} {
			own := w.Method(n, mname)
			for i := 0; i < st.NumFields(); i++ {
				fld := st.Field(i)
				if !holdsChanges(fld.Type()) && !(holdsPlain(fld.Type()) && n.Obj().Name() != "PropertyChanges") {
					continue
				}
				key := n.Obj().Name() + "." + mname + ":" + fld.Name()
				if mname == "TotalBreakingChanges" && fld.Name() == "ExtensionChanges" {
					continue // extensions are outside the contract; most types leave them out of the breaking count
				}
				if aggrExempt[key] != "" {
					continue
				}
				if own == nil {
					// promoted from the embedded report
					if fld.Embedded() {
						r.OK("aggregated", key)
					} else {
						r.Bad("aggregated", key, w.Pos(n.Obj().Pos()), fmt.Sprintf("%s has no %s of its own, so the changes under %s are not included", n.Obj().Name(), mname, fld.Name()))
					}
					continue
				}
				r.Fn(FnName(own))
				recv := own.Params[0]
				var hits []SinkEvent
				found, why := false, "it is never called for that field"
				for _, e := range w.nestedCalls(own, mname, map[*ssa.Function]bool{}) {
					hit := false
					for o := range e.Orgs {
						if o.Root == recv && o.Field == fld {
							hit = true
						}
					}
					if !hit {
						continue
					}
					if e.Early {
						why = "the loop over it at " + e.Pos + " can stop before the last element"
						continue
					}
					if ok, other := gatesOnlyOn(e.Gates, recv, fld); !ok {
						why = "whether it is included depends on another field, " + other + " (" + e.Pos + ")"
						continue
					}
					found = true
					hits = append(hits, e)
				}
				for i, a := range hits {
					for j, b := range hits {
						if i < j && a.In != b.In && a.In.Parent() == b.In.Parent() && !holdsPlain(fld.Type()) {
							if ok, _ := CanReach(a.In, func(x ssa.Instruction) bool { return x == b.In }, nil); ok {
								found, why = false, "it is counted twice ("+a.Pos+" and "+b.Pos+")"
							}
						}
					}
				}
				if found {
					r.OK("aggregated", key)
				} else {
					r.Bad("aggregated", key, w.Pos(own.Pos()), fmt.Sprintf("%s.%s does not include %s as it should: %s", n.Obj().Name(), mname, fld.Name(), why))
				}
			}
		}
	}
	r.Min("aggregated", 250)
}
