package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSliceOf(t types.Type, pkg, name string) bool {
	s, ok := types.Unalias(t).(*types.Slice)
	return ok && IsType(s.Elem(), pkg, name)
}

func isPtrToSliceOf(t types.Type, pkg, name string) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && isSliceOf(p.Elem(), pkg, name)
}

// checkCollected: what a comparison function finds it also returns.
//   - every property check that is built is run (CheckProperties) on every path to a return
//   - every change recorded in a local accumulator is read back afterwards on every path to
//     a return
func checkCollected(w *World, r *Reporter) {
	runs := func(in ssa.Instruction) bool {
		if equalReturn(in) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cal := c.Common().StaticCallee()
		if cal == nil || fnPkg(cal) == nil || fnPkg(cal).Path() != wcPath {
			return false
		}
		// a callee that takes the checks and reads them: CheckProperties or a wrapper of it
		for i, a := range c.Common().Args {
			if isSliceOf(a.Type(), wcPath, "PropertyCheck") && cal.Signature.Results().Len() == 0 && i < len(cal.Params) {
				return true
			}
		}
		return false
	}
	for _, fn := range w.fns {
		if fnPkg(fn).Path() != wcPath {
			continue
		}
		// functions that hand the checks on transfer the duty to their callers
		transfers := false
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if strings.Contains(fn.Signature.Results().At(i).Type().String(), "PropertyCheck") {
				transfers = true
			}
		}
		for _, p := range fn.Params {
			if isPtrToSliceOf(p.Type(), wcPath, "PropertyCheck") || isSliceOf(p.Type(), wcPath, "PropertyCheck") {
				transfers = true
			}
		}
		for _, fv := range fn.FreeVars {
			if isPtrToSliceOf(fv.Type(), wcPath, "PropertyCheck") {
				transfers = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				made := false
				switch x := in.(type) {
				case *ssa.Alloc:
					if IsType(x.Type(), wcPath, "PropertyCheck") && x.Heap {
						if pt, ok := x.Type().(*types.Pointer); ok && namedOf(pt.Elem()) != nil {
							if _, isPtr := types.Unalias(pt.Elem()).(*types.Pointer); !isPtr {
								made = true
							}
						}
					}
				case *ssa.Call:
					if cal := x.Call.StaticCallee(); cal != nil && inRepo(cal) && !runs(in) {
						for _, a := range x.Call.Args {
							if isPtrToSliceOf(a.Type(), wcPath, "PropertyCheck") {
								made = true
							}
						}
						if strings.Contains(x.Type().String(), "model.PropertyCheck") {
							made = true
						}
					}
				}
				if !made || transfers {
					continue
				}
				key := FnName(fn)
				r.Fn(key)
				if ok, ex := MustReach(in, runs, nil); ok {
					r.OK("checks-run", key)
				} else {
					r.Bad("checks-run", key, w.InstrPos(in), fmt.Sprintf("a property comparison is prepared here, but the return at %s is reached without running it, so a difference there is lost", w.InstrPos(ex)))
				}
			}
		}
		// accumulators
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if collectExempt[FnName(fn)] != "" {
					continue
				}
				if !ok || !isSliceOf(al.Type().(*types.Pointer).Elem(), wcPath, "Change") || al.Referrers() == nil {
					continue
				}
				isRead := func(x ssa.Instruction) bool {
					if equalReturn(x) {
						return true
					}
					u, ok := x.(*ssa.UnOp)
					if !ok || u.X != ssa.Value(al) {
						return false
					}
					// a load that only feeds an append to itself is not a read
					if u.Referrers() == nil {
						return false
					}
					for _, ref := range *u.Referrers() {
						c, isCall := ref.(*ssa.Call)
						if !isCall {
							return true
						}
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" && len(c.Call.Args) > 0 && c.Call.Args[0] == ssa.Value(u) {
								continue
							}
						}
						return true
					}
					return false
				}
				for _, ref := range *al.Referrers() {
					c, ok := ref.(ssa.CallInstruction)
					if !ok {
						continue
					}
					passes := false
					for _, a := range c.Common().Args {
						if a == ssa.Value(al) {
							passes = true
						}
					}
					if !passes {
						continue
					}
					key := FnName(fn)
					if ok, ex := MustReach(c, isRead, nil); ok {
						r.OK("changes-kept", key)
					} else {
						r.Bad("changes-kept", key, w.InstrPos(c), fmt.Sprintf("changes may be recorded here, but the return at %s is reached without the recorded changes being read again, so they are lost", w.InstrPos(ex)))
					}
				}
			}
		}
	}
	r.Min("checks-run", 60)
	r.Min("changes-kept", 200)
}

// collectExempt: functions whose local accumulator is deliberately dropped.
var collectExempt = map[string]string{
	"what-changed/model.checkParameterExample": "its findings duplicate those of the example property check, which is run; only the copy is dropped",
}

// equalReturn: in returns because the two objects compare equal (a hash comparison
// decides it), so nothing can have been found.
func equalReturn(in ssa.Instruction) bool {
	rt, ok := in.(*ssa.Return)
	if !ok || len(rt.Results) != 1 || !isNilConst(rt.Results[0]) {
		return false
	}
	for _, p := range rt.Block().Preds {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, ok := iff.Cond.(*ssa.Call)
		if !ok || p.Succs[0] != rt.Block() {
			return false
		}
		cal := c.Call.StaticCallee()
		if cal == nil || len(c.Call.Args) != 2 || !types.Identical(c.Call.Args[0].Type(), c.Call.Args[1].Type()) {
			return false
		}
	}
	return len(rt.Block().Preds) > 0
}

// recordsChange: the call may record a change: CreateChange* or a function of the package that
// calls one.
func (w *World) recorders() map[*ssa.Function]bool {
	rec := map[*ssa.Function]bool{}
	for _, fn := range w.fns {
		if fnPkg(fn).Path() == wcPath && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "CreateChange") {
			rec[fn] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range w.fns {
			if fnPkg(fn).Path() != wcPath || rec[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					hit := false
					switch x := in.(type) {
					case ssa.CallInstruction:
						if c := StaticCallee(x.Common()); c != nil && rec[c] {
							hit = true
						}
					case *ssa.MakeClosure:
						if g, ok := x.Fn.(*ssa.Function); ok && rec[g] {
							hit = true
						}
					}
					if hit {
						rec[fn], ch = true, true
					}
				}
			}
		}
	}
	return rec
}

// checkWholeLoops: a loop that records changes is not left before the last element.
func checkWholeLoops(w *World, r *Reporter) {
	rec := w.recorders()
	for _, fn := range w.fns {
		if fnPkg(fn).Path() != wcPath || !rec[fn] || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		f := w.Family(rootFn(fn))
		loops := loopBlocks(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				switch x := in.(type) {
				case ssa.CallInstruction:
					callee = StaticCallee(x.Common())
				case *ssa.MakeClosure:
					callee, _ = x.Fn.(*ssa.Function)
				}
				if callee == nil || !rec[callee] {
					continue
				}
				inLoop := isRangeFuncBody(fn)
				bad := ""
				for h, body := range loops {
					if body[b] {
						inLoop = true
						continue
					}
					for x := range body {
						if x != h && x.Dominates(b) && headerExits(h, body) && !partnerFound(x, body) {
							inLoop = true
							bad = "the loop at " + w.Pos(h.Instrs[0].Pos()) + " is left right after it"
						}
					}
				}
				if !inLoop {
					continue
				}
				if bad == "" && w.EarlyExit(f, b) {
					bad = "the loop it stands in can be left before the last element"
				}
				key := fmt.Sprintf("%s:%s#%d", FnName(rootFn(fn)), callee.Name(), w.ordinal(rootFn(fn), in, callee))
				if bad != "" {
					r.Bad("whole-loop", key, w.InstrPos(in), fmt.Sprintf("%s records the changes of one element, but %s: the changes of the others are lost", callee.Name(), bad))
				} else {
					r.OK("whole-loop", key)
				}
			}
		}
	}
	r.Min("whole-loop", 60)
}

// partnerFound: the loop is left because the element equals the one that was looked for.
func partnerFound(x *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
	if !ok || body[x.Succs[0]] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op.String() != "==" {
		return false
	}
	_, c1 := bo.X.(*ssa.Const)
	_, c2 := bo.Y.(*ssa.Const)
	return !c1 && !c2
}

// ordinal numbers the calls of one callee inside a function and its closures.
func (w *World) ordinal(root *ssa.Function, at ssa.Instruction, callee *ssa.Function) int {
	n := 0
	for _, g := range w.Family(root).fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if in == at {
					return n
				}
				if x, ok := in.(ssa.CallInstruction); ok && StaticCallee(x.Common()) == callee {
					n++
				}
			}
		}
	}
	return n
}
