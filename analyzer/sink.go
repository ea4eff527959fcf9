package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// SinkEvent: a value with origins Orgs is fed to a sink, under conditions Gates.
type SinkEvent struct {
	In    ssa.Instruction
	Orgs  OrgSet
	Gates OrgSet
	Pos   string
	Early bool // inside a loop that can be left before all elements were visited
	Impl  bool // implicit flow (constant written under a boolean condition)
}

// sinkWalker computes sink events interprocedurally.
type sinkWalker struct {
	w *World
	// direct returns the values that instruction in feeds to the sink (nil: not a sink)
	direct func(f *Family, in ssa.CallInstruction) ([]ssa.Value, bool)
	// carries says that an argument of this type lets a repository callee reach the sink
	carries func(t types.Type) bool
	memo    map[*ssa.Function][]SinkEvent
	busy    map[*ssa.Function]bool
	Visited map[string]bool
}

func newSinkWalker(w *World) *sinkWalker {
	return &sinkWalker{w: w, memo: map[*ssa.Function][]SinkEvent{}, busy: map[*ssa.Function]bool{}, Visited: map[string]bool{}}
}

func (s *sinkWalker) Events(root *ssa.Function) []SinkEvent {
	root = rootFn(root)
	if e, ok := s.memo[root]; ok {
		return e
	}
	if s.busy[root] {
		return nil
	}
	s.busy[root] = true
	defer delete(s.busy, root)
	s.Visited[FnName(root)] = true
	f := s.w.Family(root)
	var out []SinkEvent
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if vals, ok := s.direct(f, c); ok {
					gates := f.Gates(b)
					early := s.w.EarlyExit(f, b)
					orgs := OrgSet{}
					constOnly := true
					for _, v := range vals {
						if _, isC := v.(*ssa.Const); !isC {
							constOnly = false
						}
						orgs.addAll(f.valMem(v))
					}
					if constOnly {
						if iff := f.directBoolGate(b); iff != nil {
							out = append(out, SinkEvent{Orgs: f.get(iff).clone(), Gates: gates, Pos: s.w.InstrPos(in), Early: early, Impl: true})
						}
						continue
					}
					out = append(out, SinkEvent{Orgs: orgs, Gates: gates, Pos: s.w.InstrPos(in), Early: early})
					continue
				}
				cc := c.Common()
				callee := cc.StaticCallee()
				if callee == nil || !inRepo(callee) || len(callee.Blocks) == 0 || callee.Parent() != nil {
					continue
				}
				carr := false
				for _, a := range cc.Args {
					if s.carries(a.Type()) {
						carr = true
					}
				}
				if !carr {
					continue
				}
				evs := s.Events(callee)
				if len(evs) == 0 {
					continue
				}
				args := f.callArgs(cc)
				for i, a := range cc.Args {
					if s.carries(a.Type()) {
						args[i] = OrgSet{}
					}
				}
				gates := f.Gates(b)
				early := s.w.EarlyExit(f, b)
				for _, e := range evs {
					g2 := gates.clone()
					g2.addAll(compose(e.Gates, callee.Params, args))
					out = append(out, SinkEvent{Orgs: compose(e.Orgs, callee.Params, args), Gates: g2, Pos: s.w.InstrPos(in), Early: early || e.Early, Impl: e.Impl})
				}
			}
		}
	}
	s.memo[root] = out
	return out
}

// directBoolGate returns the boolean that immediately decides block b when it is a plain
// load of a boolean (not the result of a call or comparison).
func (f *Family) directBoolGate(b *ssa.BasicBlock) ssa.Value {
	for d := range f.w.ctrl(b.Parent()).deps[b] {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		switch x := iff.Cond.(type) {
		case *ssa.UnOp, *ssa.Parameter, *ssa.Field, *ssa.Phi:
			_ = x
			return iff.Cond
		}
	}
	return nil
}

// loopBlocks returns, for each natural-loop header, the blocks of the loop.
func loopBlocks(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return out
}

// EarlyExit reports whether block b lies in a loop (of its function, or a
// range-over-func body) that can be left other than by exhausting its header condition.
func (w *World) EarlyExit(f *Family, b *ssa.BasicBlock) bool { return w.earlyExit(f, b, false) }

// EarlyStop is EarlyExit, where leaving the loop to report an error does not count.
func (w *World) EarlyStop(f *Family, b *ssa.BasicBlock) bool { return w.earlyExit(f, b, true) }

func (w *World) earlyExit(f *Family, b *ssa.BasicBlock, errOK bool) bool {
	fn := b.Parent()
	for h, body := range loopBlocks(fn) {
		if !body[b] {
			continue
		}
		for x := range body {
			if x == h {
				continue
			}
			for _, s := range x.Succs {
				if !body[s] && !panics(s) {
					// a loop whose condition spans several blocks (a && b) exits from those
					// blocks as well: accept exits that are evaluated before b in every
					// iteration only when the header itself has no exit.
					if !headerExits(h, body) && x.Dominates(b) {
						continue
					}
					if errOK && failsOnly(s, map[*ssa.BasicBlock]bool{}) {
						continue
					}
					return true
				}
			}
			if len(x.Succs) == 0 && !panics(x) {
				return true
			}
		}
		// a return inside the loop body that post-dates the header
	}
	if fn != f.root && isRangeFuncBody(fn) {
		for _, x := range fn.Blocks {
			if rt, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				if c, ok := rt.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.String() == "false" {
					return true
				}
			}
		}
		for _, st := range f.sites[fn] {
			if st.Parent() != fn && w.earlyExit(f, st.Block(), errOK) {
				return true
			}
		}
	}
	return false
}

func headerExits(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, s := range h.Succs {
		if !body[s] {
			return true
		}
	}
	return false
}

func panics(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func isRangeFuncBody(fn *ssa.Function) bool {
	return fn.Synthetic == "range-over-func yield"
}
