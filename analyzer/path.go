package main

import (
	"golang.org/x/tools/go/ssa"
)

// instrIndex returns the index of in within its block.
func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// MustReach: every path from just after in to a return of the function passes an
// instruction satisfying pred. Paths that end in a panic are ignored. cut (may be nil)
// prunes edges: cut(b, i) = true means the edge b -> b.Succs[i] is not followed.
func MustReach(in ssa.Instruction, pred func(ssa.Instruction) bool, cut func(b *ssa.BasicBlock, i int) bool) (bool, ssa.Instruction) {
	b := in.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var bad ssa.Instruction
	var walk func(b *ssa.BasicBlock, start int) bool
	walk = func(b *ssa.BasicBlock, start int) bool {
		for i := start; i < len(b.Instrs); i++ {
			if pred(b.Instrs[i]) {
				return true
			}
			if rt, ok := b.Instrs[i].(*ssa.Return); ok {
				bad = rt
				return false
			}
			if _, ok := b.Instrs[i].(*ssa.Panic); ok {
				return true
			}
		}
		for i, s := range b.Succs {
			if cut != nil && cut(b, i) {
				continue
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	ok := walk(b, instrIndex(in)+1)
	return ok, bad
}

// CanReach: some path from just after in reaches an instruction satisfying pred without
// passing one satisfying stop (stop may be nil).
func CanReach(in ssa.Instruction, pred, stop func(ssa.Instruction) bool) (bool, ssa.Instruction) {
	seen := map[*ssa.BasicBlock]bool{}
	var hit ssa.Instruction
	var walk func(b *ssa.BasicBlock, start int) bool
	walk = func(b *ssa.BasicBlock, start int) bool {
		for i := start; i < len(b.Instrs); i++ {
			if pred(b.Instrs[i]) {
				hit = b.Instrs[i]
				return true
			}
			if stop != nil && stop(b.Instrs[i]) {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	ok := walk(in.Block(), instrIndex(in)+1)
	return ok, hit
}

// Dominates: instruction a is executed before b on every path to b (same function).
func Dominates(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}
