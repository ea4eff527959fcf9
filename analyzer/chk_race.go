package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "concurrent work on shared memory is synchronised: goroutines started together, the ones that start them until they have waited, fields that a lock of their struct protects, and package variables that change", func(w *World, r *Reporter) {
		checkRace(w, r)
		checkGuard(w, r)
		checkGlobals(w, r)
	})
}

// ---- which memory a function touches, and which locks it holds when it does ----

type acc struct {
	key lockKey
	w   bool
}

type touch struct {
	locks map[lockKey]bool // held on every path to it
	at    ssa.Instruction
	whole bool      // the whole struct is read or written
	idx   ssa.Value // element written: its index
	dpth  int
}

type raceAn struct {
	w     *World
	la    *lockAn
	g     *goAn
	eff   map[*ssa.Function]map[acc]*touch
	held  map[ssa.Instruction]map[lockKey]byte // locks held at an instruction on every path
	calls map[*ssa.Function][]ssa.CallInstruction
	tg    map[ssa.CallInstruction][]*ssa.Function
	local map[*ssa.Function][]accAt
	once  map[*ssa.Function][]ssa.CallInstruction
}

type accAt struct {
	a     acc
	at    ssa.Instruction
	whole bool
	idx   ssa.Value
}

func newRaceAn(w *World) *raceAn {
	ra := &raceAn{w: w, la: &lockAn{w: w, sum: map[*ssa.Function]*lockFn{}, edges: map[[2]string]map[string]ssa.Instruction{}},
		eff: map[*ssa.Function]map[acc]*touch{}, held: map[ssa.Instruction]map[lockKey]byte{},
		calls: map[*ssa.Function][]ssa.CallInstruction{}, tg: map[ssa.CallInstruction][]*ssa.Function{}, local: map[*ssa.Function][]accAt{}, once: map[*ssa.Function][]ssa.CallInstruction{}}
	ra.la.bad = func(string, ssa.Instruction, lockKey, string) {}
	for round := 0; round < 4; round++ {
		for _, fn := range w.fns {
			if ra.la.interesting(fn) {
				ra.la.sum[fn] = ra.la.run(fn, false)
			}
		}
	}
	ra.la.visit = func(in ssa.Instruction, s *lockSt) {
		h, ok := ra.held[in]
		if !ok {
			h = map[lockKey]byte{}
			for k, m := range s.held {
				h[k] = m
			}
			ra.held[in] = h
			return
		}
		for k, m := range h {
			n, ok := s.held[k]
			if !ok {
				delete(h, k)
			} else if n != m {
				h[k] = 'R'
			}
		}
	}
	for _, fn := range w.fns {
		if ra.la.interesting(fn) {
			ra.la.run(fn, false)
		}
	}
	ra.la.visit = nil
	ra.g = &goAn{w: w, la: ra.la, memo: map[string][2]int{}, tmo: map[ssa.CallInstruction][]*ssa.Function{}}
	ra.g.collect()
	return ra
}

// accesses lists what an instruction reads and writes itself.
func accesses(in ssa.Instruction) []accAt {
	one := func(v ssa.Value, suffix string, w bool) accAt {
		k := addrKey(v, 0)
		return accAt{a: acc{lockKey{k.root, k.path + suffix}, w}, at: in}
	}
	isStruct := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Struct)
		return ok
	}
	switch x := in.(type) {
	case *ssa.Store:
		a := one(x.Addr, "", true)
		a.whole = isStruct(x.Val.Type())
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			a.idx = ia.Index
		} else if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				a.idx = ia.Index
			}
		}
		return []accAt{a}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := one(x.X, "", false)
			a.whole = isStruct(x.Type())
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				a.idx = ia.Index
			}
			return []accAt{a}
		}
	case *ssa.MapUpdate:
		return []accAt{one(x.Map, "{}", true)}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return []accAt{one(x.X, "{}", false)}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return []accAt{one(x.X, "{}", false)}
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				return []accAt{one(c.Args[0], "{}", true)}
			case "len":
				if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
					return []accAt{one(c.Args[0], "{}", false)}
				}
			case "copy":
				return []accAt{one(c.Args[0], "[]", true)}
			}
			return nil
		}
		if f := c.StaticCallee(); f != nil && len(c.Args) > 0 {
			full := calleeFull(c)
			if strings.HasPrefix(full, "(*"+modPath+"/orderedmap.Map[") || strings.HasPrefix(full, "(*"+modPath+"/orderedmap.Map)") || strings.Contains(full, "orderedmap.Map[") && f.Signature.Recv() != nil && inRepo(f) {
				switch f.Name() {
				case "Set", "Delete", "Store", "SetIfAbsent", "MoveToBack":
					return []accAt{one(c.Args[0], "{}", true)}
				}
				return []accAt{one(c.Args[0], "{}", false)}
			}
			if p := f.Pkg; p != nil && f.Signature.Recv() != nil {
				switch p.Pkg.Path() {
				case "strings", "bytes":
					if n := namedOf(f.Signature.Recv().Type()); n != nil && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Buffer") {
						return []accAt{one(c.Args[0], "{}", !strings.HasPrefix(f.Name(), "Len") && f.Name() != "String" && f.Name() != "Bytes")}
					}
				}
			}
		}
	}
	return nil
}

// visible: can the memory be reached by somebody else than the function itself.
func visibleKey(k lockKey, fn *ssa.Function) bool {
	switch r := k.root.(type) {
	case *ssa.Parameter:
		return r.Parent() == fn && k.path != "" || r.Parent() != fn
	case *ssa.Global:
		return true
	case nil:
		return false
	}
	return k.root.Parent() != fn
}

func depthOf(p string) int {
	return strings.Count(p, ".") + strings.Count(p, "[]") + strings.Count(p, "{}")
}

func (ra *raceAn) build() {
	w := ra.w
	for _, fn := range w.fns {
		ra.eff[fn] = map[acc]*touch{}
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				as := accesses(in)
				ra.local[fn] = append(ra.local[fn], as...)
				for _, a := range as {
					ra.put(fn, a.a, &touch{locks: ra.heldAt(in), at: in, whole: a.whole, idx: a.idx})
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || len(as) > 0 {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if t := ra.callTargets(c); len(t) > 0 {
					ra.calls[fn] = append(ra.calls[fn], c)
					ra.tg[c] = t
				}
			}
		}
	}
	for round := 0; round < 12; round++ {
		changed := false
		for _, fn := range w.fns {
			for _, c := range ra.calls[fn] {
				for _, t := range ra.tg[c] {
					for a, tc := range ra.eff[t] {
						if tc.dpth > 7 {
							continue
						}
						k := ra.la.mapKey(a.key, t, c.Common())
						if k.root == nil || depthOf(k.path) > 4 {
							continue
						}
						locks := map[lockKey]bool{}
						for l := range tc.locks {
							if m := ra.la.mapKey(l, t, c.Common()); m.root != nil {
								locks[m] = true
							}
						}
						for l := range ra.heldAt(c) {
							locks[l] = true
						}
						if onceArg(c) {
							locks[onceKey(c)] = true
						}
						if ra.put(fn, acc{k, a.w}, &touch{locks: locks, at: tc.at, whole: tc.whole, dpth: tc.dpth + 1}) {
							changed = true
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
}

func isInit(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			return true
		}
	}
	return false
}

// onceArg: a call of sync.Once.Do.
func onceArg(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && f.String() == "(*sync.Once).Do"
}

func onceKey(c ssa.CallInstruction) lockKey {
	k := addrKey(c.Common().Args[0], 0)
	return lockKey{k.root, k.path + "!once"}
}

func (ra *raceAn) callTargets(c ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && inRepo(f) && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range ra.la.callees(c.Common()) {
		add(f)
	}
	if len(out) == 0 && c.Common().IsInvoke() {
		if n := ra.w.Callgraph().Nodes[c.Parent()]; n != nil {
			var fs []*ssa.Function
			for _, e := range n.Out {
				if e.Site == c {
					fs = append(fs, e.Callee.Func)
				}
			}
			if len(fs) <= 5 {
				for _, f := range fs {
					add(f)
				}
			}
		}
	}
	for _, a := range c.Common().Args {
		for _, f := range closureFns(a, 0) {
			add(f)
		}
	}
	return out
}

func (ra *raceAn) heldAt(in ssa.Instruction) map[lockKey]bool {
	out := map[lockKey]bool{}
	for k := range ra.held[in] {
		out[k] = true
	}
	for _, l := range ra.underOnce(in) {
		out[l] = true
	}
	return out
}

func (ra *raceAn) put(fn *ssa.Function, a acc, t *touch) bool {
	if !visibleKey(a.key, fn) || depthOf(a.key.path) > 4 {
		return false
	}
	o := ra.eff[fn][a]
	if o == nil {
		ra.eff[fn][a] = t
		return true
	}
	ch := false
	for l := range o.locks {
		if !t.locks[l] {
			delete(o.locks, l)
			o.at = t.at
			ch = true
		}
	}
	if t.whole && !o.whole {
		o.whole = true
		ch = true
	}
	return ch
}

// ---- goroutines against each other and against their starter ----

type party struct {
	name string
	eff  map[acc]*touch
	many *loop // started once per round of this loop
	at   *ssa.Go
	t    *ssa.Function
	// what the starter may do meanwhile
	during map[ssa.Instruction]bool
	order  []ssa.Instruction
}

func checkRace(w *World, r *Reporter) {
	ra := sharedRace(w)
	nGo, nPairs := 0, 0
	for _, fn := range w.fns {
		var ps []*party
		ls := loopsOf(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				nGo++
				tgs := ra.g.targets(x)
				list := len(tgs) > 1 && !x.Call.IsInvoke() && x.Call.StaticCallee() == nil && ownElementOf(x.Call.Value, innermost(ls, b))
				for _, t := range tgs {
					p := &party{name: FnName(t), eff: map[acc]*touch{}, many: innermost(ls, b), at: x, t: t}
					for a, tc := range ra.eff[t] {
						k := ra.la.mapKey(a.key, t, x.Common())
						if k.root == nil {
							continue
						}
						locks := map[lockKey]bool{}
						for l := range tc.locks {
							if m := ra.la.mapKey(l, t, x.Common()); m.root != nil {
								locks[m] = true
							}
						}
						p.eff[acc{k, a.w}] = &touch{locks: locks, at: tc.at, whole: tc.whole, idx: tc.idx}
					}
					ra.span(fn, p)
					if list && p.many != nil {
						p.many = nil // each function of a list is started once
					}
					ps = append(ps, p)
				}
			}
		}
		if len(ps) == 0 {
			continue
		}
		if os.Getenv("DBGR") != "" && strings.Contains(FnName(fn), os.Getenv("DBGR")) {
			for _, p := range ps {
				for a, t := range p.eff {
					fmt.Println("EFF", p.name, a.key, a.w, len(t.locks))
				}
				fmt.Println("  calls", len(ra.calls[p.t]))
				for _, c := range ra.calls[p.t] {
					fmt.Println("   ", c, ra.tg[c])
				}
			}
		}
		r.Fn(FnName(fn))
		report := func(k lockKey, a, b *touch, who string) {
			r.Bad("goroutines", FnName(fn)+" "+k.String(), w.InstrPos(a.at), fmt.Sprintf("%s is touched by %s without a lock in common (other access at %s), and at least one of them writes it", k, who, w.InstrPos(b.at)))
		}
		before := len(r.viol)
		for i, p := range ps {
			if p.many != nil {
				nPairs++
				for a, ta := range p.eff {
					if !a.w {
						continue
					}
					if perRound(a.key, p) || ownElement(a.key, ta, p) {
						continue
					}
					for _, w2 := range []bool{true, false} {
						if tb := p.eff[acc{a.key, w2}]; tb != nil && !common(ta, tb) {
							report(a.key, ta, tb, "every "+p.name+" started in the loop")
							break
						}
					}
				}
			}
			for _, q := range ps[i+1:] {
				if p.at != q.at && !p.during[q.at] && !q.during[p.at] {
					continue
				}
				nPairs++
				clash(p.eff, q.eff, func(k lockKey, a, b *touch) {
					if a.idx != nil && b.idx != nil && (ownElement(k, a, p) || a.idx != b.idx) {
						return
					}
					if perRound(k, p) && p.many == q.many && !sameRound(p.at, q.at) {
						return
					}
					report(k, a, b, p.name+" and "+q.name+", which run side by side")
				})
			}
			// the starter, until it has waited
			nPairs++
			clash(ra.after(fn, p), p.eff, func(k lockKey, a, b *touch) {
				if a.idx != nil && b.idx != nil {
					return
				}
				if ra.published(a, p, k) {
					return
				}
				report(k, a, b, FnName(fn)+" before it has waited, and "+p.name)
			})
		}
		if len(r.viol) == before {
			r.OK("goroutines", FnName(fn))
		}
	}
	r.Note(fmt.Sprintf("goroutines: %d go statements, %d pairs of concurrent bodies compared", nGo, nPairs))
}

func common(a, b *touch) bool {
	for l := range a.locks {
		if b.locks[l] {
			return true
		}
	}
	return false
}

// clash: accesses of the two that meet, at least one writing.
func clash(x, y map[acc]*touch, f func(k lockKey, a, b *touch)) {
	done := map[lockKey]bool{}
	var ks []acc
	for a := range x {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].key.String() < ks[j].key.String() || ks[i].key.String() == ks[j].key.String() && ks[i].w
	})
	for _, a := range ks {
		ta := x[a]
		for _, w2 := range []bool{true, false} {
			if !a.w && !w2 {
				continue
			}
			tb := y[acc{a.key, w2}]
			if tb == nil || common(ta, tb) || done[a.key] {
				continue
			}
			done[a.key] = true
			f(a.key, ta, tb)
		}
	}
}

// perRound: the memory belongs to one round of the loop.
func perRound(k lockKey, p *party) bool {
	in, ok := k.root.(ssa.Instruction)
	return ok && p.many != nil && p.many.body[in.Block()]
}

// ownElement: the element written is picked by something that differs per round.
func ownElement(k lockKey, t *touch, p *party) bool {
	if t.idx == nil || p.many == nil {
		return false
	}
	ik := addrKey(t.idx, 0)
	if q, ok := ik.root.(*ssa.Parameter); ok && q.Parent() == p.t && ik.path == "" {
		for i, pp := range p.t.Params {
			if pp == q && i < len(p.at.Call.Args) {
				ik = addrKey(p.at.Call.Args[i], 0)
			}
		}
	}
	in, ok := ik.root.(ssa.Instruction)
	return ok && p.many.body[in.Block()]
}

// ownElementOf: a value taken from a list, one per round of the loop.
func ownElementOf(v ssa.Value, l *loop) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l != nil && l.body[in.Block()]
}

func sameRound(a, b *ssa.Go) bool { return true }

// span: the instructions of the starter that may run while the goroutine does.
func (ra *raceAn) span(fn *ssa.Function, p *party) {
	ls := loopsOf(fn)
	// what ends the wait
	stopInstr := map[ssa.Instruction]bool{}
	stopEdge := map[[2]*ssa.BasicBlock]bool{}
	var sent []lockKey
	waits := false
	for e := range ra.g.evs[p.t] {
		k := ra.la.mapKey(e.key, p.t, p.at.Common())
		if k.root == nil {
			continue
		}
		if e.kind == 'd' {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if kd, key, ok := evOp(in); ok && kd == 'w' && key == k {
						if _, isD := in.(*ssa.Defer); !isD {
							stopInstr[in] = true
							waits = true
						}
					}
				}
			}
		}
		if e.kind == 's' || e.kind == 'c' {
			sent = append(sent, k)
		}
	}
	if !waits {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, k := range sent {
					if ra.g.recvOf(in, k, func(k lockKey, _ int) lockKey { return k }) == 0 {
						continue
					}
					l := innermost(ls, b)
					if l == nil {
						stopInstr[in] = true
						continue
					}
					for bb := range l.body {
						for _, s := range bb.Succs {
							if !l.body[s] {
								stopEdge[[2]*ssa.BasicBlock{bb, s}] = true
							}
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var order []ssa.Instruction
	var walk func(b *ssa.BasicBlock, start int)
	walk = func(b *ssa.BasicBlock, start int) {
		for i := start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if stopInstr[in] {
				return
			}
			order = append(order, in)
		}
		for _, s := range b.Succs {
			if stopEdge[[2]*ssa.BasicBlock{b, s}] || seen[s] {
				continue
			}
			seen[s] = true
			walk(s, 0)
		}
	}
	walk(p.at.Block(), instrIndex(p.at)+1)
	p.during = map[ssa.Instruction]bool{}
	for _, in := range order {
		p.during[in] = true
	}
	p.order = order
}

// after: what the starter touches between starting a goroutine and having waited for it.
func (ra *raceAn) after(fn *ssa.Function, p *party) map[acc]*touch {
	out := map[acc]*touch{}
	stale := func(k lockKey, in ssa.Instruction) bool {
		// the goroutine has got a variable of its round; a later round has another one.
		root, ok := k.root.(ssa.Instruction)
		if !ok || root.Parent() != fn || !p.during[root] {
			return false
		}
		ok, _ = CanReach(p.at, func(i ssa.Instruction) bool { return i == in }, func(i ssa.Instruction) bool { return i == root })
		return !ok
	}
	for _, in := range p.order {
		for _, a := range accesses(in) {
			if !stale(a.a.key, in) {
				ra.meet(out, a.a, &touch{locks: ra.heldAt(in), at: in, whole: a.whole, idx: a.idx})
			}
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if _, isGo := in.(*ssa.Go); isGo {
			continue
		}
		if _, isD := in.(*ssa.Defer); isD {
			continue
		}
		for _, t := range ra.tg[c] {
			for a, tc := range ra.eff[t] {
				k := ra.la.mapKey(a.key, t, c.Common())
				if k.root == nil || stale(k, in) {
					continue
				}
				locks := map[lockKey]bool{}
				for l := range tc.locks {
					if m := ra.la.mapKey(l, t, c.Common()); m.root != nil {
						locks[m] = true
					}
				}
				for l := range ra.heldAt(in) {
					locks[l] = true
				}
				ra.meet(out, acc{k, a.w}, &touch{locks: locks, at: tc.at, whole: tc.whole})
			}
		}
	}
	return out
}

func (ra *raceAn) meet(m map[acc]*touch, a acc, t *touch) {
	o := m[a]
	if o == nil {
		m[a] = t
		return
	}
	for l := range o.locks {
		if !t.locks[l] {
			delete(o.locks, l)
			o.at = t.at
		}
	}
}

// published: a read that follows the receipt of a message, of a variable the goroutine sets at
// most once (only while it is nil, under a lock) and before it sends.
func (ra *raceAn) published(a *touch, p *party, k lockKey) bool {
	fn := p.at.Parent()
	if a.at.Parent() != fn {
		return false
	}
	w := p.eff[acc{k, true}]
	if w == nil || len(w.locks) == 0 {
		return false
	}
	var ks []lockKey
	for e := range ra.g.evs[p.t] {
		if e.kind == 's' {
			ks = append(ks, ra.la.mapKey(e.key, p.t, p.at.Common()))
		}
	}
	for _, b := range p.t.Blocks {
		for _, in := range b.Instrs {
			if sel, ok := in.(*ssa.Select); ok {
				for _, st := range sel.States {
					if st.Dir == types.SendOnly {
						ks = append(ks, ra.la.mapKey(addrKey(st.Chan, 0), p.t, p.at.Common()))
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, ck := range ks {
				if ck.root == nil || ra.g.recvOf(in, ck, func(k lockKey, _ int) lockKey { return k }) == 0 || !in.Block().Dominates(a.at.Block()) {
					continue
				}
				// every write in the goroutine: while nil
				for _, la := range ra.local[p.t] {
					if !la.a.w || ra.la.mapKey(la.a.key, p.t, p.at.Common()) != k {
						continue
					}
					guarded := false
					for d := la.at.Block(); d != nil; d = d.Idom() {
						for _, pr := range d.Preds {
							if i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
								if bo, ok := i.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && pr.Succs[0] == d && ra.la.mapKey(addrKey(bo.X, 0), p.t, p.at.Common()) == k {
									guarded = true
								}
							}
						}
					}
					if !guarded {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// ---- fields that a lock of their struct protects ----

func checkGuard(w *World, r *Reporter) {
	ra := sharedRace(w)
	entry := ra.entryHeld()
	type use struct {
		fn    *ssa.Function
		in    ssa.Instruction
		w     bool
		locks map[string]byte
	}
	exempt := map[string]bool{}
	owner := map[string]types.Type{}
	uses := map[string][]use{}
	for _, fn := range w.fns {
		if isInit(fn) || teardown(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, a := range accesses(in) {
					base, fld, ok := splitField(a.a.key)
					if !ok {
						continue
					}
					tn := typeAt(base)
					if tn == nil || !hasMutex(tn) || fresh(base) {
						continue
					}
					locks := map[string]byte{}
					note := func(l lockKey, m byte) {
						if l.root == base.root && strings.HasPrefix(l.path, base.path+".") {
							locks[l.path[len(base.path)+1:]] = m
						}
					}
					for l, m := range ra.held[in] {
						note(l, m)
					}
					for l := range entry[fn] {
						note(l, 'W')
					}
					k := strings.TrimPrefix(derefType(tn).String(), modPath+"/") + "." + fld
					uses[k] = append(uses[k], use{fn, in, a.a.w, locks})
					owner[k] = tn
				}
			}
		}
	}
	var fs []string
	for f := range uses {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	guarded := 0
	for _, f := range fs {
		us := uses[f]
		n := map[string]int{}
		for _, u := range us {
			if u.w {
				for l := range u.locks {
					n[l]++
				}
			}
		}
		if l := contract[f]; l != "" && hasLock(owner[f], l) {
			n[l] += 1000
		}
		if len(n) == 0 {
			continue
		}
		best := ""
		for l := range n {
			if best == "" || n[l] > n[best] || n[l] == n[best] && l < best {
				best = l
			}
		}
		guarded++
		if os.Getenv("DBGC") != "" {
			fmt.Printf("\t%q: %q,\n", f, best)
		}
		for _, u := range us {
			key := f + " in " + FnName(rootOf(u.fn))
			m, held := u.locks[best]
			switch {
			case held && !(u.w && m == 'R'):
				r.OK("guard", key)
			case setup[FnName(rootOf(u.fn))] != "":
				r.OK("guard", key)
				exempt[FnName(rootOf(u.fn))] = true
			case !u.w && settled[f] != "":
				r.OK("guard", key)
				exempt[f] = true
			case held:
				r.Bad("guard", key, w.InstrPos(u.in), fmt.Sprintf("writes %s while %s is only held for reading", f, best))
			case u.w:
				r.Bad("guard", key, w.InstrPos(u.in), fmt.Sprintf("writes %s without %s, which protects it elsewhere", f, best))
			default:
				r.Bad("guard", key, w.InstrPos(u.in), fmt.Sprintf("reads %s without %s, under which it is written elsewhere", f, best))
			}
		}
	}
	for _, x := range sortedKeys(exempt) {
		r.Note("exempt " + x + ": " + setup[x] + settled[x])
	}
	r.Note(fmt.Sprintf("guard: %d fields are written under a lock of their struct", guarded))
	r.Min("guard", 60)
}

func hasLock(t types.Type, name string) bool {
	st, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// contract: which lock protects which field (as long as both exist); fields that are written
// under a lock and are not listed are found by themselves.
var contract = map[string]string{}

// setup: functions that run while nobody else uses the object yet.
var setup = map[string]string{
	"index.Rolodex.CheckForCircularReferences":              "a step of preparing a rolodex, documented to be run by its owner",
	"datamodel/high/base.SchemaProxy.isRefWithSiblings":     "a proxy made with a reference has its schema from the start",
	"datamodel/high/base.SchemaProxy.renderRefWithSiblings": "a proxy made with a reference has its schema from the start",
	"index.SpecIndex.SetRootNode":                           "a setter used while preparing an index",
	"index.SpecIndex.GetOperationCount":                     "collects the paths while the index is built, before the counts that read them",
	"index.bootstrapIndexCollections":                       "runs while an index is made",
	"index.SpecIndex.SetMappedReferences":                   "a setter used while preparing an index",
	"index.Rolodex.Resolve":                                 "a step of preparing a rolodex, run by its owner",
	"index.Rolodex.mergeResolverResults":                    "a step of Rolodex.Resolve",
	"index.Rolodex.collectResolvers":                        "a step of Rolodex.Resolve",
	"index.Rolodex.BuildIndexes":                            "a step of preparing a rolodex, run by its owner",
	"index.Rolodex.IndexTheRolodex":                         "runs after the goroutines that index the files have reported, and before the root is indexed",
	"index.Rolodex.SetSafeCircularReferences":               "a setter used while preparing a rolodex",
	"index.SpecIndex.resetRuntimeState":                     "runs while an index is made",
	"index.SpecIndex.extractReferenceAt":                    "runs on the one goroutine that extracts the references of an index, before the lookups start",
	"index.Rolodex.ClearIndexCaches":                        "run by the owner of the rolodex",
}

// settled: fields that are complete before anybody outside of the making of the object reads them.
var settled = map[string]string{
	"index.SpecIndex.allMappedRefs":  "filled while the references of an index are extracted, before the index is published",
	"index.SpecIndex.refErrors":      "filled while the references of an index are extracted, before the index is published",
	"index.SpecIndex.resolver":       "set when the resolver of an index is made",
	"index.SpecIndex.parametersNode": "set when the index is built",
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// fresh: an object nobody else has got yet.
func fresh(k lockKey) bool {
	_, ok := k.root.(*ssa.Alloc)
	return ok
}

// teardown: releasing is documented to be done once everybody else is finished.
func teardown(fn *ssa.Function) bool {
	n := strings.ToLower(rootOf(fn).Name())
	return strings.HasPrefix(n, "release")
}

func rootOf(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// entryHeld: the locks that every caller of a function holds.
func (ra *raceAn) entryHeld() map[*ssa.Function]map[lockKey]bool {
	out := map[*ssa.Function]map[lockKey]bool{}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	open := map[*ssa.Function]bool{}
	for _, fn := range ra.w.fns {
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			open[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				_, isGo := in.(*ssa.Go)
				var f *ssa.Function
				if isC {
					if f = StaticCallee(c.Common()); f != nil {
						if isGo {
							open[f] = true
						}
						callers[f] = append(callers[f], c)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(isC && *op == c.Common().Value) {
						open[g] = true
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						if g, ok := mc.Fn.(*ssa.Function); ok && !(isC && *op == c.Common().Value) {
							open[g] = true
						}
					}
				}
			}
		}
	}
	for round := 0; round < 6; round++ {
		ch := false
		for fn, cs := range callers {
			if open[fn] || len(fn.Blocks) == 0 {
				continue
			}
			var all map[lockKey]bool
			for _, c := range cs {
				if teardown(c.Parent()) || c.Parent() == fn && len(fn.Params) > 0 && len(c.Common().Args) > 0 && c.Common().Args[0] == ssa.Value(fn.Params[0]) {
					continue
				}
				h := map[lockKey]bool{}
				add := func(k lockKey) {
					for i, p := range fn.Params {
						if i >= len(c.Common().Args) {
							break
						}
						ak := addrKey(c.Common().Args[i], 0)
						if ak.root == k.root && ak.root != nil && strings.HasPrefix(k.path, ak.path) {
							h[lockKey{p, k.path[len(ak.path):]}] = true
						}
					}
					if k.root != nil && k.root.Parent() != nil && isAncestor(k.root.Parent(), fn) && k.root.Parent() != fn {
						h[k] = true
					}
				}
				for k := range ra.held[c] {
					add(k)
				}
				for k := range out[c.Parent()] {
					add(k)
				}
				if all == nil {
					all = h
				} else {
					for k := range all {
						if !h[k] {
							delete(all, k)
						}
					}
				}
			}
			if len(all) != len(out[fn]) {
				out[fn] = all
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return out
}

// splitField: the struct a field belongs to.
func splitField(k lockKey) (lockKey, string, bool) {
	p := strings.TrimSuffix(strings.TrimSuffix(k.path, "{}"), "[]")
	i := strings.LastIndex(p, ".")
	if i < 0 || k.root == nil {
		return lockKey{}, "", false
	}
	return lockKey{k.root, p[:i]}, p[i+1:], true
}

// typeAt: the struct type a path leads to.
func typeAt(k lockKey) types.Type {
	t := derefType(k.root.Type())
	if a, ok := k.root.(*ssa.Alloc); ok {
		t = derefType(derefType(a.Type()))
	}
	for _, f := range strings.Split(k.path, ".") {
		if f == "" {
			continue
		}
		if strings.ContainsAny(f, "{}[]*!") {
			return nil
		}
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				t = st.Field(i).Type()
				found = true
			}
		}
		if !found {
			return nil
		}
	}
	t = derefType(t)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return nil
	}
	return t
}

func hasMutex(t types.Type) bool {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch derefType(st.Field(i).Type()).String() {
		case "sync.Mutex", "sync.RWMutex":
			return true
		}
	}
	return false
}

var raceOnce *raceAn

func sharedRace(w *World) *raceAn {
	if raceOnce == nil || raceOnce.w != w {
		raceOnce = newRaceAn(w)
		raceOnce.build()
	}
	return raceOnce
}

// checkGlobals: package variables that change after the program has started.
func checkGlobals(w *World, r *Reporter) {
	ra := sharedRace(w)
	entry := ra.entryHeld()
	type use struct {
		fn    *ssa.Function
		in    ssa.Instruction
		w     bool
		locks map[lockKey]bool
	}
	uses := map[*ssa.Global][]use{}
	for _, fn := range w.fns {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, a := range accesses(in) {
					g, ok := a.a.key.root.(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						continue
					}
					if strings.Contains(a.a.key.path, ".") {
						continue
					}
					locks := map[lockKey]bool{}
					for l := range ra.held[in] {
						locks[l] = true
					}
					for l := range entry[fn] {
						locks[l] = true
					}
					for _, l := range ra.underOnce(in) {
						locks[l] = true
					}
					uses[g] = append(uses[g], use{fn, in, a.a.w, locks})
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range uses {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	n := 0
	for _, g := range gs {
		us := uses[g]
		wr := false
		for _, u := range us {
			if u.w && betweenRuns[FnName(rootOf(u.fn))] == "" {
				wr = true
			}
		}
		if !wr {
			continue
		}
		n++
		var all map[lockKey]bool
		for _, u := range us {
			if betweenRuns[FnName(rootOf(u.fn))] != "" {
				continue
			}
			if all == nil {
				all = map[lockKey]bool{}
				for l := range u.locks {
					all[l] = true
				}
			}
			for l := range all {
				if !u.locks[l] {
					delete(all, l)
				}
			}
		}
		key := strings.TrimPrefix(g.String(), modPath+"/")
		if len(all) > 0 {
			r.OK("global", key)
			continue
		}
		pos := ""
		for _, u := range us {
			if len(u.locks) == 0 && betweenRuns[FnName(rootOf(u.fn))] == "" {
				pos = w.InstrPos(u.in)
			}
		}
		r.Bad("global", key, pos, "the package variable changes while the program runs, and no lock is held at every place that uses it")
	}
	for f, why := range betweenRuns {
		r.Note("exempt " + f + ": " + why)
	}
	r.Note(fmt.Sprintf("global: %d package variables change after initialisation", n))
	r.Min("global", 3)
}

// betweenRuns: functions documented to be called when no document is being worked on.
var betweenRuns = map[string]string{
	"datamodel/low.ClearNodePools":                 "documented to be called between document lifecycles",
	"index.ClearNodePools":                         "documented to be called between document lifecycles",
	"what-changed/model.ResetDefaultBreakingRules": "documented as a helper for tests",
}

// underOnce: what runs inside of, or after, sync.Once.Do.
func (ra *raceAn) underOnce(in ssa.Instruction) []lockKey {
	var out []lockKey
	fn := in.Parent()
	for _, c := range ra.onceCalls(fn) {
		if Dominates(c, in) {
			out = append(out, onceKey(c))
		}
	}
	if p := fn.Parent(); p != nil {
		for _, c := range ra.onceCalls(p) {
			for _, f := range closureFns(c.Common().Args[1], 0) {
				if f == fn {
					out = append(out, onceKey(c))
				}
			}
		}
	}
	return out
}

func (ra *raceAn) onceCalls(fn *ssa.Function) []ssa.CallInstruction {
	if cs, ok := ra.once[fn]; ok {
		return cs
	}
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if c, ok := x.(ssa.CallInstruction); ok && onceArg(c) {
				out = append(out, c)
			}
		}
	}
	ra.once[fn] = out
	return out
}
