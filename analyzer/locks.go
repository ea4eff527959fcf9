package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lockKey names a lock as a path from a value: the receiver, a parameter, a captured
// variable (named by the value it captures, so that a closure and its parent agree), a
// package variable or a local.
type lockKey struct {
	root ssa.Value
	path string
}

func (k lockKey) String() string {
	n := "?"
	switch x := k.root.(type) {
	case *ssa.Parameter:
		n = x.Name()
	case *ssa.Global:
		n = x.Name()
	case *ssa.Alloc:
		n = x.Comment
		if n == "" {
			n = x.Name()
		}
	case nil:
	default:
		n = x.Name()
	}
	return n + k.path
}

// addrKey resolves an address to a path. Loads of a cell that is stored once stand for the
// stored value.
func addrKey(v ssa.Value, depth int) lockKey {
	if depth > 12 {
		return lockKey{root: v}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		k := addrKey(x.X, depth+1)
		return lockKey{k.root, k.path + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.Field:
		k := addrKey(x.X, depth+1)
		return lockKey{k.root, k.path + "." + fieldName(x.X.Type(), x.Field)}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := onlyStore(x.X); s != nil {
				return addrKey(s, depth+1)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if b := binding(fv); b != nil {
					for d := 0; d < 6; d++ {
						f2, ok := b.(*ssa.FreeVar)
						if !ok {
							break
						}
						if b2 := binding(f2); b2 != nil {
							b = b2
						}
					}
					if s := onlyStore(b); s != nil {
						return addrKey(s, depth+1)
					}
					return addrKey(b, depth+1)
				}
			}
			return addrKey(x.X, depth+1)
		}
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return addrKey(b, depth+1)
		}
	case *ssa.ChangeType:
		return addrKey(x.X, depth+1)
	case *ssa.MakeInterface:
		return addrKey(x.X, depth+1)
	case *ssa.ChangeInterface:
		return addrKey(x.X, depth+1)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return addrKey(x.X, depth+1)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return addrKey(ta.X, depth+1)
		}
	case *ssa.IndexAddr:
		k := addrKey(x.X, depth+1)
		return lockKey{k.root, k.path + "[]"}
	}
	return lockKey{root: v}
}

func fieldName(t types.Type, i int) string {
	if f := structFieldOf(t, i); f != nil {
		return f.Name()
	}
	return fmt.Sprint(i)
}

// onlyStore: the value stored into a local cell that is written exactly once.
func onlyStore(addr ssa.Value) ssa.Value {
	al, ok := addr.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var val ssa.Value
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al {
				if val != nil {
					return nil
				}
				val = x.Val
			}
		case *ssa.MakeClosure:
			// the closure must not write it
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == al && writesFree(fn, fn.FreeVars[i], 0) {
					return nil
				}
			}
		}
	}
	return val
}

func writesFree(fn *ssa.Function, fv *ssa.FreeVar, depth int) bool {
	if depth > 5 || fv.Referrers() == nil {
		return depth > 5
	}
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == fv && writesFree(g, g.FreeVars[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// binding: what a closure's captured variable is bound to, when the closure is made once.
func binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	mc := makeOf(fn)
	if mc == nil {
		return nil
	}
	for i, f := range fn.FreeVars {
		if f == fv {
			return mc.Bindings[i]
		}
	}
	return nil
}

var makeMemo map[*ssa.Function]*ssa.MakeClosure

func makeOf(fn *ssa.Function) *ssa.MakeClosure {
	if m, ok := makeMemo[fn]; ok {
		return m
	}
	if makeMemo == nil {
		makeMemo = map[*ssa.Function]*ssa.MakeClosure{}
	}
	var found *ssa.MakeClosure
	if p := fn.Parent(); p != nil {
		n := 0
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					found = mc
					n++
				}
			}
		}
		if n != 1 {
			found = nil
		}
	}
	makeMemo[fn] = found
	return found
}

// lockOp: is the call a lock operation, and on which lock. mode: W R (acquire) w r (release).
func lockOp(c *ssa.CallCommon) (key lockKey, mode byte, ok bool) {
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		mode = 'W'
	case "(*sync.RWMutex).RLock":
		mode = 'R'
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		mode = 'w'
	case "(*sync.RWMutex).RUnlock":
		mode = 'r'
	default:
		return
	}
	return addrKey(c.Args[0], 0), mode, true
}

// lockClass names the lock by the type and field that holds it.
func lockClass(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if n := namedOf(x.X.Type()); n != nil {
			return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + fieldName(x.X.Type(), x.Field)
		}
	case *ssa.Global:
		return shortPkg(x.Pkg.Pkg) + "." + x.Name()
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return lockClass(b)
		}
	case *ssa.Alloc:
		return FnName(x.Parent()) + " local " + x.Comment
	case *ssa.UnOp:
		return lockClass(x.X)
	}
	return "?" + addr.Name()
}

// ---- per-function lock typestate ----

type lockSet map[lockKey]byte // 'W' or 'R'

type lockSt struct {
	held  lockSet
	defd  lockSet // released by defers already registered
	need  lockSet // released here without having been taken here: the caller holds it
	took  lockSet // taken here at some time
	facts map[ssa.Value]byte
}

func (s *lockSt) clone() *lockSt {
	n := &lockSt{lockSet{}, lockSet{}, lockSet{}, lockSet{}, map[ssa.Value]byte{}}
	for k, v := range s.took {
		n.took[k] = v
	}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.defd {
		n.defd[k] = v
	}
	for k, v := range s.need {
		n.need[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	return n
}

func (s *lockSt) sig() string {
	var p []string
	add := func(t string, m lockSet) {
		for k, v := range m {
			p = append(p, fmt.Sprintf("%s%p%s%c", t, k.root, k.path, v))
		}
	}
	add("h", s.held)
	add("d", s.defd)
	add("n", s.need)
	add("t", s.took)
	for k, v := range s.facts {
		p = append(p, fmt.Sprintf("f%p%c", k, v))
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}

// lockExit is one way a function can return.
type lockExit struct {
	held lockSet // rooted at params, results, captured values, globals
	need lockSet
	res  []byte // per result: 'n' nil, 'v' not nil, 't', 'f', '?'
	rets []ssa.Value
	at   ssa.Instruction
}

type lockFn struct {
	fn    *ssa.Function
	exits []lockExit
	plain bool // returns with what it came with
	acq   map[lockKey]byte
}

type lockAn struct {
	w     *World
	sum   map[*ssa.Function]*lockFn
	ops   int
	calls int
	bad   func(kind string, at ssa.Instruction, k lockKey, msg string)
	visit func(in ssa.Instruction, s *lockSt) // called before each instruction, if set
	// what each call may lock, by class
	classes map[*ssa.Function]map[string]bool
	edges   map[[2]string]map[string]ssa.Instruction // class held, class taken -> function -> site
}

func (a *lockAn) interesting(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, _, is := lockOp(c.Common()); is {
					return true
				}
				if f := StaticCallee(c.Common()); f != nil {
					if s := a.sum[f]; s != nil && !s.plain {
						return true
					}
				}
			}
		}
	}
	return false
}

// run analyses fn; report says whether violations are reported (final round).
func (a *lockAn) run(fn *ssa.Function, report bool) *lockFn {
	out := &lockFn{fn: fn, plain: true}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	type item struct {
		b  *ssa.BasicBlock
		st *lockSt
	}
	start := &lockSt{lockSet{}, lockSet{}, lockSet{}, lockSet{}, map[ssa.Value]byte{}}
	work := []item{{fn.Blocks[0], start}}
	total := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		sg := it.st.sig()
		if seen[it.b] == nil {
			seen[it.b] = map[string]bool{}
		}
		if seen[it.b][sg] {
			continue
		}
		seen[it.b][sg] = true
		total++
		if total > 6000 {
			if report {
				a.bad("undecided", fn.Blocks[0].Instrs[0], lockKey{}, "too many lock states")
			}
			break
		}
		states := []*lockSt{it.st.clone()}
		for _, in := range it.b.Instrs {
			var next []*lockSt
			for _, s := range states {
				if a.visit != nil {
					a.visit(in, s)
				}
				next = append(next, a.step(fn, in, s, out, report)...)
			}
			states = next
		}
		for _, s := range states {
			last := it.b.Instrs[len(it.b.Instrs)-1]
			cond, isIf := last.(*ssa.If)
			for i, sc := range it.b.Succs {
				ns := s.clone()
				if isIf {
					if !a.branch(cond.Cond, i == 0, ns) {
						continue
					}
					remember(cond.Cond, i == 0, ns)
				}
				enter(it.b, sc, ns)
				work = append(work, item{sc, ns})
			}
		}
	}
	for _, e := range out.exits {
		if len(e.held) > 0 || len(e.need) > 0 {
			out.plain = false
		}
	}
	return out
}

// remember notes the outcome of a condition that is tested again.
func remember(cond ssa.Value, truth bool, s *lockSt) {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		remember(u.X, !truth, s)
		return
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		v := b.X
		if isNilConst(v) {
			v = b.Y
		} else if !isNilConst(b.Y) {
			v = nil
		}
		if v != nil && nilTests(v) > 1 {
			s.facts[v] = 'v'
			if truth == (b.Op == token.EQL) {
				s.facts[v] = 'n'
			}
		}
	}
	n := 0
	if cond.Referrers() != nil {
		for _, r := range *cond.Referrers() {
			switch x := r.(type) {
			case *ssa.If:
				n++
			case *ssa.UnOp:
				if x.Referrers() != nil {
					for _, q := range *x.Referrers() {
						if _, ok := q.(*ssa.If); ok {
							n++
						}
					}
				}
			}
		}
	}
	if n < 2 {
		return
	}
	s.facts[cond] = 'f'
	if truth {
		s.facts[cond] = 't'
	}
}

// nilTests: how often a value is compared with nil.
func nilTests(v ssa.Value) int {
	n := 0
	if v.Referrers() == nil {
		return 0
	}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (isNilConst(b.X) || isNilConst(b.Y)) {
			n++
		}
	}
	return n
}

// enter updates what is remembered when control passes from one block to the next: a value
// the next block computes anew is forgotten, a constant merged into it is noted.
func enter(from, to *ssa.BasicBlock, s *lockSt) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	upd := map[ssa.Value]byte{}
	for _, in := range to.Instrs {
		v, ok := in.(ssa.Value)
		if !ok {
			continue
		}
		if ph, ok := in.(*ssa.Phi); ok && pi >= 0 {
			if f := resFact(ph.Edges[pi], s); f == 't' || f == 'f' {
				if ph.Type().Underlying().(*types.Basic) != nil {
					upd[ph] = f
					continue
				}
			}
		}
		upd[v] = 0
	}
	for v, f := range upd {
		if f == 0 {
			delete(s.facts, v)
		} else {
			s.facts[v] = f
		}
	}
}

// branch applies what a condition says about remembered results; false = not possible.
func (a *lockAn) branch(cond ssa.Value, truth bool, s *lockSt) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return a.branch(x.X, !truth, s)
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			v := x.X
			if isNilConst(v) {
				v = x.Y
			} else if !isNilConst(x.Y) {
				return true
			}
			f, ok := s.facts[v]
			if !ok {
				return true
			}
			isNil := f == 'n'
			if f != 'n' && f != 'v' {
				return true
			}
			want := truth == (x.Op == token.EQL)
			return isNil == want
		}
	}
	if f, ok := s.facts[cond]; ok && (f == 't' || f == 'f') {
		return (f == 't') == truth
	}
	return true
}

func (a *lockAn) acquire(fn *ssa.Function, in ssa.Instruction, s *lockSt, k lockKey, mode byte, report bool) {
	if h, ok := s.held[k]; ok && report {
		if h == 'W' || mode == 'W' {
			a.bad("twice", in, k, fmt.Sprintf("takes %s while it is already held: the call never returns", k))
		} else {
			a.bad("twice", in, k, fmt.Sprintf("takes %s for reading again while it is held for reading: blocks for ever when a writer waits in between", k))
		}
	}
	s.held[k] = mode
	s.took[k] = 'W'
}

func (a *lockAn) release(fn *ssa.Function, in ssa.Instruction, s *lockSt, k lockKey, mode byte, report bool) {
	up := byte('W')
	if mode == 'r' {
		up = 'R'
	}
	if h, ok := s.held[k]; ok {
		if h != up && report {
			a.bad("mode", in, k, fmt.Sprintf("releases %s in the other mode than it was taken", k))
		}
		delete(s.held, k)
		return
	}
	local := true
	switch r := k.root.(type) {
	case *ssa.Parameter, *ssa.Global:
		local = false
	default:
		local = r == nil || r.Parent() == fn
	}
	if _, again := s.need[k]; local || again || s.took[k] != 0 {
		if report {
			a.bad("free", in, k, fmt.Sprintf("releases %s which is not held", k))
		}
		return
	}
	s.need[k] = up
}

func (a *lockAn) step(fn *ssa.Function, in ssa.Instruction, s *lockSt, out *lockFn, report bool) []*lockSt {
	switch x := in.(type) {
	case *ssa.Call:
		if k, m, ok := lockOp(x.Common()); ok {
			if report {
				a.ops++
			}
			if m == 'W' || m == 'R' {
				a.order(in, s, lockClass(x.Call.Args[0]))
				a.acquire(fn, in, s, k, m, report)
			} else {
				a.release(fn, in, s, k, m, report)
			}
			return []*lockSt{s}
		}
		return a.call(fn, in, x.Common(), x, s, report)
	case *ssa.Defer:
		if k, m, ok := lockOp(x.Common()); ok {
			if report {
				a.ops++
			}
			if m == 'w' || m == 'r' {
				if s.defd[k] != 0 && report {
					a.bad("free", in, k, fmt.Sprintf("a second deferred release of %s: it is released twice", k))
				}
				s.defd[k] = m - 'a' + 'A'
			}
			return []*lockSt{s}
		}
		for _, g := range a.callees(x.Common()) {
			if sm := a.sum[g]; sm != nil && !sm.plain {
				// a deferred literal that releases on every way out
				rel := lockSet{}
				for i, e := range sm.exits {
					if i == 0 {
						for k, m := range e.need {
							rel[k] = m
						}
						continue
					}
					for k := range rel {
						if _, ok := e.need[k]; !ok {
							delete(rel, k)
						}
					}
				}
				for k, m := range rel {
					s.defd[a.mapKey(k, g, x.Common())] = m
				}
			}
		}
		return []*lockSt{s}
	case *ssa.Return:
		held := lockSet{}
		for k, m := range s.held {
			if s.defd[k] == 0 {
				held[k] = m
			}
		}
		need := lockSet{}
		for k, m := range s.need {
			need[k] = m
		}
		for k, m := range s.defd {
			if h, ok := s.held[k]; ok {
				if h != m && report {
					a.bad("mode", in, k, fmt.Sprintf("a deferred release of %s is of the other mode than it was taken in", k))
				}
				continue
			}
			if s.took[k] != 0 {
				if report {
					a.bad("free", in, k, fmt.Sprintf("a deferred release of %s runs on a path where it was released already", k))
				}
				continue
			}
			if k.root != nil && k.root.Parent() == fn {
				if _, isP := k.root.(*ssa.Parameter); !isP {
					if report {
						a.bad("free", in, k, fmt.Sprintf("a deferred release of %s runs on a path where it is not held", k))
					}
					continue
				}
			}
			need[k] = m
		}
		e := lockExit{held: held, need: need, at: in, rets: x.Results}
		for _, r := range x.Results {
			e.res = append(e.res, resFact(r, s))
		}
		out.exits = append(out.exits, e)
	}
	return []*lockSt{s}
}

func resFact(v ssa.Value, s *lockSt) byte {
	if f, ok := s.facts[v]; ok {
		return f
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return 'n'
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			if x.Value.String() == "true" {
				return 't'
			}
			return 'f'
		}
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.FieldAddr:
		return 'v'
	}
	return '?'
}

func (a *lockAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := StaticCallee(c); f != nil {
		return []*ssa.Function{f}
	}
	if !c.IsInvoke() {
		return closureFns(c.Value, 0)
	}
	return nil
}

// mapKey renames a callee's lock to the caller's terms; root nil = not visible to the caller.
func (a *lockAn) mapKey(k lockKey, g *ssa.Function, c *ssa.CallCommon) lockKey {
	if p, ok := k.root.(*ssa.Parameter); ok && p.Parent() == g {
		for i, q := range g.Params {
			if q == p {
				args := c.Args
				if c.IsInvoke() {
					if i == 0 {
						b := addrKey(c.Value, 0)
						return lockKey{b.root, b.path + k.path}
					}
					i--
				}
				if i < len(args) {
					b := addrKey(args[i], 0)
					return lockKey{b.root, b.path + k.path}
				}
			}
		}
		return lockKey{}
	}
	if _, ok := k.root.(*ssa.Global); ok {
		return k
	}
	if k.root != nil && k.root.Parent() != g {
		return k
	}
	return lockKey{}
}

func (a *lockAn) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, val ssa.Value, s *lockSt, report bool) []*lockSt {
	gs := a.callees(c)
	if len(s.held) > 0 && report {
		a.calls++
		a.heldCall(fn, in, c, s)
	}
	if len(gs) != 1 {
		return []*lockSt{s}
	}
	g := gs[0]
	sm := a.sum[g]
	if sm == nil || sm.plain {
		return []*lockSt{s}
	}
	var out []*lockSt
	for _, e := range sm.exits {
		ns := s.clone()
		for k, m := range e.need {
			ck := a.mapKey(k, g, c)
			if ck.root == nil {
				continue
			}
			a.release(fn, in, ns, ck, m-'A'+'a', report)
		}
		ext := map[int]ssa.Value{}
		if len(e.res) == 1 {
			ext[0] = val
		} else if val.Referrers() != nil {
			for _, r := range *val.Referrers() {
				if x, ok := r.(*ssa.Extract); ok {
					ext[x.Index] = x
				}
			}
		}
		for i, v := range ext {
			if i < len(e.res) && e.res[i] != '?' {
				ns.facts[v] = e.res[i]
			} else {
				delete(ns.facts, v)
			}
		}
		for k, m := range e.held {
			ck := a.mapKey(k, g, c)
			if ck.root == nil {
				for i, r := range e.rets {
					rk := addrKey(r, 0)
					if rk.root == k.root && strings.HasPrefix(k.path, rk.path) && ext[i] != nil {
						ck = lockKey{ext[i], k.path[len(rk.path):]}
					}
				}
			}
			if ck.root != nil {
				ns.held[ck] = m
			}
		}
		dup := false
		for _, o := range out {
			if o.sig() == ns.sig() {
				dup = true
			}
		}
		if !dup {
			out = append(out, ns)
		}
	}
	if len(out) == 0 {
		return []*lockSt{s}
	}
	return out
}

// ---- what a call may lock ----

// targets: every repository function a call may run, with function literals handed to it.
func (a *lockAn) targets(in ssa.CallInstruction) []*ssa.Function {
	c := in.Common()
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 && inRepo(f) {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range a.callees(c) {
		add(f)
	}
	if len(out) == 0 {
		if n := a.w.Callgraph().Nodes[in.Parent()]; n != nil {
			for _, e := range n.Out {
				if e.Site == in {
					add(e.Callee.Func)
				}
			}
		}
	}
	for _, arg := range c.Args {
		for _, f := range closureFns(arg, 0) {
			add(f)
		}
	}
	return out
}

func (a *lockAn) acquires() {
	acq := map[*ssa.Function]map[lockKey]byte{}
	cls := map[*ssa.Function]map[string]bool{}
	tg := map[*ssa.Function][]ssa.CallInstruction{}
	tgt := map[ssa.CallInstruction][]*ssa.Function{}
	for _, fn := range a.w.fns {
		acq[fn] = map[lockKey]byte{}
		cls[fn] = map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if k, m, ok := lockOp(c.Common()); ok {
					if m == 'W' || m == 'R' {
						if acq[fn][k] != 'W' {
							acq[fn][k] = m
						}
						cls[fn][lockClass(c.Common().Args[0])] = true
					}
					continue
				}
				if t := a.targets(c); len(t) > 0 {
					tg[fn] = append(tg[fn], c)
					tgt[c] = t
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range a.w.fns {
			for _, c := range tg[fn] {
				for _, g := range tgt[c] {
					for cl := range cls[g] {
						if !cls[fn][cl] {
							cls[fn][cl] = true
							changed = true
						}
					}
					for k, m := range acq[g] {
						ck := a.mapKey(k, g, c.Common())
						if ck.root == nil || strings.Count(ck.path, ".") > 4 {
							continue
						}
						if o := acq[fn][ck]; o != 'W' && o != m {
							acq[fn][ck] = m
							changed = true
						}
					}
				}
			}
		}
	}
	for fn, m := range acq {
		s := a.sum[fn]
		if s == nil {
			s = &lockFn{fn: fn, plain: true}
			a.sum[fn] = s
		}
		s.acq = m
	}
	a.classes = cls
}

// heldCall: a call made with locks held must not take one of them again.
func (a *lockAn) heldCall(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, s *lockSt) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	for _, g := range a.targets(ci) {
		sm := a.sum[g]
		if sm == nil {
			continue
		}
		for k, m := range sm.acq {
			ck := a.mapKey(k, g, c)
			if h, ok := s.held[ck]; ok {
				if h == 'W' || m == 'W' {
					a.bad("again", in, ck, fmt.Sprintf("calls %s, which takes %s, while holding it: the call never returns", FnName(g), ck))
				} else {
					a.bad("again", in, ck, fmt.Sprintf("calls %s, which takes %s for reading, while holding it for reading: blocks for ever when a writer waits in between", FnName(g), ck))
				}
			}
		}
		for cl := range a.classes[g] {
			a.order(in, s, cl)
		}
	}
}

// order records which lock classes are taken while which are held.
func (a *lockAn) order(in ssa.Instruction, s *lockSt, cl string) {
	for k := range s.held {
		e := [2]string{a.classOfKey(k), cl}
		if a.edges[e] == nil {
			a.edges[e] = map[string]ssa.Instruction{}
		}
		if f := FnName(in.Parent()); a.edges[e][f] == nil {
			a.edges[e][f] = in
		}
	}
}

func (a *lockAn) classOfKey(k lockKey) string {
	if k.root == nil {
		return "?"
	}
	t := k.root.Type()
	if k.path == "" {
		return lockClass(k.root)
	}
	parts := strings.Split(strings.TrimPrefix(k.path, "."), ".")
	for i, p := range parts {
		p = strings.TrimSuffix(p, "[]")
		n := namedOf(t)
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			return "?"
		}
		var fv *types.Var
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == p {
				fv = st.Field(j)
			}
		}
		if fv == nil {
			return "?"
		}
		if i == len(parts)-1 && n != nil {
			return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + p
		}
		t = fv.Type()
	}
	return "?"
}

func derefType(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}
