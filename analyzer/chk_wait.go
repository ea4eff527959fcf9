package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "wait", checkWait)
}

// checkWait: every lock taken is released, every goroutine started ends and reports, every
// wait is for something that happens on every path.
func checkWait(w *World, r *Reporter) {
	for rule, n := range map[string]int{"unlock": 90, "order": 70, "goroutine": 150, "waitgroup": 35, "channel": 100, "signal": 3, "chain": 3} {
		r.Min(rule, n)
	}
	checkLocks(w, r)
	checkGo(w, r)
	checkSignal(w, r)
}

// nestsSafely: nestings of two locks of the same kind that cannot form a cycle.
var nestsSafely = map[string]string{
	"index.SpecIndex.refLock then index.SpecIndex.refLock in index.SpecIndex.locateRef": "an index takes its refLock only while its own references are extracted, which only the call chain that opened its file does; the inner lock belongs to a file this chain opened while holding the outer one",
}

func checkLocks(w *World, r *Reporter) {
	type rep struct {
		key, pos, msg string
	}
	found := map[string]rep{}
	a := &lockAn{w: w, sum: map[*ssa.Function]*lockFn{}, edges: map[[2]string]map[string]ssa.Instruction{}}
	a.bad = func(kind string, at ssa.Instruction, k lockKey, msg string) {
		key := fmt.Sprintf("%s %s %s", FnName(at.Parent()), kind, k)
		if _, ok := found[key]; !ok {
			found[key] = rep{key, w.InstrPos(at), msg}
		}
	}
	for round := 0; round < 6; round++ {
		changed := false
		for _, fn := range w.fns {
			if !a.interesting(fn) {
				continue
			}
			n := a.run(fn, false)
			if o := a.sum[fn]; o == nil || o.plain != n.plain || len(o.exits) != len(n.exits) {
				changed = true
			}
			a.sum[fn] = n
		}
		if !changed {
			break
		}
	}
	a.acquires()
	callers := map[*ssa.Function]int{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range a.callees(c.Common()) {
						callers[g]++
					}
				}
			}
		}
	}
	fns := 0
	for _, fn := range w.fns {
		if !a.interesting(fn) {
			continue
		}
		fns++
		r.Fn(FnName(fn))
		before := len(found)
		n := a.run(fn, true)
		a.settle(fn, n, callers[fn])
		if len(found) == before {
			r.OK("unlock", FnName(fn))
		}
	}
	// lock order
	adj := map[string][]string{}
	for e := range a.edges {
		if e[0] != e[1] {
			adj[e[0]] = append(adj[e[0]], e[1])
		}
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, n := range adj[from] {
			if reach(n, to, seen) {
				return true
			}
		}
		return false
	}
	var es [][2]string
	for e := range a.edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i][0]+es[i][1] < es[j][0]+es[j][1] })
	for _, e := range es {
		var fs []string
		for f := range a.edges[e] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			at := a.edges[e][f]
			key := e[0] + " then " + e[1] + " in " + f
			switch {
			case e[0] == e[1] && nestsSafely[key] != "":
				r.OK("order", key)
				r.Note("exempt " + key + ": " + nestsSafely[key])
			case e[0] == e[1]:
				r.Bad("order", key, w.InstrPos(at), fmt.Sprintf("a lock %s is taken while another of the same kind may be held: two goroutines going opposite ways wait for each other", e[0]))
			case reach(e[1], e[0], map[string]bool{}):
				r.Bad("order", key, w.InstrPos(at), fmt.Sprintf("%s is taken while %s is held, and elsewhere the other way round: two goroutines can wait for each other for ever", e[1], e[0]))
			default:
				r.OK("order", key)
			}
		}
	}
	var ks []string
	for k := range found {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := found[k]
		r.Bad("unlock", f.key, f.pos, f.msg)
	}
	r.Note(fmt.Sprintf("locks: %d functions, %d lock operations visited over all paths, %d calls made with a lock held, %d nestings", fns, a.ops, a.calls, len(es)))
}

// settle decides whether what a function returns with is a hand-over its callers can follow.
func (a *lockAn) settle(fn *ssa.Function, n *lockFn, callers int) {
	keys := map[lockKey]bool{}
	for _, e := range n.exits {
		for k := range e.held {
			keys[k] = true
		}
	}
	for k := range keys {
		var with, without []lockExit
		for _, e := range n.exits {
			if _, ok := e.held[k]; ok {
				with = append(with, e)
			} else {
				without = append(without, e)
			}
		}
		visible := false
		for _, e := range with {
			for _, rv := range e.rets {
				rk := addrKey(rv, 0)
				if rk.root == k.root && strings.HasPrefix(k.path, rk.path) {
					visible = true
				}
			}
		}
		if p, ok := k.root.(*ssa.Parameter); ok && p.Parent() == fn {
			visible = true
		}
		if visible && callers > 0 && apart(with, without) {
			continue
		}
		a.bad("kept", with[0].at, k, fmt.Sprintf("returns with %s still held: whoever wants it next waits for ever", k))
	}
	needs := map[lockKey]bool{}
	for _, e := range n.exits {
		for k := range e.need {
			needs[k] = true
		}
	}
	for k := range needs {
		var with, without []lockExit
		for _, e := range n.exits {
			if _, ok := e.need[k]; ok {
				with = append(with, e)
			} else {
				without = append(without, e)
			}
		}
		inner := fn.Parent() != nil
		if (callers > 0 || inner) && apart(with, without) {
			continue
		}
		a.bad("free", with[0].at, k, fmt.Sprintf("releases %s, which its callers cannot be shown to hold", k))
	}
}

// apart: the two groups of exits can be told apart by a result.
func apart(x, y []lockExit) bool {
	if len(y) == 0 {
		return true
	}
	for i := range x[0].res {
		px, py := map[byte]bool{}, map[byte]bool{}
		for _, e := range x {
			px[e.res[i]] = true
		}
		for _, e := range y {
			py[e.res[i]] = true
		}
		ok := true
		for f := range px {
			if f == '?' || py[f] {
				ok = false
			}
		}
		for f := range py {
			if f == '?' {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// checkSignal: a file that others can find and wait for is always announced as complete.
func checkSignal(w *World, r *Reporter) {
	g := &goAn{w: w, la: &lockAn{w: w}, memo: map[string][2]int{}, tmo: map[ssa.CallInstruction][]*ssa.Function{}}
	g.collect()
	// fields somebody waits on
	waited := map[string]bool{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, key, ok := evOp(in); ok && k == 'r' {
					if p, isP := key.root.(*ssa.Parameter); isP && strings.Count(key.path, ".") == 1 {
						if n := namedOf(p.Type()); n != nil {
							waited[n.String()+key.path] = true
						}
					}
				}
			}
		}
	}
	// closers: functions that close a waited field of a parameter
	closer := map[*ssa.Function]map[int]bool{}
	for fn, es := range g.evs {
		for e := range es {
			p, isP := e.key.root.(*ssa.Parameter)
			if e.kind != 'c' || !isP || p.Parent() != fn {
				continue
			}
			direct := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if k, key, ok := evOp(in); ok && k == 'c' && key == e.key {
						direct = true
					}
				}
			}
			n := namedOf(p.Type())
			if !direct || n == nil || !waited[n.String()+e.key.path] {
				continue
			}
			for i, q := range fn.Params {
				if q == p {
					if closer[fn] == nil {
						closer[fn] = map[int]bool{}
					}
					closer[fn][i] = true
				}
			}
		}
	}
	// signals: on every path of fn, parameter i is announced
	memo := map[string]bool{}
	var always func(fn *ssa.Function, k lockKey, from ssa.Instruction, depth int) bool
	signalCall := func(in ssa.Instruction, k lockKey, depth int) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return false
		}
		for _, t := range g.targets(c) {
			for i, p := range t.Params {
				if i >= len(c.Common().Args) || addrKey(c.Common().Args[i], 0) != k {
					continue
				}
				if closer[t][i] {
					return true
				}
				if depth < 4 && always(t, lockKey{p, ""}, nil, depth+1) {
					return true
				}
			}
		}
		return false
	}
	always = func(fn *ssa.Function, k lockKey, from ssa.Instruction, depth int) bool {
		mk := fmt.Sprintf("%p%p%s%p", fn, k.root, k.path, from)
		if v, ok := memo[mk]; ok {
			return v
		}
		memo[mk] = false
		good := true
		explore(fn, func(in ssa.Instruction, s *pst) []*pst {
			if from == nil && s.n["on"] == 0 && s.n["hit"] == 0 {
				s.n["on"] = 1
			}
			if in == from {
				s.n["on"] = 1
				s.n["hit"] = 0
				return []*pst{s}
			}
			if signalCall(in, k, depth) {
				s.n["hit"] = 1
			}
			if _, ok := in.(*ssa.Return); ok && s.n["on"] == 1 && s.n["hit"] == 0 {
				good = false
			}
			return []*pst{s}
		})
		memo[mk] = good
		return good
	}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || !strings.HasPrefix(f.String(), "(*sync.Map).") || !strings.Contains(f.Name(), "Store") && f.Name() != "Swap" {
					continue
				}
				v := c.Call.Args[2]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				n := namedOf(v.Type())
				if n == nil {
					continue
				}
				is := false
				if w.Method(n, "WaitForIndexing") == nil {
					continue
				}
				for k := range waited {
					if strings.HasPrefix(k, n.String()+".") {
						is = true
					}
				}
				if !is {
					continue
				}
				key := FnName(fn) + " publishes " + n.Obj().Name()
				k := addrKey(v, 0)
				done := false
				// announced before it was published
				for _, bb := range fn.Blocks {
					for _, x := range bb.Instrs {
						if x != in && signalCall(x, k, 0) && Dominates(x, in) {
							done = true
						}
					}
				}
				if done || always(fn, k, in, 0) {
					r.OK("signal", key)
				} else {
					r.Bad("signal", key, w.InstrPos(in), "a file others can find and wait for is not announced as complete on every path: they wait for ever")
				}
			}
		}
	}
	// a file is indexed under a context that says so, and waited for only after asking it
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				name := ""
				if c.IsInvoke() {
					name = c.Method.Name()
				} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
					name = f.Name()
				}
				if name == "WaitForIndexing" && fn.Name() != "WaitForIndexing" {
					key := FnName(fn) + " waits"
					if askedFirst(in) {
						r.OK("chain", key)
					} else {
						r.Bad("chain", key, w.InstrPos(in), "waits for a file to be indexed without asking whether this call chain is what its indexing waits for: both wait for ever")
					}
				}
			}
		}
	}
	for _, tn := range []string{"LocalFile", "RemoteFile"} {
		n := w.Named("index", tn)
		if n == nil {
			continue
		}
		for _, fn := range w.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().IsInvoke() {
						continue
					}
					f := ci.Common().StaticCallee()
					if f == nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != n || len(ci.Common().Args) < 2 || !isContext(ci.Common().Args[1].Type()) {
						continue
					}
					if fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == n {
						continue // the file's own wrapper
					}
					key := FnName(fn) + " indexes " + tn
					if fromAdd(ci.Common().Args[1], 0) {
						r.OK("chain", key)
					} else if fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()).Obj().Name() == "rolodexFile" {
						r.OK("chain", key)
					} else {
						r.Bad("chain", key, w.InstrPos(in), "indexes a file without adding it to the files this call chain is indexing: a reference back to it waits for itself")
					}
				}
			}
		}
	}
}

func isContext(t types.Type) bool { return IsType(t, "context", "Context") }

// fromAdd: the context was extended with AddIndexingFile.
func fromAdd(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if f.Name() == "AddIndexingFile" {
				return true
			}
			for _, a := range x.Call.Args {
				if isContext(a.Type()) && fromAdd(a, depth+1) {
					return true
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fromAdd(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return fromAdd(x.Tuple, depth+1)
	case *ssa.UnOp:
		if s := onlyStore(x.X); s != nil {
			return fromAdd(s, depth+1)
		}
	}
	return false
}

// askedFirst: the instruction is only reached after a test that depends on the files the
// call chain is indexing.
func askedFirst(in ssa.Instruction) bool {
	var dep func(v ssa.Value, depth int) bool
	dep = func(v ssa.Value, depth int) bool {
		if depth > 6 || v == nil {
			return false
		}
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Name() == "GetIndexingFiles" {
				return true
			}
			for _, a := range c.Call.Args {
				if dep(a, depth+1) {
					return true
				}
			}
			return false
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && dep(*op, depth+1) {
				return true
			}
		}
		return false
	}
	for _, b := range in.Parent().Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !dep(iff.Cond, 0) {
			continue
		}
		// one branch leads on to the instruction, the other does not
		reach := func(s *ssa.BasicBlock) bool {
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(x *ssa.BasicBlock) bool
			walk = func(x *ssa.BasicBlock) bool {
				if x == in.Block() {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for _, y := range x.Succs {
					if walk(y) {
						return true
					}
				}
				return false
			}
			return walk(s)
		}
		if reach(b.Succs[0]) != reach(b.Succs[1]) && b.Dominates(in.Block()) {
			return true
		}
	}
	return false
}
