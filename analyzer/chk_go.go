package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Goroutine protocol: every goroutine the library starts reports its end exactly once on
// every path, whoever waits for it waits for exactly as many reports as there are
// goroutines, and nobody is left blocked on a send.

// ---- a small path explorer with counters ----

type pst struct {
	n     map[string]int
	facts map[ssa.Value]byte
}

func (s *pst) clone() *pst {
	c := &pst{map[string]int{}, map[ssa.Value]byte{}}
	for k, v := range s.n {
		c.n[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	return c
}

func (s *pst) sig() string {
	var p []string
	for k, v := range s.n {
		if v != 0 {
			p = append(p, fmt.Sprintf("%s=%d", k, v))
		}
	}
	for k, v := range s.facts {
		p = append(p, fmt.Sprintf("f%p%c", k, v))
	}
	sort.Strings(p)
	return strings.Join(p, ";")
}

// explore runs step over every path of fn, merging equal states. step returns the states
// after the instruction. It reports false when there were too many states to follow.
func explore(fn *ssa.Function, step func(in ssa.Instruction, s *pst) []*pst) bool {
	return explore2(fn, step, true) || explore2(fn, step, false)
}

func explore2(fn *ssa.Function, step func(in ssa.Instruction, s *pst) []*pst, facts bool) bool {
	type item struct {
		b *ssa.BasicBlock
		s *pst
	}
	seen := map[*ssa.BasicBlock]map[string]bool{}
	work := []item{{fn.Blocks[0], &pst{map[string]int{}, map[ssa.Value]byte{}}}}
	total := 0
	la := &lockAn{}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		sg := it.s.sig()
		if seen[it.b] == nil {
			seen[it.b] = map[string]bool{}
		}
		if seen[it.b][sg] {
			continue
		}
		seen[it.b][sg] = true
		if total++; total > 8000 {
			return false
		}
		states := []*pst{it.s.clone()}
		for _, in := range it.b.Instrs {
			var next []*pst
			for _, s := range states {
				next = append(next, step(in, s)...)
			}
			states = next
		}
		for _, s := range states {
			cond, isIf := it.b.Instrs[len(it.b.Instrs)-1].(*ssa.If)
			for i, sc := range it.b.Succs {
				ns := s.clone()
				if facts {
					ls := &lockSt{facts: ns.facts}
					if isIf {
						if !la.branch(cond.Cond, i == 0, ls) {
							continue
						}
						remember(cond.Cond, i == 0, ls)
					}
					enter(it.b, sc, ls)
				}
				work = append(work, item{sc, ns})
			}
		}
	}
	return true
}

// ---- events ----

// evOp: what an instruction does to a channel or wait group. kind: s send, c close, d Done,
// w Wait, a Add, r receive.
func evOp(in ssa.Instruction) (kind byte, key lockKey, ok bool) {
	switch x := in.(type) {
	case *ssa.Send:
		return 's', addrKey(x.Chan, 0), true
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return 'r', addrKey(x.X, 0), true
		}
	}
	if c, isC := in.(ssa.CallInstruction); isC {
		cc := c.Common()
		if b, isB := cc.Value.(*ssa.Builtin); isB && b.Name() == "close" {
			return 'c', addrKey(cc.Args[0], 0), true
		}
		if f := cc.StaticCallee(); f != nil && len(cc.Args) > 0 {
			switch f.String() {
			case "(*sync.WaitGroup).Done":
				return 'd', addrKey(cc.Args[0], 0), true
			case "(*sync.WaitGroup).Wait":
				return 'w', addrKey(cc.Args[0], 0), true
			case "(*sync.WaitGroup).Add":
				return 'a', addrKey(cc.Args[0], 0), true
			}
		}
	}
	return
}

type ev struct {
	kind byte
	key  lockKey
}

type goAn struct {
	w    *World
	la   *lockAn
	evs  map[*ssa.Function]map[ev]bool
	memo map[string][2]int
	tmo  map[ssa.CallInstruction][]*ssa.Function
}

func (g *goAn) targets(c ssa.CallInstruction) []*ssa.Function {
	if t, ok := g.tmo[c]; ok {
		return t
	}
	var out []*ssa.Function
	for _, f := range g.la.callees(c.Common()) {
		if len(f.Blocks) > 0 && inRepo(f) {
			out = append(out, f)
		}
	}
	_, isGo := c.(*ssa.Go)
	if len(out) == 0 && isGo {
		if n := g.w.Callgraph().Nodes[c.Parent()]; n != nil {
			for _, e := range n.Out {
				if e.Site == c && len(e.Callee.Func.Blocks) > 0 && inRepo(e.Callee.Func) {
					out = append(out, e.Callee.Func)
				}
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	}
	g.tmo[c] = out
	return out
}

// collect: the events a function causes, in its own terms, through the calls it makes.
func (g *goAn) collect() {
	g.evs = map[*ssa.Function]map[ev]bool{}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range g.w.fns {
		g.evs[fn] = map[ev]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, key, ok := evOp(in); ok {
					g.evs[fn][ev{k, key}] = true
					continue
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					if len(g.targets(c)) > 0 {
						calls[fn] = append(calls[fn], c)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range g.w.fns {
			for _, c := range calls[fn] {
				for _, t := range g.targets(c) {
					for e := range g.evs[t] {
						k := g.la.mapKey(e.key, t, c.Common())
						if k.root == nil || strings.Count(k.path, ".") > 4 {
							continue
						}
						if !g.evs[fn][ev{e.kind, k}] {
							g.evs[fn][ev{e.kind, k}] = true
							changed = true
						}
					}
				}
			}
		}
	}
}

// into renames the caller's key to the callee's terms; all the ways it can be reached.
func (g *goAn) into(k lockKey, t *ssa.Function, c *ssa.CallCommon) []lockKey {
	var out []lockKey
	for i, p := range t.Params {
		j := i
		var arg ssa.Value
		if c.IsInvoke() {
			if i == 0 {
				arg = c.Value
			}
			j--
		}
		if arg == nil {
			if j < 0 || j >= len(c.Args) {
				continue
			}
			arg = c.Args[j]
		}
		ak := addrKey(arg, 0)
		if ak.root == k.root && strings.HasPrefix(k.path, ak.path) {
			out = append(out, lockKey{p, k.path[len(ak.path):]})
		}
	}
	if _, isG := k.root.(*ssa.Global); isG || k.root != nil && k.root.Parent() != nil && k.root.Parent() != t && isAncestor(k.root.Parent(), t) {
		out = append(out, k)
	}
	return out
}

func isAncestor(p, f *ssa.Function) bool {
	for x := f; x != nil; x = x.Parent() {
		if x == p {
			return true
		}
	}
	return false
}

// counts: least and most times an event of the given kinds on the given keys happens on a
// path through fn (2 stands for more than one).
func (g *goAn) counts(fn *ssa.Function, evs []ev, depth int) (lo, hi int) {
	var id []string
	for _, e := range evs {
		id = append(id, fmt.Sprintf("%c%p%s", e.kind, e.key.root, e.key.path))
	}
	sort.Strings(id)
	mk := fmt.Sprintf("%p|%s", fn, strings.Join(id, "|"))
	if m, ok := g.memo[mk]; ok {
		return m[0], m[1]
	}
	g.memo[mk] = [2]int{0, 0}
	want := map[ev]bool{}
	for _, e := range evs {
		want[e] = true
	}
	lo, hi = 99, -1
	add := func(s *pst, l, h int, name string) []*pst {
		if l == h {
			s.n[name] = min(2, s.n[name]+l)
			return []*pst{s}
		}
		var out []*pst
		for i := l; i <= h; i++ {
			c := s.clone()
			c.n[name] = min(2, c.n[name]+i)
			out = append(out, c)
		}
		return out
	}
	explore(fn, func(in ssa.Instruction, s *pst) []*pst {
		switch x := in.(type) {
		case *ssa.Return:
			t := min(2, s.n["now"]+s.n["later"])
			lo, hi = min(lo, t), max(hi, t)
			return []*pst{s}
		case *ssa.Panic, *ssa.Go:
			return []*pst{s}
		case ssa.CallInstruction:
			name := "now"
			if _, isD := in.(*ssa.Defer); isD {
				name = "later"
			}
			if k, key, ok := evOp(in); ok {
				if want[ev{k, key}] {
					return add(s, 1, 1, name)
				}
				return []*pst{s}
			}
			if depth > 5 {
				return []*pst{s}
			}
			ts := g.targets(x)
			if len(ts) != 1 || ts[0] == fn {
				return []*pst{s}
			}
			var sub []ev
			for e := range want {
				for _, k := range g.into(e.key, ts[0], x.Common()) {
					if g.evs[ts[0]][ev{e.kind, k}] {
						sub = append(sub, ev{e.kind, k})
					}
				}
			}
			if len(sub) == 0 {
				return []*pst{s}
			}
			l, h := g.counts(ts[0], sub, depth+1)
			return add(s, l, h, name)
		default:
			if k, key, ok := evOp(in); ok && want[ev{k, key}] {
				return add(s, 1, 1, "now")
			}
		}
		return []*pst{s}
	})
	if hi < 0 {
		lo, hi = 0, 0
	}
	g.memo[mk] = [2]int{lo, hi}
	return lo, hi
}

// ---- loops ----

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return out
}

func innermost(ls []*loop, b *ssa.BasicBlock) *loop {
	var best *loop
	for _, l := range ls {
		if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	return best
}

func (l *loop) everyRound(b *ssa.BasicBlock) bool {
	for _, p := range l.head.Preds {
		if l.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// span: what a loop runs over: a key for the slice or map, or a constant.
func (l *loop) span() (lockKey, bool) {
	// range over a map: the header takes Next of a Range
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return addrKey(rg.X, 0), true
			}
		}
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return lockKey{}, false
	}
	if b, ok := iff.Cond.(*ssa.BinOp); ok && (b.Op == token.LSS || b.Op == token.NEQ) {
		if c, ok := b.Y.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return addrKey(c.Call.Args[0], 0), true
			}
		}
	}
	return lockKey{}, false
}

// lenTerms: v as a sum of lengths.
func lenTerms(v ssa.Value) ([]lockKey, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return []lockKey{addrKey(x.Call.Args[0], 0)}, true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := lenTerms(x.X)
			b, ok2 := lenTerms(x.Y)
			return append(a, b...), ok1 && ok2
		}
	}
	return nil, false
}

var _ = types.Typ

func checkGo(w *World, r *Reporter) {
	g := &goAn{w: w, la: &lockAn{w: w}, memo: map[string][2]int{}, tmo: map[ssa.CallInstruction][]*ssa.Function{}}
	g.collect()
	sites := map[*ssa.Function][]ssa.CallInstruction{}
	var gos []*ssa.Go
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range g.targets(c) {
					sites[t] = append(sites[t], c)
				}
				if x, ok := in.(*ssa.Go); ok {
					gos = append(gos, x)
				}
			}
		}
	}
	// up renames a key rooted at a parameter of an inner function to where it comes from.
	var up func(k lockKey, depth int) lockKey
	up = func(k lockKey, depth int) lockKey {
		p, ok := k.root.(*ssa.Parameter)
		if !ok || depth > 5 {
			return k
		}
		fn := p.Parent()
		var res lockKey
		for _, c := range sites[fn] {
			m := up(g.la.mapKey(k, fn, c.Common()), depth+1)
			if m.root == nil || res.root != nil && res != m {
				return k
			}
			res = m
		}
		if res.root == nil {
			return k
		}
		return res
	}
	nm := func(k lockKey) string {
		if _, ok := k.root.(*ssa.MakeChan); ok {
			for _, r := range *k.root.Referrers() {
				if st, ok := r.(*ssa.Store); ok {
					if al, ok := st.Addr.(*ssa.Alloc); ok && al.Comment != "" {
						return al.Comment
					}
				}
				if dr, ok := r.(*ssa.DebugRef); ok {
					_ = dr
				}
			}
			return "channel"
		}
		return k.String()
	}

	// 1. every goroutine reports its end exactly once on every path
	chanSenders := map[lockKey][]*sender{}
	closers := map[lockKey]bool{}
	for fn, es := range g.evs {
		for e := range es {
			if e.kind == 'c' {
				closers[up(e.key, 0)] = true
				_ = fn
			}
		}
	}
	var all []*sender
	n := map[string]int{}
	for _, x := range gos {
		key := FnName(x.Parent())
		n[key]++
		ts := g.targets(x)
		if len(ts) == 0 {
			r.Bad("goroutine", fmt.Sprintf("%s go#%d", key, n[key]), w.InstrPos(x), "starts a goroutine whose code cannot be determined")
			continue
		}
		for _, t := range ts {
			key := fmt.Sprintf("%s go %s", FnName(x.Parent()), FnName(t))
			s := &sender{at: x, t: t, keys: map[lockKey][]lockKey{}, wg: map[lockKey]bool{}}
			all = append(all, s)
			bad := false
			report := func(msg string) {
				bad = true
				r.Bad("goroutine", key, w.InstrPos(x), msg)
			}
			closes := 0
			for e := range g.evs[t] {
				k := g.la.mapKey(e.key, t, x.Common())
				if k.root == nil {
					continue
				}
				switch e.kind {
				case 'd':
					s.wg[k] = true
					lo, hi := g.counts(t, []ev{e}, 0)
					if lo == 0 {
						report("a path through the goroutine ends without calling Done: the wait for it never ends")
					} else if hi > 1 {
						report("a path through the goroutine calls Done more than once")
					}
				case 'c':
					closes++
					lo, hi := g.counts(t, []ev{e}, 0)
					if lo == 0 {
						report("a path through the goroutine ends without closing " + nm(up(k, 0)) + ": whoever reads it waits for ever")
					} else if hi > 1 {
						report("a path through the goroutine closes " + nm(up(k, 0)) + " more than once")
					}
				case 's':
					u := up(k, 0)
					s.keys[u] = append(s.keys[u], e.key)
				}
			}
			for u := range s.keys {
				chanSenders[u] = append(chanSenders[u], s)
			}
			if len(s.wg) == 0 && closes == 0 && len(s.keys) == 0 {
				if g.selectSends(t) {
					r.OK("goroutine", key)
					continue
				}
				report("nothing tells when the goroutine has ended")
			}
			if !bad {
				r.OK("goroutine", key)
			}
		}
	}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				k, key, ok := evOp(in)
				if !ok || k != 'd' {
					continue
				}
				if p, isP := key.root.(*ssa.Parameter); isP && p.Parent() == fn && fn.Parent() == nil {
					lo, hi := g.counts(fn, []ev{{'d', key}}, 0)
					if lo == 1 && hi == 1 {
						r.OK("goroutine", FnName(fn)+" Done")
					} else {
						r.Bad("goroutine", FnName(fn)+" Done", w.InstrPos(in), "not every path through the function calls Done exactly once")
					}
				}
			}
		}
	}

	// 2. wait groups: as many Adds as goroutines, before them, and a wait after them
	for _, fn := range w.fns {
		var keys []lockKey
		have := map[lockKey]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, key, ok := evOp(in); ok && k == 'a' && !have[key] {
					have[key] = true
					keys = append(keys, key)
				}
			}
		}
		for _, key := range keys {
			g.waitGroup(r, fn, key)
		}
	}

	// 3. channels: readers read as many reports as there are goroutines; nobody stays blocked
	var cks []lockKey
	for k := range chanSenders {
		cks = append(cks, k)
	}
	sort.Slice(cks, func(i, j int) bool {
		return cks[i].root.Pos() < cks[j].root.Pos() || cks[i].root.Pos() == cks[j].root.Pos() && cks[i].root.Name() < cks[j].root.Name()
	})
	doneLoop := map[*ssa.BasicBlock]bool{}
	for _, ck := range cks {
		mc, ok := ck.root.(*ssa.MakeChan)
		if !ok {
			fnk := FnName(chanSenders[ck][0].at.Parent())
			r.Bad("channel", fnk+" "+nm(ck), w.InstrPos(chanSenders[ck][0].at), "a goroutine sends on a channel whose reader cannot be determined")
			continue
		}
		F := mc.Parent()
		key := FnName(F) + " chan#" + chanOrd(mc)
		found := false
		for _, rf := range w.fns {
			if !isAncestor(F, rf) && !isAncestor(rf, F) {
				continue
			}
			ls := loopsOf(rf)
			for _, b := range rf.Blocks {
				for _, in := range b.Instrs {
					kind := g.recvOf(in, ck, up)
					if kind == 0 {
						continue
					}
					found = true
					l := innermost(ls, b)
					switch {
					case kind == 'o':
						if !closers[ck] {
							r.Bad("channel", key, w.InstrPos(in), "reads until the channel is closed, and nothing closes it")
						} else if l != nil && (unbuffered(mc) || !g.sizedFor(mc)) && g.leavesEarly(l, in) {
							r.Bad("channel", key, w.InstrPos(in), "stops reading before the channel is closed: the goroutines still sending stay blocked for ever")
						} else {
							r.OK("channel", key)
						}
					case l == nil || !g.isCountLoop(l):
						if kind == 's' && unbuffered(mc) {
							r.Bad("channel", key, w.InstrPos(in), "stops waiting for a report without the channel having room for it: the goroutine stays blocked for ever")
							continue
						}
						okAll := true
						for _, s := range chanSenders[ck] {
							var es []ev
							for _, k := range s.keys[ck] {
								es = append(es, ev{'s', k})
							}
							if lo, hi := g.counts(s.t, es, 0); lo != 1 || hi != 1 {
								okAll = false
								r.Bad("channel", key, w.InstrPos(s.at), "not every path through the goroutine sends exactly one report")
							}
						}
						if okAll {
							r.OK("channel", key)
						}
					default:
						if doneLoop[l.head] {
							r.OK("channel", key)
							continue
						}
						doneLoop[l.head] = true
						bad := func(msg string) {
							r.Bad("channel", key, w.InstrPos(in), msg)
						}
						cl := g.countLoop(l, ck, up, chanSenders)
						if cl.bad != "" {
							bad(cl.bad)
							continue
						}
						// the reports that count
						okAll := true
						counted := map[lockKey]bool{}
						for k, m := range cl.chans {
							if m != 0 {
								counted[k] = true
							}
						}
						goes := map[*ssa.Go]bool{}
						for _, s := range all {
							var es []ev
							for u, ks := range s.keys {
								if counted[u] {
									for _, k := range ks {
										es = append(es, ev{'s', k})
									}
								}
							}
							if len(es) == 0 {
								continue
							}
							if s.at.Parent() == rf {
								goes[s.at] = true
							}
							lo, hi := g.counts(s.t, es, 0)
							if lo == 0 {
								okAll = false
								r.Bad("channel", key, w.InstrPos(s.at), "a path through "+FnName(s.t)+" ends without a report: the count of reports is never reached")
							} else if hi > 1 {
								okAll = false
								r.Bad("channel", key, w.InstrPos(s.at), "a path through "+FnName(s.t)+" reports more than once: the count is reached while others still run")
							}
						}
						if cl.early {
							for k := range cl.chans {
								if m, ok := k.root.(*ssa.MakeChan); ok && unbuffered(m) && len(chanSenders[k]) > 0 {
									okAll = false
									bad("leaves the loop before all reports are in, and the channel has no room for the rest: the goroutines still running stay blocked for ever")
									break
								}
							}
						}
						if msg := g.total(rf, l, cl, goes); msg != "" {
							okAll = false
							bad(msg)
						}
						if okAll {
							r.OK("channel", key)
						}
					}
				}
			}
		}
		if !found {
			r.Bad("channel", key, w.InstrPos(mc), "nothing reads what the goroutines send")
		}
	}
	r.Note(fmt.Sprintf("goroutines: %d go statements, %d goroutine bodies, %d channels with senders", len(gos), len(all), len(cks)))
}

func chanOrd(mc *ssa.MakeChan) string {
	i := 0
	for _, b := range mc.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeChan); ok {
				i++
				if m == mc {
					return fmt.Sprint(i)
				}
			}
		}
	}
	return "?"
}

func unbuffered(mc *ssa.MakeChan) bool {
	c, ok := mc.Size.(*ssa.Const)
	return ok && c.Int64() == 0
}

func (g *goAn) selectSends(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Select); ok {
				for _, st := range s.States {
					if st.Dir == types.SendOnly {
						return true
					}
				}
			}
		}
	}
	return false
}

// recvOf: does the instruction read channel ck: r plainly, s as one of several, o until closed.
func (g *goAn) recvOf(in ssa.Instruction, ck lockKey, up func(lockKey, int) lockKey) byte {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW && up(addrKey(x.X, 0), 0) == ck {
			if x.CommaOk {
				return 'o'
			}
			return 'r'
		}
	case *ssa.Select:
		for i, st := range x.States {
			if st.Dir == types.RecvOnly && up(addrKey(st.Chan, 0), 0) == ck {
				_ = i
				if !x.Blocking || len(x.States) > 1 {
					return 's'
				}
				return 'r'
			}
		}
	}
	return 0
}

// leavesEarly: the loop can be left other than because the channel was closed.
func (g *goAn) leavesEarly(l *loop, recv ssa.Instruction) bool {
	for b := range l.body {
		for i, s := range b.Succs {
			if l.body[s] {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return true
			}
			_ = i
			e, ok := iff.Cond.(*ssa.Extract)
			if !ok || e.Tuple != recv.(ssa.Value) || e.Index != 1 {
				return true
			}
		}
	}
	return false
}

func (g *goAn) counterOf(l *loop) (ctr *ssa.Phi, total ssa.Value) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil
	}
	isCtr := func(v ssa.Value) *ssa.Phi {
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != l.head {
			return nil
		}
		return p
	}
	switch b.Op {
	case token.LSS, token.NEQ:
		if p := isCtr(b.X); p != nil {
			return p, b.Y
		}
		if p := isCtr(b.Y); p != nil && b.Op == token.NEQ {
			return p, b.X
		}
	case token.GTR:
		if p := isCtr(b.Y); p != nil {
			return p, b.X
		}
		if p := isCtr(b.X); p != nil {
			return p, b.Y // counting down
		}
	}
	// for range n
	return nil, nil
}

func (g *goAn) isCountLoop(l *loop) bool {
	p, _ := g.counterOf(l)
	return p != nil
}

type countLoop struct {
	bad   string
	early bool
	chans map[lockKey]int // 1 counted, 0 not counted, -1 ends the loop
	down  bool
	total ssa.Value
}

// countLoop follows every round of a loop that waits for reports: each report read must move
// the counter by one.
func (g *goAn) countLoop(l *loop, ck lockKey, up func(lockKey, int) lockKey, senders map[lockKey][]*sender) *countLoop {
	ctr, total := g.counterOf(l)
	cl := &countLoop{chans: map[lockKey]int{}, total: total}
	var outside ssa.Value
	for i, p := range l.head.Preds {
		if !l.body[p] {
			outside = ctr.Edges[i]
		}
	}
	if c, ok := total.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
		cl.down = true
		cl.total = outside
	} else if c, ok := outside.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 0 {
		if rc, ok := outside.(*ssa.Const); !ok || rc.Int64() != -1 {
			cl.bad = "the count of reports does not start at zero"
			return cl
		}
	}
	type st struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
	}
	paths := 0
	// not: what a part of the report just read has been compared with and found different from
	not := map[int]map[string]bool{}
	var walk func(b *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, on map[*ssa.BasicBlock]bool, got []lockKey, sel *ssa.Select)
	eval := func(v ssa.Value, env map[*ssa.Phi]ssa.Value) (int, bool) {
		n := 0
		for d := 0; d < 20; d++ {
			switch x := v.(type) {
			case *ssa.Phi:
				if x == ctr {
					return n, true
				}
				if e, ok := env[x]; ok {
					v = e
					continue
				}
				return 0, false
			case *ssa.BinOp:
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && (x.Op == token.ADD || x.Op == token.SUB) {
					if x.Op == token.ADD {
						n += int(c.Int64())
					} else {
						n -= int(c.Int64())
					}
					v = x.X
					continue
				}
				return 0, false
			default:
				return 0, false
			}
		}
		return 0, false
	}
	note := func(k lockKey, m int) {
		if o, ok := cl.chans[k]; ok && o != m && o != -1 && m != -1 {
			cl.bad = "a report read from the channel is counted on some paths only: the loop ends too early or never"
			return
		}
		if o, ok := cl.chans[k]; ok && o == 1 && m == -1 {
			return
		}
		cl.chans[k] = m
	}
	walk = func(b *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, on map[*ssa.BasicBlock]bool, got []lockKey, sel *ssa.Select) {
		if paths > 5000 || cl.bad != "" {
			return
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					got = append(got[:len(got):len(got)], up(addrKey(x.X, 0), 0))
				}
			case *ssa.Select:
				sel = x
				if len(x.States) == 1 && x.Blocking && x.States[0].Dir == types.RecvOnly {
					got = append(got[:len(got):len(got)], up(addrKey(x.States[0].Chan, 0), 0))
					sel = nil
				}
			case *ssa.Return:
				paths++
				cl.early = true
				for _, k := range got {
					note(k, -1)
				}
				return
			case *ssa.Panic:
				return
			}
		}
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for i, s := range b.Succs {
			g2, sel2 := got, sel
			if isIf && sel != nil {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL {
					if e, ok := bo.X.(*ssa.Extract); ok && e.Tuple == sel && e.Index == 0 && i == 0 {
						if c, ok := bo.Y.(*ssa.Const); ok {
							st := sel.States[c.Int64()]
							if st.Dir == types.RecvOnly {
								g2 = append(got[:len(got):len(got)], up(addrKey(st.Chan, 0), 0))
							}
							sel2 = nil
						}
					}
				}
			}
			if isIf && len(got) == 1 {
				if f, c, ok := partCompared(iff.Cond); ok && i == 1 {
					if not[f] == nil {
						not[f] = map[string]bool{}
					}
					if !not[f][c] {
						not[f][c] = true
						defer delete(not[f], c)
					}
				}
			}
			if s == l.head {
				if len(got) == 1 {
					none := false
					for f, cs := range not {
						if sent := g.sentParts(senders[got[0]], got[0], f); len(sent) > 0 {
							left := false
							for v := range sent {
								if !cs[v] {
									left = true
								}
							}
							if !left {
								none = true
							}
						}
					}
					if none {
						continue
					}
				}
				paths++
				var v ssa.Value
				for j, p := range l.head.Preds {
					if p == b {
						v = ctr.Edges[j]
					}
				}
				d, ok := eval(v, env)
				if cl.down {
					d = -d
				}
				if !ok {
					cl.bad = "how far the count of reports moves per report cannot be determined"
					return
				}
				switch {
				case len(g2) == 0 && d != 0:
					cl.bad = "the count of reports moves without a report having been read"
				case len(g2) == 1 && d != 0 && d != 1:
					cl.bad = "one report moves the count by more than one"
				case len(g2) > 1:
					cl.bad = "more than one report is read per round"
				case len(g2) == 1:
					note(g2[0], d)
				}
				continue
			}
			if !l.body[s] {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); ok {
					continue
				}
				paths++
				if b != l.head {
					cl.early = true
					for _, k := range g2 {
						note(k, -1)
					}
				}
				continue
			}
			if on[s] {
				continue
			}
			e2 := map[*ssa.Phi]ssa.Value{}
			for k, v := range env {
				e2[k] = v
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for j, p := range s.Preds {
					if p == b {
						e2[ph] = ph.Edges[j]
					}
				}
			}
			o2 := map[*ssa.BasicBlock]bool{s: true}
			for k := range on {
				o2[k] = true
			}
			walk(s, e2, o2, g2, sel2)
		}
	}
	walk(l.head, map[*ssa.Phi]ssa.Value{}, map[*ssa.BasicBlock]bool{l.head: true}, nil, nil)
	if cl.bad == "" {
		any := false
		for _, m := range cl.chans {
			if m == 1 {
				any = true
			}
		}
		if !any {
			cl.bad = "no report read in the loop is ever counted: the loop never ends"
		}
	}
	return cl
}

// total: the number of reports waited for is the number of goroutines started.
func (g *goAn) total(fn *ssa.Function, l *loop, cl *countLoop, goes map[*ssa.Go]bool) string {
	if len(goes) == 0 {
		return "no goroutine started here sends the reports that are waited for"
	}
	if terms, ok := lenTerms(cl.total); ok {
		ls := loopsOf(fn)
		return g.perElement(terms, goes, ls)
	}
	want := 0
	web := map[ssa.Value]bool{}
	if c, ok := cl.total.(*ssa.Const); ok {
		want = int(c.Int64())
	} else {
		st := []ssa.Value{cl.total}
		for len(st) > 0 {
			v := st[len(st)-1]
			st = st[:len(st)-1]
			if web[v] {
				continue
			}
			switch x := v.(type) {
			case *ssa.Phi:
				web[v] = true
				st = append(st, x.Edges...)
			case *ssa.BinOp:
				web[v] = true
				st = append(st, x.X)
			case *ssa.Const:
				if x.Int64() != 0 {
					return "the number of reports waited for does not start at zero"
				}
			default:
				return "how many reports are waited for cannot be related to the goroutines started"
			}
		}
	}
	msg := ""
	okx := explore(fn, func(in ssa.Instruction, s *pst) []*pst {
		if in.Block() == l.head && instrIndex(in) == 0 && msg == "" {
			d := s.n["d"]
			if d > want {
				msg = "on some path more goroutines are started than reports are waited for: the rest stay blocked or are missed"
			} else if d < want {
				msg = "on some path fewer goroutines are started than reports are waited for: the wait never ends"
			}
		}
		switch x := in.(type) {
		case *ssa.Go:
			if goes[x] {
				s.n["d"] = min(s.n["d"]+1, 40)
			}
		case *ssa.BinOp:
			if web[x] && x.Op == token.ADD {
				if c, ok := x.Y.(*ssa.Const); ok {
					s.n["d"] = max(s.n["d"]-int(c.Int64()), -3)
				}
			}
		}
		if len(web) > 0 && s.n["d"] > 3 {
			s.n["d"] = 3
		}
		return []*pst{s}
	})
	if !okx && msg == "" {
		return "too many paths to relate the reports waited for to the goroutines started"
	}
	return msg
}

// perElement: one goroutine per element of each of the terms.
func (g *goAn) perElement(terms []lockKey, goes map[*ssa.Go]bool, ls []*loop) string {
	used := make([]bool, len(terms))
	for x := range goes {
		l := innermost(ls, x.Block())
		if l == nil {
			return "a goroutine is started outside the loop over what is counted"
		}
		sp, ok := l.span()
		hit := false
		for i, t := range terms {
			if ok && !used[i] && t == sp {
				used[i] = true
				hit = true
				break
			}
		}
		if !hit {
			return "a goroutine is started in a loop over something else than what is counted"
		}
		if !l.everyRound(x.Block()) {
			return "not every round of the loop starts the goroutine that is counted: the wait never ends"
		}
	}
	for _, u := range used {
		if !u {
			return "some of what is counted has no goroutine started for it: the wait never ends"
		}
	}
	return ""
}

func (g *goAn) waitGroup(r *Reporter, fn *ssa.Function, key lockKey) {
	w := g.w
	name := FnName(fn) + " " + key.String()
	goes := map[*ssa.Go]bool{}
	var first ssa.Instruction
	var lens [][]lockKey
	lenAdds := 0
	async := false
	type deep struct {
		call ssa.CallInstruction
		t    *ssa.Function
		key  lockKey
	}
	var deeper []deep
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if k, ky, ok := evOp(in); ok && ky == key && k == 'a' {
				if first == nil {
					first = in
				}
				arg := in.(ssa.CallInstruction).Common().Args[1]
				if _, isC := arg.(*ssa.Const); !isC {
					lenAdds++
					t, ok := lenTerms(arg)
					if !ok {
						r.Bad("waitgroup", name, w.InstrPos(in), "how many goroutines are waited for cannot be determined")
						return
					}
					lens = append(lens, t)
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			x, isGo := in.(*ssa.Go)
			for _, t := range g.targets(c) {
				for _, k := range g.into(key, t, c.Common()) {
					if isGo && g.evs[t][ev{'d', k}] {
						goes[x] = true
					}
					if isGo && g.evs[t][ev{'w', k}] {
						async = true
					}
					if !isGo {
						deeper = append(deeper, deep{c, t, k})
					}
				}
			}
		}
	}
	if lens != nil {
		// goroutines here, or in a function handed the wait group
		if len(goes) > 0 {
			if len(lens) > 1 {
				r.Bad("waitgroup", name, w.InstrPos(first), "how many goroutines are waited for cannot be determined")
				return
			}
			if msg := g.perElement(lens[0], goes, loopsOf(fn)); msg != "" {
				r.Bad("waitgroup", name, w.InstrPos(first), msg)
				return
			}
		} else {
			usedAdd := map[int]bool{}
			for _, d := range deeper {
				sub := map[*ssa.Go]bool{}
				for _, b := range d.t.Blocks {
					for _, in := range b.Instrs {
						x, ok := in.(*ssa.Go)
						if !ok {
							continue
						}
						for _, t := range g.targets(x) {
							for _, k := range g.into(d.key, t, x.Common()) {
								if g.evs[t][ev{'d', k}] {
									sub[x] = true
								}
							}
						}
					}
				}
				if len(sub) == 0 {
					continue
				}
				best := "-"
				for i, ts := range lens {
					if usedAdd[i] {
						continue
					}
					var terms []lockKey
					for _, t := range ts {
						terms = append(terms, g.into(t, d.t, d.call.Common())...)
					}
					msg := g.perElement(terms, sub, loopsOf(d.t))
					if msg == "" {
						usedAdd[i] = true
						best = ""
						break
					}
					if best == "-" {
						best = msg
					}
				}
				if best != "" {
					r.Bad("waitgroup", name, w.InstrPos(d.call), best)
					return
				}
			}
			if len(usedAdd) != lenAdds {
				r.Bad("waitgroup", name, w.InstrPos(first), "no goroutine is started for what is waited for: the wait never ends")
				return
			}
		}
		waited := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if k, ky, ok := evOp(in); ok && ky == key && k == 'w' {
					waited = true
				}
			}
		}
		if !waited && !async {
			r.Bad("waitgroup", name, w.InstrPos(first), "nothing waits for the goroutines started")
			return
		}
		r.OK("waitgroup", name)
		return
	}
	msg, at := "", first
	fail := func(in ssa.Instruction, m string) {
		if msg == "" {
			msg, at = m, in
		}
	}
	okx := explore(fn, func(in ssa.Instruction, s *pst) []*pst {
		if k, ky, ok := evOp(in); ok && ky == key {
			_, isD := in.(*ssa.Defer)
			switch k {
			case 'a':
				c := in.(ssa.CallInstruction).Common().Args[1].(*ssa.Const)
				s.n["d"] = min(s.n["d"]+int(c.Int64()), 40)
			case 'w':
				if isD {
					s.n["dw"] = 1
				} else {
					s.n["p"] = 0
					if s.n["d"] > 0 {
						fail(in, "waits for more goroutines than were started: the wait never ends")
					}
				}
			}
			return []*pst{s}
		}
		switch x := in.(type) {
		case *ssa.Go:
			if goes[x] {
				if s.n["d"] <= 0 {
					fail(in, "starts a goroutine that is not counted before it runs: the wait may end before it, or its Done panics")
				} else {
					s.n["d"]--
				}
				s.n["p"] = 1
			}
		case *ssa.Return:
			if s.n["d"] > 0 {
				fail(in, "counts more goroutines than it starts: the wait never ends")
			}
			if s.n["p"] > 0 && s.n["dw"] == 0 && !async {
				fail(in, "returns without having waited for the goroutines it started")
			}
		}
		return []*pst{s}
	})
	if !okx && msg == "" {
		msg = "too many paths to relate the waits to the goroutines started"
	}
	if msg != "" {
		r.Bad("waitgroup", name, w.InstrPos(at), msg)
		return
	}
	r.OK("waitgroup", name)
}

// sender is a goroutine and what it reports on.
type sender struct {
	at   *ssa.Go
	t    *ssa.Function
	keys map[lockKey][]lockKey // resolved channel -> names of it in the target
	wg   map[lockKey]bool
}

// partCompared: the condition compares field f of a report just read with a constant.
func partCompared(c ssa.Value) (f int, val string, ok bool) {
	b, isB := c.(*ssa.BinOp)
	if !isB || b.Op != token.EQL {
		return
	}
	k, isC := b.Y.(*ssa.Const)
	x := b.X
	if !isC {
		k, isC = b.X.(*ssa.Const)
		x = b.Y
	}
	if !isC || k.Value == nil {
		return
	}
	switch y := x.(type) {
	case *ssa.Field:
		if u, isU := y.X.(*ssa.UnOp); isU && u.Op == token.ARROW {
			return y.Field, k.Value.ExactString(), true
		}
	case *ssa.UnOp:
		if fa, isF := y.X.(*ssa.FieldAddr); isF {
			if u, isU := onlyStore(fa.X).(*ssa.UnOp); isU && u.Op == token.ARROW {
				return fa.Field, k.Value.ExactString(), true
			}
		}
	}
	return
}

// sentParts: the constants that field f of the reports sent on the channel can hold; nil when
// they cannot all be determined.
func (g *goAn) sentParts(ss []*sender, ck lockKey, f int) map[string]bool {
	out := map[string]bool{}
	for _, s := range ss {
		n := 0
		for _, b := range s.t.Blocks {
			for _, in := range b.Instrs {
				snd, ok := in.(*ssa.Send)
				if !ok {
					continue
				}
				n++
				v := fieldOfValue(snd.X, f)
				if p, ok := v.(*ssa.Parameter); ok {
					for i, q := range s.t.Params {
						if q == p && i < len(s.at.Call.Args) {
							v = s.at.Call.Args[i]
						}
					}
				}
				c, ok := v.(*ssa.Const)
				if !ok || c.Value == nil {
					return nil
				}
				out[c.Value.ExactString()] = true
			}
		}
		if n == 0 {
			return nil
		}
	}
	return out
}

// fieldOfValue: what field f of a struct literal was given.
func fieldOfValue(v ssa.Value, f int) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != f {
			continue
		}
		for _, q := range *fa.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

// sizedFor: the channel has been given room for one report per element of some collection.
func (g *goAn) sizedFor(mc *ssa.MakeChan) bool {
	c, ok := mc.Size.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "len"
	}
	f := c.Call.StaticCallee()
	return f != nil && f.Name() == "Len"
}
