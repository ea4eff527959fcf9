package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", "order", checkOrder) }

// an oeff is something whose outcome depends on when it happens: what key names gets one more element at its
// end, or is written over.
type oeff struct {
	key  lockKey
	kind string
	pos  string
}

type orderAn struct {
	w    *World
	la   *lockAn
	memo map[*ssa.Function][]oeff
	busy map[*ssa.Function]bool
}

// a region is code that runs once for every element, in no certain order.
type region struct {
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	elems  map[ssa.Value]bool
	lp     *loop
	what   string
	pos    string
	once   *ssa.Go // the one goroutine that runs it, beside others
	why    string  // how the elements come
}

// inLoop: may the instruction happen more than once in a call of its function.
func inLoop(in ssa.Instruction) bool {
	return innermost(loopsOf(in.Parent()), in.Block()) != nil
}

func (o *orderAn) regions() []*region {
	var out []*region
	for _, fn := range o.w.fns {
		var ls []*loop
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					rg, ok := x.Iter.(*ssa.Range)
					if !ok || x.IsString {
						continue
					}
					if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					if ls == nil {
						ls = loopsOf(fn)
					}
					l := innermost(ls, b)
					if l == nil {
						continue
					}
					body := map[*ssa.BasicBlock]bool{}
					entry := l.head.Succs[0]
					for _, bb := range fn.Blocks {
						if entry.Dominates(bb) || bb == l.head {
							body[bb] = true
						}
					}
					r := &region{fn: fn, blocks: body, elems: map[ssa.Value]bool{}, lp: l, what: keyName(addrKey(rg.X, 0)), pos: o.w.InstrPos(rg), why: "in the order of a map"}
					for _, ref := range *x.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index > 0 {
							r.elems[e] = true
						}
					}
					out = append(out, r)
				case ssa.CallInstruction:
					c := x.Common()
					full := calleeFull(c)
					var body ssa.Value
					if strings.HasSuffix(full, "sync.Map).Range") && len(c.Args) == 2 {
						body = c.Args[1]
					}
					if v, ok := c.Value.(*ssa.Call); ok && len(c.Args) == 1 {
						f := calleeFull(v.Common())
						if strings.HasPrefix(f, "maps.") {
							body = c.Args[0]
						}
					}
					if body == nil {
						continue
					}
					for _, g := range closureFns(body, 0) {
						r := &region{fn: g, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, what: keyName(addrKey(c.Args[0], 0)), pos: o.w.InstrPos(in), why: "in the order of a map"}
						for _, bb := range g.Blocks {
							r.blocks[bb] = true
						}
						for _, p := range g.Params {
							r.elems[p] = true
						}
						out = append(out, r)
					}
				}
			}
		}
	}
	return out
}

// received: code that handles what several goroutines send, as they get ready.
func (o *orderAn) received() []*region {
	var out []*region
	for _, fn := range o.w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ch ssa.Value
				elems := map[ssa.Value]bool{}
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op != token.ARROW {
						continue
					}
					ch = x.X
					elems[x] = true
				case *ssa.Select:
					for i, st := range x.States {
						if st.Dir == types.RecvOnly && o.manySend(fn, st.Chan) {
							ch = st.Chan
							n := 0
							for _, q := range x.States[:i] {
								if q.Dir == types.RecvOnly {
									n++
								}
							}
							for _, ref := range *x.Referrers() {
								if e, ok := ref.(*ssa.Extract); ok && e.Index == 2+n {
									elems[e] = true
								}
							}
						}
					}
				}
				if ch == nil || len(elems) == 0 || !o.manySend(fn, ch) {
					continue
				}
				l := innermost(loopsOf(fn), b)
				if l == nil {
					continue
				}
				r := &region{fn: fn, blocks: map[*ssa.BasicBlock]bool{}, elems: elems, lp: l, what: "receive " + keyName(addrKey(ch, 0)), pos: o.w.InstrPos(in), why: "as goroutines get ready"}
				for _, bb := range fn.Blocks {
					if b.Dominates(bb) && (l.body[bb] || !o.after(l, bb)) {
						r.blocks[bb] = true
					}
				}
				out = append(out, r)
			}
		}
	}
	return out
}

// after: does the block follow the loop when that has ended at its head.
func (o *orderAn) after(l *loop, b *ssa.BasicBlock) bool {
	for _, s := range l.head.Succs {
		if !l.body[s] && s.Dominates(b) {
			return true
		}
	}
	return false
}

// manySend: do several goroutines send to the channel.
func (o *orderAn) manySend(fn *ssa.Function, ch ssa.Value) bool {
	k := addrKey(ch, 0)
	n := 0
	for _, f := range familyFns(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok || !o.sendsTo(g, k) {
					continue
				}
				n++
				if inLoop(g) {
					n++
				}
			}
		}
	}
	return n > 1
}

func (o *orderAn) sendsTo(g *ssa.Go, k lockKey) bool {
	for _, a := range g.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Chan); ok && addrKey(a, 0) == k {
			return true
		}
	}
	for _, f := range closureFns(g.Common().Value, 0) {
		for _, q := range allIn(f) {
			for _, b := range q.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send:
						if addrKey(x.Chan, 0) == k {
							return true
						}
					case *ssa.Select:
						for _, st := range x.States {
							if st.Dir == types.SendOnly && addrKey(st.Chan, 0) == k {
								return true
							}
						}
					case ssa.CallInstruction:
						for _, a := range x.Common().Args {
							if _, ok := a.Type().Underlying().(*types.Chan); ok && addrKey(a, 0) == k {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func allIn(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	collectFamily(f, &out)
	return out
}

// side: the bodies of goroutines of which several run side by side.
func (o *orderAn) side() []*region {
	var out []*region
	for _, fn := range o.w.fns {
		var gos []*ssa.Go
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
					n++
					if inLoop(g) {
						n++
					}
				}
			}
		}
		if n < 2 {
			continue
		}
		for _, g := range gos {
			for _, f := range o.goBodies(g) {
				r := &region{fn: f, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, what: "goroutine", pos: o.w.InstrPos(g), why: "as goroutines get ready"}
				for _, bb := range f.Blocks {
					r.blocks[bb] = true
				}
				if !inLoop(g) {
					r.once = g
				}
				if l := innermost(loopsOf(fn), g.Block()); l != nil {
					r.elems = perGo(f, g, l)
				}
				out = append(out, r)
			}
		}
	}
	return out
}

func (o *orderAn) goBodies(g *ssa.Go) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range closureFns(g.Common().Value, 0) {
		if inRepo(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	if f := g.Common().StaticCallee(); f != nil && len(out) == 0 && inRepo(f) && len(f.Blocks) > 0 {
		out = append(out, f)
	}
	return out
}

// perGo: what a goroutine that is started in a loop gets from the round it is started in.
func perGo(f *ssa.Function, g *ssa.Go, l *loop) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	round := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	for i, p := range f.Params {
		if i < len(g.Common().Args) && round(g.Common().Args[i]) {
			out[p] = true
		}
	}
	if mc := makeOf(f); mc != nil {
		for i, fv := range f.FreeVars {
			if round(mc.Bindings[i]) {
				out[fv] = true
			}
		}
	}
	return out
}

func keyName(k lockKey) string {
	k.path = strings.TrimSuffix(k.path, ".OrderedMap")
	if k.root != nil {
		if n := namedOf(k.root.Type()); n != nil && k.path != "" {
			return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + k.path
		}
	}
	return k.String()
}

// ofElem: is the value worked out from the elements of the region.
func (r *region) ofElem(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if r.elems[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		if !r.blocks[x.Block()] {
			return false
		}
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == x && r.ofElem(st.Val, seen) {
				return true
			}
			if fa, ok := ref.(*ssa.FieldAddr); ok {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == fa && r.ofElem(st.Val, seen) {
						return true
					}
				}
			}
			if ia, ok := ref.(*ssa.IndexAddr); ok {
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ia && r.ofElem(st.Val, seen) {
						return true
					}
				}
			}
		}
		return false
	case ssa.Instruction:
		if !r.blocks[x.Block()] {
			return false
		}
		if ph, ok := v.(*ssa.Phi); ok && r.lp != nil && ph.Block() == r.lp.head {
			return false
		}
		for _, op := range x.Operands(nil) {
			if *op != nil && r.ofElem(*op, seen) {
				return true
			}
		}
	}
	return false
}

// inner: is the memory made anew for every element, or part of the element.
func (r *region) inner(v ssa.Value) bool {
	for i := 0; i < 12; i++ {
		if r.elems[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Lookup:
			return r.blocks[x.Block()] && (r.ofElem(x.Index, map[ssa.Value]bool{}) || r.inner(x.X))
		case *ssa.Extract:
			v = x.Tuple
			continue
		case *ssa.FreeVar:
			if b := binding(x); b != nil {
				v = b
				continue
			}
			return false
		case ssa.Instruction:
			if ph, ok := v.(*ssa.Phi); ok && r.lp != nil && ph.Block() == r.lp.head {
				return false
			}
			return r.blocks[x.Block()]
		}
		return false
	}
	return false
}

func isAppend(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return c
	}
	return nil
}

// direct: the effects of one instruction itself.
func (o *orderAn) direct(in ssa.Instruction) (addr ssa.Value, kind string) {
	switch x := in.(type) {
	case *ssa.Store:
		if isAppend(x.Val) != nil {
			return x.Addr, "append"
		}
		if b, ok := x.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
			if t, ok := b.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
				return x.Addr, "append"
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		full := calleeFull(c)
		f := c.StaticCallee()
		if f == nil {
			if c.IsInvoke() && strings.HasPrefix(c.Method.Name(), "Write") && strings.Contains(c.Value.Type().String(), "hash.") {
				return c.Value, "append"
			}
			return nil, ""
		}
		if omWrite(c) {
			return c.Args[0], "append"
		}
		if len(c.Args) > 0 && !inRepo(f) && strings.HasPrefix(f.Name(), "Write") && (strings.Contains(full, "strings.Builder") || strings.Contains(full, "bytes.Buffer") || strings.Contains(full, "maphash")) {
			return c.Args[0], "append"
		}
		if strings.HasPrefix(full, "fmt.Fprint") {
			return c.Args[0], "append"
		}
	}
	return nil, ""
}

// effects: what a function does whose order shows, in terms of what it is given.
func (o *orderAn) effects(fn *ssa.Function, depth int) []oeff {
	if e, ok := o.memo[fn]; ok {
		return e
	}
	if o.busy[fn] || depth > 7 {
		return nil
	}
	o.busy[fn] = true
	defer delete(o.busy, fn)
	seen := map[string]bool{}
	var out []oeff
	add := func(e oeff) {
		if e.key.root == nil {
			return
		}
		switch x := e.key.root.(type) {
		case *ssa.Parameter:
			if x.Parent() == fn && depthOf(e.key.path) > 4 {
				return
			}
		case *ssa.Global:
		default:
			if e.key.root.Parent() == fn {
				return
			}
		}
		k := e.key.String() + e.kind
		if !seen[k] {
			seen[k] = true
			out = append(out, e)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, kind := o.direct(in); kind != "" {
				add(oeff{addrKey(a, 0), kind, o.w.InstrPos(in)})
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, e := range o.callEffects(ci, depth) {
					add(e)
				}
			}
		}
	}
	o.memo[fn] = out
	return out
}

func (o *orderAn) callEffects(ci ssa.CallInstruction, depth int) []oeff {
	var out []oeff
	gs := o.la.callees(ci.Common())
	for _, g := range gs {
		if len(g.Blocks) == 0 || !inRepo(g) || strings.HasPrefix(shortPkg(fnPkg(g)), "orderedmap") {
			continue
		}
		for _, e := range o.effects(g, depth+1) {
			k := o.la.mapKey(e.key, g, ci.Common())
			if k.root != nil {
				out = append(out, oeff{k, e.kind, e.pos})
			}
		}
	}
	// closures handed to functions run there
	for _, arg := range ci.Common().Args {
		for _, g := range closureFns(arg, 0) {
			if g.Parent() == nil || !inRepo(g) {
				continue
			}
			for _, e := range o.effects(g, depth+1) {
				if p, ok := e.key.root.(*ssa.Parameter); ok && p.Parent() == g {
					continue
				}
				out = append(out, e)
			}
		}
	}
	return out
}

func checkOrder(w *World, r *Reporter) {
	o := &orderAn{w: w, la: &lockAn{w: w, sum: map[*ssa.Function]*lockFn{}}, memo: map[*ssa.Function][]oeff{}, busy: map[*ssa.Function]bool{}}
	var keys []string
	bads := map[string][2]string{}
	oks := map[string]bool{}
	rgs := append(append(o.regions(), o.received()...), o.side()...)
	rgs = append(rgs, o.handed(rgs)...)
	for _, rg := range rgs {
		r.Fn(FnName(rg.fn))
		base := FnName(rootOf(rg.fn)) + " " + rg.what
		n := 0
		changes := strings.HasPrefix(shortPkg(fnPkg(rg.fn)), "what-changed")
		var at lockKey
		bad := func(what string, in ssa.Instruction, msg string) {
			if changes && (strings.HasPrefix(msg, "elements are added") || strings.HasPrefix(msg, "a list grows")) {
				return // the changes of a report have no order
			}
			k := base + " -> " + what
			if anyOrder[k] != "" {
				return
			}
			if rg.once != nil && !o.shared(rg, at) {
				return
			}
			n++
			if _, ok := bads[k]; !ok {
				bads[k] = [2]string{w.InstrPos(in), msg}
				keys = append(keys, k)
			}
		}
		for _, b := range rg.fn.Blocks {
			if !rg.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				if a, kind := o.direct(in); kind != "" && !isErrType(derefType(a.Type())) && !rg.inner(a) && !o.sorted(rg, addrKey(a, 0)) {
					at = addrKey(a, 0)
					bad(keyName(at), in, "elements are added "+rg.why)
				}
				if st, ok := in.(*ssa.Store); ok && !rg.inner(st.Addr) && isAppend(st.Val) == nil && !isErrType(st.Val.Type()) && !commutes(st) && rg.ofElem(st.Val, map[ssa.Value]bool{}) {
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
						if rg.ofElem(ia.Index, map[ssa.Value]bool{}) || o.sortedVal(ia.X) || o.sorted(rg, listKey(ia.X)) {
							continue
						}
						bad(keyName(addrKey(ia.X, 0))+"[]", in, "elements are put "+rg.why)
					} else {
						if rg.keyedStore(in) {
							continue
						}
						bad(keyName(addrKey(st.Addr, 0)), in, "the last element decides, and they come "+rg.why)
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok && !rg.inner(mu.Map) && !rg.ownKey(mu.Key) && rg.ofElem(mu.Value, map[ssa.Value]bool{}) {
					bad(keyName(addrKey(mu.Map, 0)), in, "elements with the same key overwrite each other "+rg.why)
				}
				if ap, ok := in.(*ssa.Call); ok && isAppend(ap) != nil && rg.lp != nil {
					if ph := rg.carried(ap, map[ssa.Value]bool{}); ph != nil && !isErrType(ap.Type()) && !o.sortedVal(ph) {
						bad("list", in, "a list grows "+rg.why)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, e := range o.callEffects(ci, 0) {
						if e.key.root != nil && rg.innerKey(e.key) || o.sorted(rg, e.key) {
							continue
						}
						at = e.key
						bad(keyName(e.key), in, "elements are added "+rg.why+", at "+e.pos)
					}
				}
				if ret, ok := in.(*ssa.Return); ok && rg.lp != nil {
					for _, v := range ret.Results {
						if !isErrType(v.Type()) && rg.ofElem(v, map[ssa.Value]bool{}) {
							bad("return", in, "which element is returned depends on which is first, and they come "+rg.why)
						}
					}
				}
			}
		}
		for _, b := range rg.fn.Blocks {
			if rg.blocks[b] || rg.lp == nil {
				continue
			}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range ph.Edges {
					if p := b.Preds[i]; p != rg.lp.head && rg.blocks[p] && !isErrType(e.Type()) && rg.ofElem(e, map[ssa.Value]bool{}) {
						bad("break", in, "which element is taken depends on which is first, and they come "+rg.why)
					}
				}
			}
		}
		if n == 0 {
			oks[base] = true
		}
	}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !listed(c) {
					continue
				}
				k := FnName(rootOf(fn)) + " list of a map"
				if o.sortedVal(c) {
					oks[k] = true
				} else if _, ok := bads[k]; !ok {
					bads[k] = [2]string{w.InstrPos(in), "a list has the order of a map"}
					keys = append(keys, k)
				}
			}
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Bad("order", k, bads[k][0], bads[k][1])
	}
	for _, k := range sortedKeys(oks) {
		r.OK("order", k)
	}
	r.Min("order", 150)
}

func (r *region) innerKey(k lockKey) bool {
	if r.inner(k.root) {
		return true
	}
	return false
}

// carried: the list that lives from one round of the loop to the next, to which v is added.
func (r *region) carried(v ssa.Value, seen map[ssa.Value]bool) *ssa.Phi {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == r.lp.head {
			return x
		}
		for _, e := range x.Edges {
			if p := r.carried(e, seen); p != nil {
				return p
			}
		}
	case *ssa.Call:
		if isAppend(x) != nil {
			return r.carried(x.Call.Args[0], seen)
		}
	case *ssa.Slice:
		return r.carried(x.X, seen)
	}
	return nil
}

func isSort(c *ssa.CallCommon) bool {
	full := calleeFull(c)
	if strings.HasPrefix(full, "sort.Search") || strings.Contains(full, "Sorted") && strings.HasPrefix(full, "sort.") || strings.Contains(full, "IsSorted") {
		return false
	}
	return strings.HasPrefix(full, "sort.S") || full == "sort.Ints" || strings.HasPrefix(full, "slices.Sort")
}

// sorted: the function sorts afterwards what the elements were added to.
func (o *orderAn) sorted(rg *region, k lockKey) bool {
	k.path = strings.TrimSuffix(k.path, ".OrderedMap")
	for _, f := range familyFns(rg.fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && (isSort(ci.Common()) || strings.HasSuffix(calleeFull(ci.Common()), "orderedmap.SortAlpha")) && len(ci.Common().Args) > 0 {
					if listKey(ci.Common().Args[0]) == k && o.decides(ci.Common()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (o *orderAn) sortedVal(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	q := []ssa.Value{v}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if seen[x] || x.Referrers() == nil {
			continue
		}
		seen[x] = true
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case ssa.CallInstruction:
				if isSort(y.Common()) && o.decides(y.Common()) || o.sorter(y.Common(), x) {
					return true
				}
				if c, ok := y.(*ssa.Call); ok && isAppend(c) != nil && c.Call.Args[0] == x {
					q = append(q, c)
				}
			case *ssa.Phi:
				q = append(q, y)
			case *ssa.MakeInterface:
				q = append(q, y)
			case *ssa.Slice:
				q = append(q, y)
			case *ssa.ChangeType:
				q = append(q, y)
			}
		}
	}
	return false
}

// commutes: a number is added to, which gives the same sum in any order.
func commutes(st *ssa.Store) bool {
	b, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	t, ok := b.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Op {
	case token.ADD, token.OR, token.AND, token.XOR:
		for _, v := range []ssa.Value{b.X, b.Y} {
			if u, ok := v.(*ssa.UnOp); ok && addrKey(u.X, 0) == addrKey(st.Addr, 0) {
				return true
			}
		}
	}
	return false
}

// listKey names the variable or field that holds a list that is handed on.
func listKey(v ssa.Value) lockKey {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			return addrKey(x.X, 0)
		default:
			return addrKey(v, 0)
		}
	}
	return addrKey(v, 0)
}

// keyedStore: the place is chosen by the element: the store is made when a part of it equals a constant.
func (r *region) keyedStore(in ssa.Instruction) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		if !r.blocks[b] {
			return false
		}
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			return false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] != b {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL {
			continue
		}
		_, kx := c.X.(*ssa.Const)
		_, ky := c.Y.(*ssa.Const)
		if ky && r.ofElem(c.X, map[ssa.Value]bool{}) || kx && r.ofElem(c.Y, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// sorter: does the function sort the list it is given.
func (o *orderAn) sorter(c *ssa.CallCommon, v ssa.Value) bool {
	f := c.StaticCallee()
	if f == nil || !inRepo(f) {
		return false
	}
	for i, a := range c.Args {
		if a != v || i >= len(f.Params) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isSort(ci.Common()) && len(ci.Common().Args) > 0 && o.decides(ci.Common()) {
					if addrKey(ci.Common().Args[0], 0).root == ssa.Value(f.Params[i]) || listKey(ci.Common().Args[0]).root == ssa.Value(f.Params[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ownKey: is the key one that no other element has. The keys of a map are; of what a goroutine sends, it is
// the part that says what it was started for.
func (r *region) ownKey(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		if r.elems[v] {
			if e, ok := v.(*ssa.Extract); ok {
				if nx, ok := e.Tuple.(*ssa.Next); ok && !nx.IsString {
					return e.Index == 1
				}
			}
			if p, ok := v.(*ssa.Parameter); ok && r.lp == nil && r.what != "goroutine" {
				return p == p.Parent().Params[0]
			}
			return true
		}
		part := r.lp != nil && strings.HasPrefix(r.what, "receive ") || r.what == "goroutine"
		switch x := v.(type) {
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Alloc:
			if s := onlyStore(x); s != nil {
				v = s
				continue
			}
			return false
		case *ssa.Extract:
			if _, ok := x.Tuple.(*ssa.Call); ok {
				return false
			}
			v = x.Tuple
		case *ssa.FieldAddr:
			if !part {
				return false
			}
			v = x.X
		case *ssa.Field:
			if !part {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
	return false
}

// anyOrder: where the order makes no difference.
var anyOrder = map[string]string{
	"arazzo.Engine.resolveExpressionValues value -> t46":                                                  "the keys of a map that are not strings; two of them that print the same are not told apart",
	"index.Resolver.isInfiniteCircularDependency index.Reference.RequiredRefProperties -> return":         "whether a way back exists does not depend on the way that is tried first; what has been visited is not used any more when one is found",
	"what-changed/reports.CreateOverallReport what-changed/model.DocumentChanges.WebhookChanges -> t58[]": "the counts of the elements are added up",
}

// handed: functions given to functions that call them for every element.
func (o *orderAn) handed(rgs []*region) []*region {
	type par struct {
		fn *ssa.Function
		i  int
	}
	un := map[par]*region{}
	for _, r := range rgs {
		for _, b := range r.fn.Blocks {
			if !r.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() {
					continue
				}
				k := addrKey(ci.Common().Value, 0)
				p, ok := k.root.(*ssa.Parameter)
				if !ok || k.path != "" {
					continue
				}
				el := r.what == "goroutine"
				for _, a := range ci.Common().Args {
					if r.ofElem(a, map[ssa.Value]bool{}) {
						el = true
					}
				}
				if !el {
					continue
				}
				for i, q := range p.Parent().Params {
					if q == p && un[par{p.Parent(), i}] == nil {
						un[par{p.Parent(), i}] = r
					}
				}
			}
		}
	}
	var out []*region
	for _, fn := range o.w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil {
					continue
				}
				for i, a := range ci.Common().Args {
					r := un[par{f, i}]
					if r == nil {
						continue
					}
					for _, g := range closureFns(a, 0) {
						q := &region{fn: g, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, what: f.Name(), pos: o.w.InstrPos(in), why: r.why}
						for _, bb := range g.Blocks {
							q.blocks[bb] = true
						}
						for _, p := range g.Params {
							q.elems[p] = true
						}
						out = append(out, q)
					}
				}
			}
		}
	}
	return out
}

// omWrite: does the call change an ordered map.
func omWrite(c *ssa.CallCommon) bool {
	if _, ok := omModel(c); !ok || c.IsInvoke() || len(c.Args) == 0 {
		return false
	}
	f := c.StaticCallee()
	if o := f.Origin(); o != nil {
		f = o
	}
	switch f.Name() {
	case "Set", "Store", "Delete", "MoveToBack", "MoveToFront", "MoveAfter", "MoveBefore", "AddPairs":
		return true
	}
	return false
}

// shared: does another goroutine that the function starts do that to the same thing.
func (o *orderAn) shared(r *region, k lockKey) bool {
	if p, ok := k.root.(*ssa.Parameter); ok && p.Parent() == r.fn {
		k = o.la.mapKey(k, r.fn, r.once.Common())
	}
	for _, b := range r.once.Parent().Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok || g == r.once {
				continue
			}
			for _, f := range o.goBodies(g) {
				for _, e := range o.effects(f, 0) {
					if q, ok := e.key.root.(*ssa.Parameter); ok && q.Parent() == f {
						e.key = o.la.mapKey(e.key, f, g.Common())
					}
					if e.key == k {
						return true
					}
				}
			}
		}
	}
	return false
}

// listed: does the call list the keys or values of a map as they come.
func listed(c *ssa.Call) bool {
	full := calleeFull(c.Common())
	if strings.HasSuffix(full, "reflect.Value).MapKeys") || strings.HasPrefix(full, "golang.org/x/exp/maps.") {
		return true
	}
	if full != "slices.Collect" && full != "slices.AppendSeq" {
		return false
	}
	for _, a := range c.Common().Args {
		for i := 0; i < 4; i++ {
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
			}
		}
		if m, ok := a.(*ssa.Call); ok && strings.HasPrefix(calleeFull(m.Common()), "maps.") {
			return true
		}
	}
	return false
}

// tells: the fields by which one element differs from every other in the lists that are sorted by them.
var tells = map[string]bool{
	"index.Reference.Definition":                   true,
	"index.Reference.FullDefinition":               true,
	"index.SpecIndex.specAbsolutePath":             true,
	"index.SpecIndex.GetSpecAbsolutePath":          true,
	"index.indexedRef.pos":                         true,
	"bundler.inlineReferenceTarget.fullDefinition": true,
}

// decides: the comparison of a sort puts any two different elements in one order. It compares the elements
// themselves, or a part of them that no two share. What it only partly orders comes out as it went in.
func (o *orderAn) decides(c *ssa.CallCommon) bool {
	if len(c.Args) < 2 {
		return true
	}
	var f *ssa.Function
	switch x := c.Args[1].(type) {
	case *ssa.MakeClosure:
		f, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	}
	if f == nil || len(f.Blocks) == 0 {
		return true
	}
	leaves := comparedParts(f)
	for _, l := range leaves {
		if l == "" || tells[l] {
			return true
		}
	}
	if os.Getenv("LOCHK_DECIDES") != "" {
		fmt.Println("decides", FnName(f), strings.Join(leaves, ","))
	}
	return len(leaves) == 0
}

// comparedParts: the parts of the elements that the comparison puts in order, as type.field; an empty name is
// the element itself.
func comparedParts(f *ssa.Function) []string {
	var out []string
	add := func(v ssa.Value) {
		name := ""
		for i := 0; i < 10; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.FieldAddr:
				if name == "" {
					name = strings.TrimPrefix(typeName(x.X.Type()), "*") + "." + fieldName(x.X.Type(), x.Field)
				}
			case *ssa.Field:
				if name == "" {
					name = strings.TrimPrefix(typeName(x.X.Type()), "*") + "." + fieldName(x.X.Type(), x.Field)
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && name == "" {
					name = FnName(g)
				}
			}
			break
		}
		out = append(out, name)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if _, ok := x.Y.(*ssa.Const); !ok {
						add(x.X)
					}
				case token.SUB:
					add(x.X)
				}
			case *ssa.Call:
				switch calleeFull(&x.Call) {
				case "cmp.Compare", "strings.Compare", "cmp.Less":
					add(x.Call.Args[0])
				}
			}
		}
	}
	return out
}
