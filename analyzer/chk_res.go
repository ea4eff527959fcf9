package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C16", "resources", checkResources) }

// checkResources: what is opened is closed, what is borrowed from a pool comes back clean and is then left
// alone, and what is released or cleared is let go of.
func checkResources(w *World, r *Reporter) {
	r.Min("closed", 7)
	r.Min("pooled-clean", 5)
	r.Min("pooled-once", 6)
	r.Min("drained", 8)
	r.Min("released", 80)
	r.Min("unmarked", 5)
	checkClosed(w, r)
	checkPools(w, r)
	checkDrained(w, r)
	checkReleased(w, r)
	checkMarks(w, r)
	checkCleared(w, r)
}

// sameValue: everything in the function and its literals that is one of the seeds, through variables, phis and conversions.
func sameValue(seeds ...ssa.Value) map[ssa.Value]bool {
	out, cells := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !out[v] && !cells[v] {
			out[v] = true
			work = append(work, v)
		}
	}
	var cell func(v ssa.Value)
	cell = func(v ssa.Value) {
		if cells[v] || v.Referrers() == nil {
			return
		}
		cells[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && x.X == v {
					add(x)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						cell(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			if b := binding(fv); b != nil {
				cell(b)
			}
		}
	}
	for _, s := range seeds {
		add(s)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				add(x)
			case *ssa.ChangeInterface:
				add(x)
			case *ssa.MakeInterface:
				add(x)
			case *ssa.ChangeType:
				add(x)
			case *ssa.TypeAssert:
				if !x.CommaOk {
					add(x)
				} else {
					for _, e := range *x.Referrers() {
						if ex, ok := e.(*ssa.Extract); ok && ex.Index == 0 {
							add(ex)
						}
					}
				}
			case *ssa.Store:
				if x.Val == v {
					switch a := x.Addr.(type) {
					case *ssa.Alloc, *ssa.FreeVar:
						cell(a)
					}
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						add(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	return out
}

func isCloser(t types.Type) string {
	if IsType(t, "context", "CancelFunc") || IsType(t, "context", "CancelCauseFunc") {
		return "cancel"
	}
	if p, ok := t.(*types.Pointer); ok && IsType(p.Elem(), "net/http", "Response") {
		return "close"
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || strings.HasSuffix(n.Obj().Name(), "Encoder") {
		return "" // an encoder holds nothing but memory
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if f.Name() == "Close" {
			sg := f.Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 && n.Obj().Pkg().Path() != "reflect" {
				return "close"
			}
		}
	}
	return ""
}

type resource struct {
	w    *World
	same map[ssa.Value]bool
	errs map[ssa.Value]bool
}

func newResource(w *World, v ssa.Value, errs ...ssa.Value) *resource {
	a := &resource{w: w, same: sameValue(v), errs: sameValue(errs...)}
	// the body of a response
	for x := range a.same {
		if x.Referrers() == nil {
			continue
		}
		for _, u := range *x.Referrers() {
			if fa, ok := u.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Body" {
				for _, l := range *fa.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
						for y := range sameValue(ld) {
							a.same[y] = true
						}
					}
				}
			}
		}
	}
	return a
}

func localCell(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	}
	return false
}

// ends: this instruction closes the resource, or makes it someone else's to close.
func (a *resource) ends(in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case ssa.CallInstruction:
		c := x.Common()
		if a.same[c.Value] {
			if !c.IsInvoke() {
				return true // a cancel function
			}
			return c.Method.Name() == "Close" || c.Method.Name() == "Stop"
		}
		f := StaticCallee(c)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			f = mc.Fn.(*ssa.Function)
		}
		for i, arg := range c.Args {
			if mc, ok := arg.(*ssa.MakeClosure); ok && a.captured(mc) {
				return true
			}
			if !a.same[arg] {
				continue
			}
			if f == nil {
				return true
			}
			if i == 0 && f.Signature.Recv() != nil && (f.Name() == "Close" || f.Name() == "Stop") {
				return true
			}
			if !inRepo(f) {
				if _, isFn := arg.Type().Underlying().(*types.Signature); isFn {
					return true
				}
				continue
			}
			if len(f.Blocks) > 0 && depth < 4 && i < len(f.Params) {
				b := newResource(a.w, f.Params[i])
				if b.leaks(f.Blocks[0], 0, depth+1) == nil {
					return true
				}
			}
		}
		if f != nil && f.Parent() != nil && len(f.Blocks) > 0 && depth < 4 {
			used := false
			for _, fv := range f.FreeVars {
				used = used || a.same[fv] || a.holds(fv)
			}
			if used && a.leaks(f.Blocks[0], 0, depth+1) == nil {
				return true
			}
		}
	case *ssa.Return:
		for _, v := range x.Results {
			if a.same[v] {
				return true
			}
		}
	case *ssa.Store:
		return a.same[x.Val] && !localCell(x.Addr)
	case *ssa.MapUpdate:
		return a.same[x.Value]
	case *ssa.Send:
		return a.same[x.X]
	}
	return false
}

func (a *resource) holds(fv *ssa.FreeVar) bool {
	if fv.Referrers() == nil {
		return false
	}
	for _, u := range *fv.Referrers() {
		if l, ok := u.(*ssa.UnOp); ok && a.same[l] {
			return true
		}
	}
	return false
}

func (a *resource) captured(mc *ssa.MakeClosure) bool {
	for _, fv := range mc.Fn.(*ssa.Function).FreeVars {
		if a.same[fv] || a.holds(fv) {
			return true
		}
	}
	return false
}

// there: which successor of the branch is not taken while the resource is open (-1: both may be).
func (a *resource) closedSide(cond ssa.Value) int {
	neg := 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, 1-neg
	}
	switch c := cond.(type) {
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return -1
		}
		x, y := c.X, c.Y
		if k, ok := x.(*ssa.Const); ok && k.IsNil() {
			x, y = y, x
		}
		if k, ok := y.(*ssa.Const); !ok || !k.IsNil() {
			return -1
		}
		side := -1
		if a.errs[x] { // no resource where err != nil
			side = 0
			if c.Op == token.EQL {
				side = 1
			}
		} else if a.same[x] { // none where x == nil
			side = 1
			if c.Op == token.EQL {
				side = 0
			}
		}
		if side >= 0 {
			return side ^ neg
		}
	case *ssa.Extract:
		if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 && a.same[ta.X] {
			// one of the library's own files, which hold nothing open
			if n := namedOf(ta.AssertedType); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return 0 ^ neg
			}
		}
	}
	return -1
}

// leaks: a return that is reached from there with the resource still open.
func (a *resource) leaks(b *ssa.BasicBlock, i int, depth int) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if a.ends(in, depth) {
				return nil
			}
			if _, ok := in.(*ssa.Return); ok {
				return in
			}
		}
		skip := -1
		if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			skip = a.closedSide(f.Cond)
		}
		for j, s := range b.Succs {
			if j == skip || seen[s] {
				continue
			}
			seen[s] = true
			if l := walk(s, 0); l != nil {
				return l
			}
		}
		return nil
	}
	return walk(b, i)
}

func checkClosed(w *World, r *Reporter) {
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := calleeFull(c.Common())
				if name == "" {
					name = c.Call.Value.Type().String()
				}
				if strings.HasSuffix(name, ".NopCloser") {
					continue
				}
				var errs []ssa.Value
				var res []ssa.Value
				if tp, ok := c.Type().(*types.Tuple); ok {
					kept := map[int]bool{}
					for _, u := range *c.Referrers() {
						if e, ok := u.(*ssa.Extract); ok {
							if types.Identical(e.Type(), errorType) {
								errs = append(errs, e)
							} else if isCloser(e.Type()) != "" {
								res = append(res, e)
								kept[e.Index] = true
							}
						}
					}
					for i := 0; i < tp.Len(); i++ {
						if k := isCloser(tp.At(i).Type()); k != "" && !kept[i] {
							r.Fn(FnName(fn))
							r.Bad("closed", FnName(fn)+":"+shortCall(name), w.InstrPos(in), "what "+shortCall(name)+" opens is dropped without being closed")
						}
					}
				} else if isCloser(c.Type()) != "" {
					res = append(res, c)
				}
				for _, v := range res {
					r.Fn(FnName(fn))
					key := FnName(fn) + ":" + shortCall(name)
					a := newResource(w, v, errs...)
					at, _ := v.(ssa.Instruction)
					if l := a.leaks(at.Block(), instrIndex(at)+1, 0); l != nil {
						r.Bad("closed", key, w.InstrPos(in), "what "+shortCall(name)+" opens is still open at the return at "+w.InstrPos(l))
					} else {
						r.OK("closed", key)
					}
				}
			}
		}
	}
}

func shortCall(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), " ", "")
}

// ---- pools

type poolUse struct {
	fn  *ssa.Function
	at  ssa.Instruction
	val ssa.Value
}

func poolVar(v ssa.Value) *ssa.Global {
	g, _ := v.(*ssa.Global)
	if g == nil {
		g = globalOf(v)
	}
	return g
}

// pooled: the values of a function that are the borrowed object, and what is read or cut out of it.
func pooledSet(seed ssa.Value) (whole, parts map[ssa.Value]bool) {
	whole = sameValue(seed)
	parts = map[ssa.Value]bool{}
	var seeds []ssa.Value
	for v := range whole {
		if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr || v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
				switch l.Type().Underlying().(type) {
				case *types.Slice, *types.Map:
					seeds = append(seeds, l)
				}
			}
		}
	}
	for len(seeds) > 0 {
		n := sameValue(seeds...)
		seeds = nil
		for v := range n {
			if parts[v] || whole[v] {
				continue
			}
			parts[v] = true
			if v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.Slice:
					if x.X == v {
						seeds = append(seeds, x)
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
						seeds = append(seeds, x)
					}
				}
			}
		}
	}
	return
}

// cleans: this instruction empties the object.
func cleans(in ssa.Instruction, set, parts map[ssa.Value]bool) bool {
	switch x := in.(type) {
	case *ssa.Slice:
		if set[x.X] || parts[x.X] {
			if k, ok := x.High.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				return true
			}
		}
	case ssa.CallInstruction:
		if _, ok := in.(*ssa.Call); !ok {
			return false
		}
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return b.Name() == "clear" && (set[c.Args[0]] || parts[c.Args[0]])
		}
		if c.IsInvoke() {
			return set[c.Value] && c.Method.Name() == "Reset"
		}
		f := StaticCallee(c)
		if f == nil {
			return false
		}
		for i, a := range c.Args {
			if !set[a] {
				continue
			}
			if f.Name() == "Reset" && i == 0 && f.Signature.Recv() != nil {
				return true
			}
			if inRepo(f) && len(f.Blocks) > 0 && i < len(f.Params) {
				ws, ps := pooledSet(f.Params[i])
				for _, y := range f.Blocks[0].Instrs {
					if _, isCall := y.(*ssa.Call); cleans(y, ws, ps) && (isCall || true) {
						return true
					}
				}
			}
		}
	}
	return false
}

func checkPools(w *World, r *Reporter) {
	gets, puts := map[*ssa.Global][]poolUse{}, map[*ssa.Global][]poolUse{}
	getter, putter := map[*ssa.Function]*ssa.Global{}, map[*ssa.Function]map[int]*ssa.Global{}
	// functions that give out or take back what a pool holds
	for round := 0; round < 3; round++ {
		clear(gets)
		clear(puts)
		for _, fn := range w.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common()
					switch calleeFull(c) {
					case "(*sync.Pool).Get":
						if g := poolVar(c.Args[0]); g != nil {
							if v, ok := in.(ssa.Value); ok {
								gets[g] = append(gets[g], poolUse{fn, in, v})
							}
						}
						continue
					case "(*sync.Pool).Put":
						if g := poolVar(c.Args[0]); g != nil {
							puts[g] = append(puts[g], poolUse{fn, in, c.Args[1]})
						}
						continue
					}
					f := StaticCallee(c)
					if f == nil {
						continue
					}
					if g := getter[f]; g != nil {
						if v, ok := in.(ssa.Value); ok {
							gets[g] = append(gets[g], poolUse{fn, in, v})
						}
					}
					for i, g := range putter[f] {
						if i < len(c.Args) {
							puts[g] = append(puts[g], poolUse{fn, in, c.Args[i]})
						}
					}
				}
			}
		}
		for g, us := range gets {
			for _, u := range us {
				same := sameValue(u.val)
				for _, b := range u.fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, v := range ret.Results {
							if same[v] && !hasPut(puts[g], u.fn, same) {
								getter[u.fn] = g
							}
						}
					}
				}
			}
		}
		for g, us := range puts {
			for _, u := range us {
				for i, p := range u.fn.Params {
					if sameValue(p)[u.val] {
						if putter[u.fn] == nil {
							putter[u.fn] = map[int]*ssa.Global{}
						}
						putter[u.fn][i] = g
					}
				}
			}
		}
	}
	var pools []*ssa.Global
	for g := range gets {
		pools = append(pools, g)
	}
	sort.Slice(pools, func(i, j int) bool { return pools[i].String() < pools[j].String() })
	for _, g := range pools {
		name := shortPkg(g.Pkg.Pkg) + "." + g.Name()
		// clean when given back, everywhere?
		putClean := len(puts[g]) > 0
		for _, p := range puts[g] {
			if putter[calleeOf(p.at)] != nil {
				continue // decided in the function that does it
			}
			ws, ps := pooledRoot(p.val)
			ok := false
			for _, b := range p.fn.Blocks {
				for _, in := range b.Instrs {
					if cleans(in, ws, ps) && Dominates(in, p.at) {
						ok = true
					}
				}
			}
			putClean = putClean && ok
		}
		for _, u := range gets[g] {
			key := FnName(u.fn) + ":" + name
			r.Fn(FnName(u.fn))
			whole, parts := pooledSet(u.val)
			if getter[u.fn] == g || getter[calleeOf(u.at)] == g {
				// clean where it is fetched, or here
			}
			if !putClean && !cleanAtGet(w, u, whole, parts, getter, g) {
				r.Bad("pooled-clean", key, w.InstrPos(u.at), "what the pool "+name+" gives out is used without having been emptied")
			} else {
				r.OK("pooled-clean", key)
			}
			if getter[u.fn] == g {
				continue
			}
			if msg, at := pooledMisuse(w, u, puts[g], whole, parts); msg != "" {
				r.Bad("pooled-once", key, w.InstrPos(at), msg+" (pool "+name+")")
			} else {
				r.OK("pooled-once", key)
			}
		}
	}
}

func calleeOf(in ssa.Instruction) *ssa.Function {
	if c, ok := in.(ssa.CallInstruction); ok {
		return StaticCallee(c.Common())
	}
	return nil
}

func pooledRoot(v ssa.Value) (map[ssa.Value]bool, map[ssa.Value]bool) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL && localCell(x.X) {
				// other reads of the same variable
				ws, ps := map[ssa.Value]bool{}, map[ssa.Value]bool{}
				if x.X.Referrers() != nil {
					for _, u := range *x.X.Referrers() {
						if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
							a, b := pooledSet(l)
							for k := range a {
								ws[k] = true
							}
							for k := range b {
								ps[k] = true
							}
						}
					}
				}
				return ws, ps
			}
		}
		break
	}
	return pooledSet(v)
}

func hasPut(ps []poolUse, fn *ssa.Function, same map[ssa.Value]bool) bool {
	for _, p := range ps {
		if rootFn(p.fn) == rootFn(fn) && same[p.val] {
			return true
		}
	}
	return false
}

// cleanAtGet: nothing uses the object before it has been emptied.
func cleanAtGet(w *World, u poolUse, whole, parts map[ssa.Value]bool, getter map[*ssa.Function]*ssa.Global, g *ssa.Global) bool {
	if f := calleeOf(u.at); getter[f] == g && f != nil {
		// emptied by the function that fetched it
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && (calleeFull(c.Common()) == "(*sync.Pool).Get" || getter[calleeOf(in)] == g) {
					ws, ps := pooledSet(c)
					if cleanAtGet(w, poolUse{f, in, c}, ws, ps, getter, g) {
						return true
					}
				}
			}
		}
	}
	var firsts []ssa.Instruction
	for _, b := range u.fn.Blocks {
		for _, in := range b.Instrs {
			if cleans(in, whole, parts) {
				firsts = append(firsts, in)
			}
		}
	}
	if len(firsts) == 0 {
		return false
	}
	for v := range whole {
		if v.Referrers() == nil {
			continue
		}
		for _, x := range *v.Referrers() {
			if x.Parent() != u.fn {
				continue
			}
			switch x.(type) {
			case *ssa.Phi, *ssa.TypeAssert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Store, *ssa.Extract, *ssa.MakeClosure, *ssa.Defer, *ssa.UnOp, *ssa.DebugRef:
				continue
			}
			ok := false
			for _, f := range firsts {
				ok = ok || f == x || Dominates(f, x)
			}
			if !ok {
				return false
			}
		}
	}
	for v := range parts {
		if v.Referrers() == nil {
			continue
		}
		for _, x := range *v.Referrers() {
			if x.Parent() != u.fn {
				continue
			}
			switch x.(type) {
			case *ssa.Phi, *ssa.Store, *ssa.MakeClosure, *ssa.DebugRef, *ssa.MakeInterface:
				continue
			}
			ok := false
			for _, f := range firsts {
				ok = ok || f == x || Dominates(f, x)
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// pooledMisuse: given back twice, used after it was given back, or kept by someone else as well.
func pooledMisuse(w *World, u poolUse, puts []poolUse, whole, parts map[ssa.Value]bool) (string, ssa.Instruction) {
	isPut := map[ssa.Instruction]bool{}
	var plain []ssa.Instruction
	deferred := 0
	for _, p := range puts {
		if rootFn(p.fn) != rootFn(u.fn) || !whole[p.val] {
			continue
		}
		isPut[p.at] = true
		if _, ok := p.at.(*ssa.Defer); ok {
			deferred++
		} else if p.fn != u.fn {
			deferred++ // in a function literal, which runs at the end
		} else {
			plain = append(plain, p.at)
		}
	}
	if len(isPut) == 0 {
		return "", nil
	}
	if deferred > 1 || deferred == 1 && len(plain) > 0 {
		return "what was borrowed is given back twice", u.at
	}
	uses := func(in ssa.Instruction) bool {
		for _, op := range in.Operands(nil) {
			if *op != nil && (whole[*op] || parts[*op]) {
				return true
			}
		}
		return false
	}
	for _, p := range plain {
		_, at := CanReach(p, func(in ssa.Instruction) bool {
			switch in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.MakeInterface:
				return false
			}
			return in != u.at && in != p && uses(in)
		}, func(in ssa.Instruction) bool { return in == u.at })
		if at != nil {
			return "what was borrowed is used after it was given back", at
		}
	}
	// kept elsewhere
	for _, set := range []map[ssa.Value]bool{whole, parts} {
		for v := range set {
			if v.Referrers() == nil {
				continue
			}
			for _, x := range *v.Referrers() {
				switch y := x.(type) {
				case *ssa.Return:
					if y.Parent() == u.fn {
						return "what is given back is also returned", x
					}
				case *ssa.Store:
					if y.Val == v && !localCell(y.Addr) && !whole[y.Addr] {
						return "what is given back is also kept", x
					}
				case *ssa.MapUpdate:
					if y.Value == v || y.Key == v {
						return "what is given back is also kept", x
					}
				case *ssa.Send:
					if y.X == v {
						return "what is given back is also sent", x
					}
				case *ssa.Go:
					return "what is given back is used by a goroutine", x
				}
			}
		}
	}
	return "", nil
}

// ---- what is cleared and released

// reachesNodes: memory of this type can hold a document's nodes or models.
func reachesNodes(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			if strings.Contains(p.Path(), "yaml") && n.Obj().Name() == "Node" {
				return true
			}
			if p.Path() == "sync" && n.Obj().Name() == "Map" {
				return true
			}
			if p.Path() == "io/fs" && n.Obj().Name() == "FS" || p.Path() == "sync/atomic" && n.Obj().Name() == "Value" {
				return true
			}
			if !strings.HasPrefix(p.Path(), modPath) && !strings.Contains(p.Path(), "ordered") && p.Path() != "sync/atomic" {
				return false
			}
			if _, ok := n.Underlying().(*types.Interface); ok {
				return true
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return reachesNodes(x.Elem(), seen)
	case *types.Slice:
		return reachesNodes(x.Elem(), seen)
	case *types.Array:
		return reachesNodes(x.Elem(), seen)
	case *types.Map:
		return reachesNodes(x.Key(), seen) || reachesNodes(x.Elem(), seen)
	case *types.Chan:
		return reachesNodes(x.Elem(), seen)
	case *types.Interface:
		return x.NumMethods() == 0 || types.Identical(t, errorType) && false
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if reachesNodes(x.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// staysWarm: package variables that are filled at run time and deliberately not emptied.
var staysWarm = map[string]string{
	"datamodel/low.buildModelFieldCache": "one entry per Go type of the library, nothing of a document",
}

// globalsOf: the package variables the value may be, through phis and what functions return.
func globalsOf(v ssa.Value, depth int) []*ssa.Global {
	if g := globalOf(v); g != nil {
		return []*ssa.Global{g}
	}
	if depth > 4 {
		return nil
	}
	var out []*ssa.Global
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, globalsOf(e, depth+1)...)
		}
	case *ssa.UnOp:
		// an element of a list that is written out
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			out = append(out, listedGlobals(ia.X, depth)...)
		}
		if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al {
					out = append(out, globalsOf(st.Val, depth+1)...)
				}
			}
		}
	case *ssa.Index:
		if ld, ok := x.X.(*ssa.UnOp); ok {
			out = append(out, listedGlobals(ld.X, depth)...)
		}
	case *ssa.Call:
		if f := StaticCallee(&x.Call); f != nil && inRepo(f) {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					out = append(out, globalsOf(ret.Results[0], depth+1)...)
				}
			}
		}
	}
	return out
}

func listedGlobals(base ssa.Value, depth int) []*ssa.Global {
	var out []*ssa.Global
	if sl, ok := base.(*ssa.Slice); ok {
		base = sl.X
	}
	if al, ok := base.(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, u := range *al.Referrers() {
			if e, ok := u.(*ssa.IndexAddr); ok && e.Referrers() != nil {
				for _, y := range *e.Referrers() {
					if st, ok := y.(*ssa.Store); ok && st.Addr == e {
						out = append(out, globalsOf(st.Val, depth+1)...)
					}
				}
			}
		}
	}
	return out
}

func grows(in ssa.Instruction) []*ssa.Global {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return globalsOf(x.Map, 0)
	case ssa.CallInstruction:
		c := x.Common()
		switch calleeFull(c) {
		case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap":
			return globalsOf(c.Args[0], 0)
		}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			if _, isC := x.Val.(*ssa.Const); !isC && reachesNodes(x.Val.Type(), map[types.Type]bool{}) {
				return []*ssa.Global{g}
			}
			if c, ok := x.Val.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return []*ssa.Global{g}
				}
			}
		}
	}
	return nil
}

func drains(in ssa.Instruction) []*ssa.Global {
	switch x := in.(type) {
	case ssa.CallInstruction:
		c := x.Common()
		switch calleeFull(c) {
		case "(*sync.Map).Clear", "(*sync.Map).Range", "builtin.clear":
			return globalsOf(c.Args[0], 0)
		}
	case *ssa.Store:
		g, _ := x.Addr.(*ssa.Global)
		if g == nil {
			return nil
		}
		switch v := x.Val.(type) {
		case *ssa.MakeMap:
			return []*ssa.Global{g}
		case *ssa.Const:
			return []*ssa.Global{g}
		case *ssa.UnOp: // a new value, made in a variable
			if al, ok := v.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				return []*ssa.Global{g}
			}
		}
		// a new value
		if _, ok := x.Val.(*ssa.Call); ok {
			if b, ok := x.Val.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				return []*ssa.Global{g}
			}
		}
		if _, ok := x.Val.(*ssa.Alloc); ok {
			return []*ssa.Global{g}
		}
	}
	if st, ok := in.(*ssa.Store); ok {
		// the fields of a pool or cache that is made anew in place
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if g, ok := fa.X.(*ssa.Global); ok && fieldName(fa.X.Type(), fa.Field) == "New" {
				return []*ssa.Global{g}
			}
		}
	}
	return nil
}

func checkDrained(w *World, r *Reporter) {
	clearAll := w.Func("", "ClearAllCaches")
	if clearAll == nil {
		r.Bad("drained", "ClearAllCaches", "-", "there is no ClearAllCaches any more")
		return
	}
	cg := w.Callgraph()
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		if n := cg.Nodes[f]; n != nil {
			for _, e := range n.Out {
				if inRepo(e.Callee.Func) {
					// a call that is only made sometimes does not count
					if e.Site != nil && conditional(w, e.Site.Block(), e.Site.Parent()) {
						continue
					}
					visit(e.Callee.Func)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(clearAll)
	where := map[*ssa.Global]ssa.Instruction{}
	emptied := map[*ssa.Global]bool{}
	isInit := func(fn *ssa.Function) bool {
		f := rootFn(fn)
		return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
	}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if reach[fn] {
					if !conditional(w, b, fn) {
						for _, g := range drains(in) {
							emptied[g] = true
						}
					}
				}
				if isInit(fn) {
					continue
				}
				for _, g := range grows(in) {
					if where[g] == nil {
						where[g] = in
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && calleeFull(c.Common()) == "(*sync.Pool).Put" {
					g := poolVar(c.Common().Args[0])
					t := c.Common().Args[1].Type()
					if mi, ok := c.Common().Args[1].(*ssa.MakeInterface); ok {
						t = mi.X.Type()
					}
					if g != nil && where[g] == nil && reachesNodes(t, map[types.Type]bool{}) {
						where[g] = in
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range where {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		key := shortPkg(g.Pkg.Pkg) + "." + g.Name()
		if staysWarm[key] != "" {
			continue
		}
		if emptied[g] {
			r.OK("drained", key)
		} else {
			r.Bad("drained", key, w.InstrPos(where[g]), "the package variable "+key+" grows from document to document and ClearAllCaches does not empty it")
		}
	}
}

// conditional: whether the block runs is decided by something other than a test for nil.
func conditional(w *World, b *ssa.BasicBlock, fn *ssa.Function) bool {
	for c := range w.CtrlBlocks(b) {
		f, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if bo, ok := f.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if k, ok := bo.Y.(*ssa.Const); ok && (k.IsNil() || emptyText(k)) {
				continue
			}
			if k, ok := bo.X.(*ssa.Const); ok && (k.IsNil() || emptyText(k)) {
				continue
			}
		} else if ok && bo.Op == token.LSS && loopHead(c) {
			continue // for each of a list
		}
		return true
	}
	return false
}

func emptyText(k *ssa.Const) bool {
	return k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
}

func loopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// keptOnRelease: fields that Release leaves as they are, and why.
var keptOnRelease = map[string]string{
	"index.Resolver.specIndex()":    "the index of a resolver belongs to whoever made it; the index releases its resolver, not the other way round",
	"index.Rolodex.rootIndex()":     "models made from an index use it after the rolodex is gone; who owns an index releases it",
	"libopenapi.document.rolodex()": "models outlive the document and keep using its indexes (documented at Release)",
}

func checkReleased(w *World, r *Reporter) {
	for _, fn := range w.fns {
		if fn.Name() != "Release" || fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 0 {
			continue
		}
		n := namedOf(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		done := map[string]bool{}
		called := map[string]bool{}
		releasedFields(w, fn, fn.Params[0], done, called, 0)
		r.Fn(FnName(fn))
		tn := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !reachesNodes(f.Type(), map[types.Type]bool{}) {
				continue
			}
			key := tn + "." + f.Name()
			if keptOnRelease[key] != "" {
				continue
			}
			if done[f.Name()] {
				r.OK("released", key)
			} else {
				r.Bad("released", key, w.Pos(f.Pos()), "Release keeps what "+key+" holds")
			}
			if m := releaseOf(f.Type()); m && keptOnRelease[key+"()"] == "" {
				if called[f.Name()] {
					r.OK("released", key+"()")
				} else {
					r.Bad("released", key+"()", w.Pos(fn.Pos()), "Release does not release what "+key+" holds")
				}
			}
		}
	}
}

// checkCleared: the methods that empty the caches of an object empty all of them.
func checkCleared(w *World, r *Reporter) {
	for _, fn := range w.fns {
		if !strings.HasPrefix(fn.Name(), "Clear") || fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 0 {
			continue
		}
		n := namedOf(fn.Signature.Recv().Type())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		done, called := map[string]bool{}, map[string]bool{}
		releasedFields(w, fn, fn.Params[0], done, called, 0)
		tn := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			low := strings.ToLower(f.Name())
			if !strings.HasSuffix(low, "cache") && !strings.HasSuffix(low, "caches") && low != "store" || strings.Contains(low, "lock") {
				continue
			}
			key := tn + "." + fn.Name() + ":" + f.Name()
			if done[f.Name()] {
				r.OK("drained", key)
			} else {
				r.Bad("drained", key, w.Pos(fn.Pos()), fn.Name()+" does not empty "+tn+"."+f.Name())
			}
		}
	}
}

func releaseOf(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Release" {
			return true
		}
	}
	return false
}

// releasedFields: the fields of the object that are emptied by the function, whatever they hold.
func releasedFields(w *World, fn *ssa.Function, recv ssa.Value, done, called map[string]bool, depth int) {
	if depth > 5 {
		return
	}
	self := sameValue(recv)
	field := func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || !self[fa.X] {
			return ""
		}
		return fieldName(fa.X.Type(), fa.Field)
	}
	loaded := func(v ssa.Value) string {
		for i := 0; i < 4; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				return field(x.X)
			case *ssa.MakeInterface:
				v = x.X
				continue
			}
			break
		}
		return field(v)
	}
	fns := []*ssa.Function{fn}
	for i := 0; i < len(fns); i++ {
		fns = append(fns, fns[i].AnonFuncs...)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			if conditional(w, b, f) {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if self[x.Addr] { // the whole object is replaced
						st, _ := derefType(x.Addr.Type()).Underlying().(*types.Struct)
						if ld, ok := x.Val.(*ssa.UnOp); ok && st != nil {
							if al, ok := ld.X.(*ssa.Alloc); ok {
								for i := 0; i < st.NumFields(); i++ {
									done[st.Field(i).Name()] = true
								}
								for _, u := range *al.Referrers() {
									if fa, ok := u.(*ssa.FieldAddr); ok {
										done[fieldName(fa.X.Type(), fa.Field)] = false
									}
								}
							}
						}
						if _, ok := x.Val.(*ssa.Const); ok && st != nil {
							for i := 0; i < st.NumFields(); i++ {
								done[st.Field(i).Name()] = true
							}
						}
					}
					if n := field(x.Addr); n != "" {
						switch v := x.Val.(type) {
						case *ssa.Const:
							done[n] = true
						case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
							done[n] = true
						case *ssa.Call:
							// made anew from nothing
							if len(v.Call.Args) == 0 && StaticCallee(&v.Call) != nil {
								done[n] = true
							}
						case *ssa.UnOp:
							if _, ok := v.X.(*ssa.Alloc); ok {
								done[n] = true
							}
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						if b.Name() == "clear" {
							done[loaded(c.Args[0])] = true
						}
						continue
					}
					g := StaticCallee(c)
					if c.IsInvoke() {
						if c.Method.Name() == "Release" {
							called[loaded(c.Value)] = true
						}
						continue
					}
					if g == nil {
						continue
					}
					for i, a := range c.Args {
						if self[a] && inRepo(g) && len(g.Blocks) > 0 && i < len(g.Params) {
							releasedFields(w, g, g.Params[i], done, called, depth+1)
						}
						if n := loaded(a); n != "" && i == 0 && g.Signature.Recv() != nil {
							switch g.Name() {
							case "Clear", "Reset":
								done[n] = true
							case "Store", "Swap":
								done[n] = true
							case "Release":
								called[n] = true
							}
						}
					}
				}
			}
		}
	}
}

// ---- marks that are set for as long as something lasts

type markOp struct {
	m, k string
	at   ssa.Instruction
	off  bool
	res  ssa.Value // tells whether the mark was already set
	fld  string
}

// valName: the same text for the same value, also when it is captured or read again from where it is kept.
func valName(v ssa.Value, depth int) string {
	if depth > 12 {
		return v.Name()
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.String()
	case *ssa.MakeInterface:
		return valName(x.X, depth+1)
	case *ssa.ChangeType:
		return valName(x.X, depth+1)
	case *ssa.ChangeInterface:
		return valName(x.X, depth+1)
	case *ssa.FreeVar:
		if b := binding(x); b != nil {
			return valName(b, depth+1)
		}
	case *ssa.Alloc:
		if s := onlyStore(x); s != nil {
			return "&" + valName(s, depth+1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			n := valName(x.X, depth+1)
			if strings.HasPrefix(n, "&") {
				return n[1:]
			}
			return "*" + n
		}
	case *ssa.FieldAddr:
		return "&" + strings.TrimPrefix(valName(x.X, depth+1), "&") + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return valName(x.X, depth+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return "&" + valName(x.X, depth+1) + "[" + valName(x.Index, depth+1) + "]"
	case *ssa.Global:
		return "&" + x.String()
	}
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil {
		return in.Parent().String() + ":" + v.Name()
	}
	if v.Parent() != nil {
		return v.Parent().String() + ":" + v.Name()
	}
	return v.Name()
}

// offValue: the value says that something is not under way.
func offValue(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if _, st := v.Type().Underlying().(*types.Struct); st {
		return false
	}
	return ok && (c.Value == nil || c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value))
}

func onValue(v ssa.Value) bool {
	if s, ok := v.Type().Underlying().(*types.Struct); ok {
		return s.NumFields() == 0
	}
	if c, ok := v.(*ssa.Const); ok {
		return c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
	}
	return false
}

func directMark(in ssa.Instruction) *markOp {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if offValue(x.Value) {
			return &markOp{valName(x.Map, 0), valName(x.Key, 0), in, true, nil, ""}
		}
		if onValue(x.Value) {
			return &markOp{valName(x.Map, 0), valName(x.Key, 0), in, false, nil, ""}
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if b, ok := x.Val.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && (offValue(x.Val) || onValue(x.Val)) {
				return &markOp{valName(ia.X, 0), valName(ia.Index, 0), in, offValue(x.Val), nil, ""}
			}
		}
		// a depth that goes up and down again
		if _, ok := x.Addr.(*ssa.FieldAddr); ok {
			if b, ok := x.Val.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				l, isL := b.X.(*ssa.UnOp)
				k, isK := b.Y.(*ssa.Const)
				if isL && isK && k.Value != nil && valName(l.X, 0) == valName(x.Addr, 0) {
					return &markOp{valName(x.Addr, 0), k.Value.String(), in, b.Op == token.SUB, nil, ""}
				}
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		switch calleeFull(c) {
		case "builtin.delete":
			return &markOp{valName(c.Args[0], 0), valName(c.Args[1], 0), in, true, nil, ""}
		case "(*sync.Map).Delete", "(*sync.Map).LoadAndDelete":
			return &markOp{valName(c.Args[0], 0), valName(c.Args[1], 0), in, true, nil, ""}
		case "(*sync.Map).Store":
			return &markOp{valName(c.Args[0], 0), valName(c.Args[1], 0), in, false, nil, ""}
		case "(*sync.Map).LoadOrStore":
			m := &markOp{valName(c.Args[0], 0), valName(c.Args[1], 0), in, false, nil, ""}
			if v, ok := in.(ssa.Value); ok && v.Referrers() != nil {
				for _, u := range *v.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
						m.res = e
					}
				}
			}
			return m
		}
	}
	return nil
}

// marksOf: what a function sets or takes away, in terms of its parameters.
type markSum struct {
	m, k   string
	off    bool
	loaded bool
	field  string
}

// underWay: marks that say that something is being done right now (not that it has been done).
var underWay = map[string]string{
	"arazzo.executionState.activeWorkflows":           "workflows being run: a second run of one is refused as circular",
	"arazzo.executionState.depth":                     "how deep workflows are nested right now",
	"generator/golang.Generator.reflectStack":         "types being described: meeting one again makes a reference",
	"index.LocalFS.processingFiles":                   "files being read: who asks for one waits",
	"index.RemoteFS.ProcessingFiles":                  "files being fetched: who asks for one waits",
	"datamodel/high/base.InlineRenderContext.tracker": "schemas being rendered: meeting one again is a circle",
}

// markField: the field that holds the marks.
func markField(in ssa.Instruction) string {
	var v ssa.Value
	switch x := in.(type) {
	case *ssa.MapUpdate:
		v = x.Map
	case *ssa.Store:
		v = x.Addr
	case ssa.CallInstruction:
		if len(x.Common().Args) > 0 {
			v = x.Common().Args[0]
		}
	}
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() != nil {
			return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + fieldName(fa.X.Type(), fa.Field)
		}
	}
	return ""
}

func checkMarks(w *World, r *Reporter) {
	sums := map[*ssa.Function][]markSum{}
	for _, fn := range w.fns {
		if fn.Parent() != nil || len(fn.Blocks) > 12 {
			continue
		}
		var ops []*markOp
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if o := directMark(in); o != nil {
					if o.off && conditional(w, b, fn) {
						continue
					}
					ops = append(ops, o)
				}
			}
		}
		if len(ops) == 0 || len(ops) > 3 {
			continue
		}
		var ss []markSum
		for _, o := range ops {
			s := markSum{o.m, o.k, o.off, false, markField(o.at)}
			if o.res != nil {
				for _, b := range fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && ret.Results[0] == o.res {
						s.loaded = true
					}
				}
			}
			if o.off != ops[0].off || o.res != nil && !s.loaded {
				ss = nil
				break
			}
			ss = append(ss, s)
		}
		if len(ss) > 0 {
			sums[fn] = ss
		}
	}
	through := func(in ssa.Instruction) []*markOp {
		if o := directMark(in); o != nil {
			o.fld = markField(in)
			return []*markOp{o}
		}
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		c := ci.Common()
		f := StaticCallee(c)
		if f == nil {
			return nil
		}
		var out []*markOp
		for _, s := range sums[f] {
			m, k := s.m, s.k
			for i, p := range f.Params {
				if i >= len(c.Args) {
					break
				}
				pn, an := valName(p, 0), valName(c.Args[i], 0)
				if k == pn {
					k = an
				}
				if m == pn || strings.HasPrefix(m, "&"+pn+".") || strings.HasPrefix(m, pn+".") {
					m = strings.Replace(m, pn, an, 1)
				}
			}
			if strings.Contains(k, f.String()+":") || strings.Contains(m, f.String()+":") {
				continue
			}
			o := &markOp{m, k, in, s.off, nil, s.field}
			if s.loaded {
				if v, ok := in.(ssa.Value); ok {
					o.res = v
				}
			}
			out = append(out, o)
		}
		return out
	}
	ops := map[*ssa.Function]map[ssa.Instruction][]*markOp{}
	for _, fn := range w.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if os := through(in); len(os) > 0 {
					if ops[fn] == nil {
						ops[fn] = map[ssa.Instruction][]*markOp{}
					}
					ops[fn][in] = os
				}
			}
		}
	}
	// what a literal that is called or deferred takes away
	offIn := func(in ssa.Instruction) []*markOp {
		out := ops[in.Parent()][in]
		if ci, ok := in.(ssa.CallInstruction); ok {
			var f *ssa.Function
			if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
				f = mc.Fn.(*ssa.Function)
			}
			if f != nil {
				for _, b := range f.Blocks {
					if conditional(w, b, f) {
						continue
					}
					for _, x := range b.Instrs {
						out = append(out, ops[f][x]...)
					}
				}
			}
		}
		return out
	}
	for _, fn := range w.fns {
		if ops[fn] == nil {
			continue
		}
		type pair struct{ m, k string }
		offs := map[pair]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range offIn(in) {
					if o.off {
						offs[pair{o.m, o.k}] = true
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				for _, o := range ops[fn][in] {
					if o.off {
						continue
					}
					if !offs[pair{o.m, o.k}] {
						// whoever only sets the mark has the caller take it away
						if underWay[o.fld] != "" && len(sums[fn]) == 0 && !givesClosure(fn) && !handsOff(fn, o) {
							r.Bad("unmarked", FnName(fn)+":"+o.fld, w.InstrPos(in), "what is marked in "+o.fld+" as being under way is never unmarked here")
						}
						continue
					}
					key := FnName(fn) + ":" + markName(o.m)
					r.Fn(FnName(fn))
					seen := map[*ssa.BasicBlock]bool{}
					var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
					walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
						for ; i < len(b.Instrs); i++ {
							for _, p := range offIn(b.Instrs[i]) {
								if p.off && p.m == o.m && p.k == o.k {
									return nil
								}
							}
							if b.Instrs[i] == o.at {
								return nil
							}
							if ret, ok := b.Instrs[i].(*ssa.Return); ok {
								for _, v := range ret.Results {
									if _, ok := v.(*ssa.MakeClosure); ok {
										return nil // the caller gets what takes it away
									}
								}
								return ret
							}
						}
						skip := -1
						if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && o.res != nil {
							c, neg := f.Cond, 0
							for {
								u, ok := c.(*ssa.UnOp)
								if !ok || u.Op != token.NOT {
									break
								}
								c, neg = u.X, 1-neg
							}
							if c == o.res {
								skip = neg
							}
						}
						for j, s := range b.Succs {
							if j == skip || seen[s] {
								continue
							}
							seen[s] = true
							if l := walk(s, 0); l != nil {
								return l
							}
						}
						return nil
					}
					// a deferred removal before the mark is set counts as well
					done := false
					for _, d := range b.Parent().Blocks {
						for _, x := range d.Instrs {
							if _, ok := x.(*ssa.Defer); ok && Dominates(x, in) {
								for _, p := range offIn(x) {
									done = done || p.off && p.m == o.m && p.k == o.k
								}
							}
						}
					}
					if l := walk(b, i+1); l != nil && !done {
						r.Bad("unmarked", key, w.InstrPos(in), "what is marked as being under way here is still marked at the return at "+w.InstrPos(l))
					} else {
						r.OK("unmarked", key)
					}
				}
			}
		}
	}
}

func givesClosure(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if _, ok := v.(*ssa.MakeClosure); ok {
					return true
				}
			}
		}
	}
	return false
}

// handsOff: the mark is set by a function that reports so to its caller, which takes it away.
func handsOff(fn *ssa.Function, o *markOp) bool {
	return o.fld == "index.RemoteFS.ProcessingFiles" // keyed by a name; who is waited for takes it away in releaseRemoteProcessingWaiter (C11 signal)
}

func markName(m string) string {
	if i := strings.LastIndexAny(m, ".:/"); i >= 0 {
		return m[i+1:]
	}
	return m
}
