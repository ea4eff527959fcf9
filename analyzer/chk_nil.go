package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: high-level objects made by hand have no low-level object.

func init() {
	register("C09", "nil-low", checkNilLow)
}

// accessPath names the memory a value was read from, for values reached from parameters, free
// variables and local values through fields and accessor calls. "" when unknown.
func (n *nilAn) path(v ssa.Value, depth int) string {
	if depth > 12 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return "p:" + x.Name()
	case *ssa.FreeVar:
		return "f:" + x.Name()
	case *ssa.FieldAddr:
		if p := n.path(x.X, depth+1); p != "" {
			if f := structFieldOf(x.X.Type(), x.Field); f != nil {
				return p + "." + f.Name()
			}
		}
		return ""
	case *ssa.Field:
		if p := n.path(x.X, depth+1); p != "" {
			if f := structFieldOf(x.X.Type(), x.Field); f != nil {
				return p + "." + f.Name()
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return n.path(x.X, depth+1)
		}
	case *ssa.MakeInterface:
		return n.path(x.X, depth+1)
	case *ssa.ChangeInterface:
		return n.path(x.X, depth+1)
	case *ssa.ChangeType:
		return n.path(x.X, depth+1)
	case *ssa.TypeAssert:
		return n.path(x.X, depth+1)
	case *ssa.Call:
		f := StaticCallee(&x.Call)
		if f != nil && len(x.Call.Args) == 1 {
			if fld := n.getter(f); fld != "" {
				if p := n.path(x.Call.Args[0], depth+1); p != "" {
					return p + "." + fld
				}
			}
		}
		// what is looked up twice in the same way is the same
		if f != nil && inRepo(f) && (strings.HasPrefix(f.Name(), "Get") || strings.HasPrefix(f.Name(), "Find")) && f.Signature.Results().Len() == 1 {
			out := "c:" + FnName(f) + "("
			for _, a := range x.Call.Args {
				p := ""
				if c, ok := a.(*ssa.Const); ok {
					p = c.String()
				} else {
					p = n.path(a, depth+1)
				}
				if p == "" {
					return "v:" + x.Name()
				}
				out += strings.ReplaceAll(p, ".", "/") + ","
			}
			return out + ")"
		}
		return "v:" + x.Name()
	case *ssa.Lookup:
		if !x.CommaOk {
			m, k := n.path(x.X, depth+1), ""
			if c, ok := x.Index.(*ssa.Const); ok {
				k = c.String()
			} else {
				k = n.path(x.Index, depth+1)
			}
			if m != "" && k != "" {
				return m + "[" + strings.ReplaceAll(k, ".", "/") + "]"
			}
		}
		return "v:" + v.Name()
	case *ssa.IndexAddr:
		// the element of the same slice at the same place
		if m := n.path(x.X, depth+1); m != "" {
			k := "v:" + x.Index.Name()
			if c, ok := x.Index.(*ssa.Const); ok {
				k = c.String()
			} else if kp := n.path(x.Index, depth+1); kp != "" {
				k = kp
			}
			return m + "[" + strings.ReplaceAll(k, ".", "/") + "]"
		}
		return "v:" + v.Name()
	case *ssa.Global:
		return "g:" + x.RelString(nil)
	case *ssa.Extract, *ssa.Phi, *ssa.Alloc:
		return "v:" + v.Name()
	}
	return ""
}

type nilAn struct {
	w       *World
	getters map[*ssa.Function]string
	calls   map[*ssa.Function][]ssa.CallInstruction
	inPred  map[*ssa.Function]bool
	safe    map[*ssa.Function]int // 1 = running, 2 = safe, 3 = not
}

// getter: the function returns a field of its only parameter (or nil when that is nil).
func (n *nilAn) getter(f *ssa.Function) string {
	if g, ok := n.getters[f]; ok {
		return g
	}
	n.getters[f] = ""
	if len(f.Params) != 1 || len(f.Blocks) == 0 || !inRepo(f) || f.Signature.Results().Len() != 1 {
		return ""
	}
	out := ""
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[0]
		if isNilConst(v) {
			continue
		}
		p := n.path(v, 0)
		pre := "p:" + f.Params[0].Name() + "."
		if !strings.HasPrefix(p, pre) || (out != "" && out != p[len(pre):]) {
			return ""
		}
		out = p[len(pre):]
	}
	n.getters[f] = out
	return out
}

// guarded: what p names was found not to be nil, or was set, before the instruction is reached.
func (n *nilAn) guarded(p string, at ssa.Instruction) bool {
	b := at.Block()
	for d := b; d != nil; d = d.Idom() {
		// set here
		for _, in := range d.Instrs {
			if in == at {
				break
			}
			if st, ok := in.(*ssa.Store); ok && neverNil(st.Val, 0) && n.path(st.Addr, 0) == p {
				return true
			}
		}
		up := d.Idom()
		if up == nil {
			break
		}
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		side := n.nonNilSide(iff, p)
		if side < 0 {
			continue
		}
		s := up.Succs[side]
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
		// the nil side never comes back, or sets it first
		other := up.Succs[1-side]
		if other != s && !reaches(other, b, up, func(x *ssa.BasicBlock) bool {
			for _, in := range x.Instrs {
				if st, ok := in.(*ssa.Store); ok && neverNil(st.Val, 0) && n.path(st.Addr, 0) == p {
					return true
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

// nonNilSide: the successor of the branch on which p is known not to be nil, or -1.
func (n *nilAn) nonNilSide(iff *ssa.If, p string) int { return n.condSide(iff.Cond, p) }

func (n *nilAn) condSide(cond ssa.Value, p string) int {
	flip := 0
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op.String() != "!" {
			break
		}
		cond, flip = u.X, 1-flip
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		v := x.X
		if isNilConst(v) {
			v = x.Y
		} else if !isNilConst(x.Y) {
			// a size that is greater than zero
			c, ok := x.X.(*ssa.Call)
			k, isK := x.Y.(*ssa.Const)
			if !ok || !isK || k.Value == nil || len(c.Call.Args) != 1 || n.path(c.Call.Args[0], 0) != p {
				return -1
			}
			if f := StaticCallee(&c.Call); f == nil || f.Name() != "Len" {
				return -1
			}
			switch x.Op.String() + k.Value.String() {
			case ">0", "!=0", ">=1":
				return flip
			case "==0", "<=0", "<1":
				return 1 - flip
			}
			return -1
		}
		if n.path(v, 0) != p {
			return -1
		}
		switch x.Op.String() {
		case "!=":
			return flip
		case "==":
			return 1 - flip
		}
	case *ssa.Call:
		// a predicate that is true only for something that is there
		f := StaticCallee(&x.Call)
		if f != nil && len(x.Call.Args) > 0 && f.Name() == "IsEmpty" && n.path(x.Call.Args[0], 0) == p {
			return 1 - flip
		}
		return n.predicate(&x.Call, 0, p, flip)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return n.predicate(&c.Call, x.Index, p, flip)
		}
	}
	return -1
}

// predicate: result i of the call is true only when p, which is built from its arguments, is not nil.
func (n *nilAn) predicate(c *ssa.CallCommon, i int, p string, flip int) int {
	f := StaticCallee(c)
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 || n.inPred[f] {
		return -1
	}
	q := p
	for k, a := range c.Args {
		if k >= len(f.Params) {
			continue
		}
		ap, fp := n.path(a, 0), "p:"+f.Params[k].Name()
		if kc, ok := a.(*ssa.Const); ok {
			ap = kc.String()
		}
		switch {
		case ap == "" || ap == "nil":
		case q == ap:
			q = fp
		case strings.HasPrefix(q, ap+".") || strings.HasPrefix(q, ap+"["):
			q = fp + q[len(ap):]
		}
		if ap != "" {
			q = strings.ReplaceAll(q, "["+strings.ReplaceAll(ap, ".", "/")+"]", "["+fp+"]")
		}
	}
	if !strings.HasPrefix(q, "p:") || q == p && !strings.Contains(p, "p:") {
		return -1
	}
	if n.inPred == nil {
		n.inPred = map[*ssa.Function]bool{}
	}
	n.inPred[f] = true
	defer delete(n.inPred, f)
	any := false
	for _, b := range f.Blocks {
		ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet {
			continue
		}
		v := ret.Results[i]
		if kc, isK := v.(*ssa.Const); isK && kc.Value != nil && kc.Value.String() == "false" {
			continue
		}
		any = true
		if !n.guarded(q, ret) && !n.nilImplies(v, q, 0) {
			return -1
		}
	}
	if !any {
		return -1
	}
	return flip
}

// nilImplies: v is true only where p is not nil.
func (n *nilAn) nilImplies(v ssa.Value, p string, depth int) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return n.condSide(v, p) == 0
	}
	if depth > 3 {
		return false
	}
	for k, e := range ph.Edges {
		if c, isK := e.(*ssa.Const); isK && c.Value != nil && c.Value.String() == "false" {
			continue
		}
		pb := ph.Block().Preds[k]
		if !n.guarded(p, pb.Instrs[len(pb.Instrs)-1]) && !n.nilImplies(e, p, depth+1) {
			return false
		}
	}
	return true
}

// neverNil: a new object.
func neverNil(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.Call:
		return x.Call.Signature().Results().Len() == 1 && neverNilResult(&x.Call, 0, depth)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && neverNilResult(&c.Call, x.Index, depth)
	}
	return false
}

func neverNilResult(c *ssa.CallCommon, i, depth int) bool {
	f := StaticCallee(c)
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	if FnName(f) == "bundler.buildComponents" {
		return true // nil only without an index; there is nothing to inline without one
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !neverNil(ret.Results[i], depth+1) {
			return false
		}
	}
	return true
}

// nilOK: uses that cannot be of nil for a reason that lies outside the function. The path is
// matched at its end, in the package, so that moving the code into a helper changes nothing.
var nilOK = []struct{ pkg, path, why string }{
	{"arazzo", ".document.Components", "the engine caches the components of the document, and looks at them only where the cache is filled"},
	{"generator/golang", ".Model.Components", "the model of a document the generator has just written itself, with components and schemas"},
	{"generator/golang", ".Model.Components.Schemas", "the same"},
}

// holds: p is not nil at the instruction; where p starts at a parameter of a function that only
// the library calls, or at a captured variable, the places that call or make it may see to it.
func (n *nilAn) holds(fn *ssa.Function, p string, at ssa.Instruction, depth int) bool {
	if n.guarded(p, at) {
		return true
	}
	if depth == 0 {
		return false
	}
	root, rest, _ := strings.Cut(p, ".")
	if strings.HasPrefix(root, "f:") && fn.Parent() != nil {
		for i, fv := range fn.FreeVars {
			if fv.Name() != root[2:] {
				continue
			}
			found := false
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					mc, ok := in.(*ssa.MakeClosure)
					if !ok || mc.Fn != fn {
						continue
					}
					found = true
					q := n.path(mc.Bindings[i], 0)
					if q == "" || !n.holds(fn.Parent(), q+"."+rest, mc, depth-1) {
						return false
					}
				}
			}
			return found
		}
		return false
	}
	if !strings.HasPrefix(root, "p:") || rest == "" || fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	for i, q := range fn.Params {
		if q.Name() != root[2:] {
			continue
		}
		cs := n.callers()[fn]
		for _, c := range cs {
			if i >= len(c.Common().Args) {
				return false
			}
			cp := n.path(c.Common().Args[i], 0)
			if cp == "" || !n.holds(c.Parent(), cp+"."+rest, c, depth-1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func (n *nilAn) callers() map[*ssa.Function][]ssa.CallInstruction {
	if n.calls == nil {
		n.calls = map[*ssa.Function][]ssa.CallInstruction{}
		for _, fn := range n.w.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if f := StaticCallee(ci.Common()); f != nil {
							n.calls[f] = append(n.calls[f], ci)
						}
					}
				}
			}
		}
	}
	return n.calls
}

func reaches(from, to, avoid *ssa.BasicBlock, stop func(*ssa.BasicBlock) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] || b == avoid || stop(b) {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// nilSafe: the function can be called with nil for its first parameter.
func (n *nilAn) nilSafe(f *ssa.Function) bool {
	if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
		f = o
	}
	switch n.safe[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	n.safe[f] = 1
	ok := true
	if len(f.Blocks) == 0 || len(f.Params) == 0 {
		ok = false
	} else {
		p := "p:" + f.Params[0].Name()
		n.derefs(f, func(v ssa.Value, in ssa.Instruction) {
			if n.path(v, 0) == p && !n.guarded(p, in) {
				ok = false
			}
		})
	}
	if ok {
		n.safe[f] = 2
	} else {
		n.safe[f] = 3
	}
	return ok
}

// derefs calls fn for each instruction that needs v not to be nil.
func (n *nilAn) derefs(f *ssa.Function, fn func(v ssa.Value, in ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				fn(x.X, in)
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					switch x.X.(type) {
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					default:
						fn(x.X, in)
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					fn(c.Value, in)
					continue
				}
				g := StaticCallee(c)
				if g != nil && g.Signature.Recv() != nil && len(c.Args) > 0 {
					if _, ok := g.Signature.Recv().Type().(*types.Pointer); ok && !n.nilSafe(g) {
						fn(c.Args[0], in)
					}
				}
			}
		}
	}
}

func checkNilLow(w *World, r *Reporter) {
	n := &nilAn{w: w, getters: map[*ssa.Function]string{}, safe: map[*ssa.Function]int{}}
	for _, fn := range w.fns {
		n.derefs(fn, func(v ssa.Value, in ssa.Instruction) {
			p := n.path(v, 0)
			if p == "" || !optional(v, p) {
				return
			}
			key := FnName(rootFn(fn)) + ":" + p
			r.Fn(FnName(rootFn(fn)))
			for _, e := range nilOK {
				if strings.HasSuffix(p, e.path) && fn.Package() != nil && fn.Package().Pkg.Path() == modPath+"/"+e.pkg {
					r.OK("guarded", key)
					return
				}
			}
			if n.holds(fn, p, in, 3) {
				r.OK("guarded", key)
				return
			}
			r.Bad("guarded", key, w.InstrPos(in), fmt.Sprintf("%s uses %s, which an object made by hand does not have, without looking whether it is there", FnName(rootFn(fn)), p))
		})
	}
	r.Min("guarded", 180)
}

// optional: the value was read from a pointer field of a high-level object, or is its low-level object.
func optional(v ssa.Value, p string) bool {
	if strings.HasSuffix(p, ".low") && theWorld.isLowModelPtr(v.Type()) {
		return true
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/datamodel/high") {
		return false
	}
	f := structFieldOf(fa.X.Type(), fa.Field)
	return f != nil && f.Exported()
}
