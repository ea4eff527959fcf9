package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// longEnough: elements that are always there, for a reason the analysis does not see: function,
// then what it indexes.
var longEnough = map[string]string{
	"datamodel/high.NodeBuilder.AddYAMLNode[1]": "the text was found to hold the separator it is split at",
	"datamodel/low/v2.createDocument[0]":        "reading the specification fails when it is empty",
	"datamodel/low/v3.createDocument[0]":        "reading the specification fails when it is empty",
	"generator/golang.toPrivateName[0]":         "a public name is never empty, and splitting one never gives nothing",
	"generator/golang.toPublicName[0]":          "an identifier is split into parts that are not empty",
	"index.createNewIndex[0]":                   "the root of the index is the node that was looked at",
	"utils.ConvertComponentIdIntoPath[0]":       "splitting gives at least one segment, and the first always adds one",
	"what-changed/model.CompareSchemas[1]":      "a proxy that is a reference keeps the node that holds the reference",
}

type lenAn struct {
	*nilAn
	busy map[string]bool
	phis map[*ssa.Phi]bool
}

// atLeast: the length of what p names (or v is) is known to be at least k at the instruction.
func (a *lenAn) atLeast(v ssa.Value, p string, k int64, at ssa.Instruction, depth int) bool {
	if k <= 0 {
		return true
	}
	if a.made(v, k, depth) {
		return true
	}
	b := at.Block()
	for d := b; d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for side := 0; side < 2; side++ {
			s := up.Succs[side]
			onlyThis := len(s.Preds) == 1 && s.Dominates(b)
			if !onlyThis && !(up.Succs[1-side] != s && !reaches(up.Succs[1-side], b, up, func(*ssa.BasicBlock) bool { return false })) {
				continue
			}
			if a.condLen(iff.Cond, side == 0, v, p) >= k {
				return true
			}
		}
	}
	return a.stored(v, k, depth) || a.callersKnow(b.Parent(), p, k, depth)
}

// callersKnow: the function is only called where the length of what the parameter names is known.
func (a *lenAn) callersKnow(fn *ssa.Function, p string, k int64, depth int) bool {
	root, rest, deep := strings.Cut(p, ".")
	if depth > 3 || !strings.HasPrefix(root, "p:") || fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	for i, q := range fn.Params {
		if q.Name() != root[2:] {
			continue
		}
		cs := a.callers()[fn]
		for _, c := range cs {
			if i >= len(c.Common().Args) {
				return false
			}
			arg := c.Common().Args[i]
			cp := a.path(arg, 0)
			if !deep {
				if !a.atLeast(arg, cp, k, c, depth+1) {
					return false
				}
				continue
			}
			if cp == "" || !a.atLeast(nil, cp+"."+rest, k, c, depth+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

// stored: v was read from a variable (or a field of one made here) that only ever holds as many.
func (a *lenAn) stored(v ssa.Value, k int64, depth int) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL || depth > 3 {
		return false
	}
	switch x := u.X.(type) {
	case *ssa.Global:
		pkg := x.Pkg
		if pkg == nil || x.Object() == nil || x.Object().Exported() {
			return false
		}
		n := 0
		for _, f := range append([]*ssa.Function{pkg.Func("init")}, a.w.fns...) {
			if f == nil || f.Pkg != pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == x {
						n++
						if !a.made(st.Val, k, depth+1) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	case *ssa.Alloc:
		return a.held(x, nil, k, depth)
	case *ssa.FieldAddr:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return a.held(al, x, k, depth)
		}
	}
	return false
}

// held: what is stored in the variable (or in that field of it) always has as many elements.
func (a *lenAn) held(al *ssa.Alloc, field *ssa.FieldAddr, k int64, depth int) bool {
	n, ok := 0, true
	var look func(addr ssa.Value)
	look = func(addr ssa.Value) {
		for _, ref := range *addr.Referrers() {
			switch r := ref.(type) {
			case *ssa.Store:
				if r.Addr != addr {
					continue
				}
				if addr == ssa.Value(al) && field != nil {
					continue // all of it at once: a copy, the field is set after it
				}
				n++
				if !a.grown(r.Val, addr, depth) && !a.made(r.Val, k, depth+1) && !a.keeps(r, k, depth) {
					ok = false
				}
			case *ssa.FieldAddr:
				if field != nil && r.Field == field.Field && addr == ssa.Value(al) {
					look(r)
				}
			case *ssa.MakeClosure:
				if f, isF := r.Fn.(*ssa.Function); isF {
					for i, bnd := range r.Bindings {
						if bnd == addr && i < len(f.FreeVars) {
							look(f.FreeVars[i])
						}
					}
				}
			}
		}
	}
	look(al)
	return ok && n > 0
}

// keeps: what is stored is known to be long enough where it is stored.
func (a *lenAn) keeps(st *ssa.Store, k int64, depth int) bool {
	if c, ok := st.Val.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, arg := range c.Call.Args {
				if p := a.path(arg, 0); p != "" && a.atLeast(arg, p, k, st, depth+2) {
					return true
				}
			}
		}
	}
	return false
}

// grown: the value is what the variable held, with more added.
func (a *lenAn) grown(v, addr ssa.Value, depth int) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	return ok && u.X == addr
}

// condLen: the least length that the condition, being true or false, leaves.
func (a *lenAn) condLen(cond ssa.Value, truth bool, v ssa.Value, p string) int64 {
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		l, r, op := x.X, x.Y, x.Op
		if a.isLen(r, v, p) {
			l, r = r, l
			op = mirror(op)
		}
		// kinds of nodes say how much they hold
		if n, ok := a.kindLen(l, r, op, truth, p); ok {
			return n
		}
		if !a.isLen(l, v, p) {
			return 0
		}
		c, ok := r.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		k, _ := constant.Int64Val(constant.ToInt(c.Value))
		if !truth {
			op = negate(op)
		}
		switch op {
		case token.GTR:
			return k + 1
		case token.GEQ, token.EQL:
			return k
		case token.NEQ:
			if k == 0 {
				return 1
			}
		}
	case *ssa.Call:
		return a.predLen(&x.Call, 0, truth, v, p)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.predLen(&c.Call, x.Index, truth, v, p)
		}
	}
	return 0
}

func (a *lenAn) kindLen(l, r ssa.Value, op token.Token, truth bool, p string) (int64, bool) {
	return 0, false
}

// predLen: what a true answer of the function says about the length.
func (a *lenAn) predLen(c *ssa.CallCommon, i int, truth bool, v ssa.Value, p string) int64 {
	f := StaticCallee(c)
	if f == nil || !truth {
		return 0
	}
	if n := a.knownLen(f, c, v, p); n > 0 {
		return n
	}
	if !inRepo(f) || len(f.Blocks) == 0 || p == "" || a.busy[FnName(f)+p] {
		return 0
	}
	q := p
	for k, arg := range c.Args {
		if k >= len(f.Params) {
			continue
		}
		ap := a.path(arg, 0)
		if ap != "" && (q == ap || strings.HasPrefix(q, ap+".")) {
			q = "p:" + f.Params[k].Name() + q[len(ap):]
			break
		}
	}
	if q == p && !strings.HasPrefix(p, "p:") {
		return 0
	}
	a.busy[FnName(f)+p] = true
	defer delete(a.busy, FnName(f)+p)
	for k := int64(2); k > 0; k-- {
		all, any := true, false
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			res := ret.Results[i]
			if kc, ok := res.(*ssa.Const); ok && kc.Value != nil && kc.Value.String() == "false" {
				continue
			}
			any = true
			if !a.atLeast(nil, q, k, ret, 0) && !a.implies(res, q, k, 0) {
				all = false
			}
		}
		if all && any {
			return k
		}
	}
	return 0
}

// knownLen: a true answer of these says how much there is.
func (a *lenAn) knownLen(f *ssa.Function, c *ssa.CallCommon, v ssa.Value, p string) int64 {
	switch FnName(f) {
	case "strings.Contains":
		// what contains the separator has at least two parts
		sp, ok := v.(*ssa.Call)
		if !ok {
			return 0
		}
		sf := StaticCallee(&sp.Call)
		if sf == nil || FnName(sf) != "strings.Split" {
			return 0
		}
		same := func(x, y ssa.Value) bool {
			if x == y {
				return true
			}
			kx, okx := x.(*ssa.Const)
			ky, oky := y.(*ssa.Const)
			if okx && oky && kx.Value != nil && ky.Value != nil {
				return kx.Value.ExactString() == ky.Value.ExactString()
			}
			px := a.path(x, 0)
			return px != "" && px == a.path(y, 0)
		}
		if same(sp.Call.Args[0], c.Args[0]) && same(sp.Call.Args[1], c.Args[1]) {
			return 2
		}
	case "utils.IsNodeRefValue":
		// the $ref and its value
		if n, ok := c.Args[0].(*ssa.Call); ok {
			if nf := StaticCallee(&n.Call); nf != nil && FnName(nf) == "utils.NodeAlias" && p == a.path(n, 0)+".Content" {
				return 2
			}
		}
	}
	return 0
}

func (a *lenAn) implies(v ssa.Value, p string, k int64, depth int) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return a.condLen(v, true, nil, p) >= k
	}
	if depth > 3 {
		return false
	}
	for i, e := range ph.Edges {
		if c, isK := e.(*ssa.Const); isK && c.Value != nil && c.Value.String() == "false" {
			continue
		}
		pb := ph.Block().Preds[i]
		if !a.atLeast(nil, p, k, pb.Instrs[len(pb.Instrs)-1], 0) && !a.implies(e, p, k, depth+1) {
			return false
		}
	}
	return true
}

func (a *lenAn) isLen(x, v ssa.Value, p string) bool {
	c, ok := x.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	arg := c.Call.Args[0]
	return arg == v || p != "" && a.path(arg, 0) == p
}

// made: v was made with at least k elements.
func (a *lenAn) made(v ssa.Value, k int64, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok {
			n, _ := constant.Int64Val(c.Value)
			return n >= k
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil {
			if c, ok := x.High.(*ssa.Const); ok && c.Value != nil {
				n, _ := constant.Int64Val(constant.ToInt(c.Value))
				return n >= k
			}
			if x.High != nil {
				return false
			}
			if ar, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return ar.Len() >= k
			}
		}
	case *ssa.Call:
		if f := StaticCallee(&x.Call); f != nil {
			if p := fnPkg(f); p != nil && p.Path() == "strings" && (f.Name() == "Split" || f.Name() == "SplitN") {
				return k <= 1
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if a.made(x.Call.Args[0], k, depth+1) || len(x.Call.Args) > 1 && a.made(x.Call.Args[1], k, depth+1) {
				return true
			}
		}
	case *ssa.Phi:
		// around a loop only append leads back here, and it never shortens a list
		if a.phis[x] {
			return true
		}
		if a.phis == nil {
			a.phis = map[*ssa.Phi]bool{}
		}
		a.phis[x] = true
		defer delete(a.phis, x)
		for _, e := range x.Edges {
			if !a.made(e, k, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func checkShort(w *World, r *Reporter) {
	a := &lenAn{nilAn: &nilAn{w: w, getters: map[*ssa.Function]string{}, safe: map[*ssa.Function]int{}}, busy: map[string]bool{}}
	for _, fn := range w.fns {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				k, _ := constant.Int64Val(c.Value)
				p := a.path(ia.X, 0)
				key := FnName(rootFn(fn)) + ":" + p + "[" + strconv.FormatInt(k, 10) + "]"
				r.Fn(FnName(rootFn(fn)))
				if _, ok := longEnough[FnName(rootFn(fn))+"["+strconv.FormatInt(k, 10)+"]"]; ok {
					r.OK("short", key)
					continue
				}
				if a.atLeast(ia.X, p, k+1, ia, 0) {
					r.OK("short", key)
					continue
				}
				r.Bad("short", key, w.InstrPos(in), fmt.Sprintf("%s takes element %d of %s without looking whether there is one", FnName(rootFn(fn)), k, p))
			}
		}
	}
}
