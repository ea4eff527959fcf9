package main

import (
	"fmt"
	"go/types"
	"io"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Org is an abstract origin: a parameter of the family's root function, optionally
// narrowed to one top-level field of the struct that parameter points to.
type Org struct {
	Root  *ssa.Parameter
	Field *types.Var
	Part  string // field of a low-level reference struct selected below Field (Value, KeyNode, ...)
	KV    string // "K" or "V": key or value side of an ordered map
}

// OrgSet is a set of origins.
type OrgSet map[Org]bool

func (s OrgSet) addAll(o OrgSet) bool {
	ch := false
	for k := range o {
		if !s[k] {
			s[k] = true
			ch = true
		}
	}
	return ch
}

func (s OrgSet) clone() OrgSet {
	n := OrgSet{}
	n.addAll(s)
	return n
}

func (s OrgSet) String() string {
	var out []string
	for o := range s {
		n := o.Root.Name()
		if o.Field != nil {
			n += "." + o.Field.Name()
		}
		if o.Part != "" {
			n += "." + o.Part
		}
		if o.KV != "" {
			n += "#" + o.KV
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// Family is the derivation analysis of one outermost function and its closures.
// val[v]: which parameters/fields the value v is derived from.
// mem[b]: what has been stored into memory rooted at base b.
type Family struct {
	w     *World
	root  *ssa.Function
	fns   []*ssa.Function // root + nested anonymous functions
	val   map[ssa.Value]OrgSet
	mem   map[ssa.Value]OrgSet
	kmem  map[ssa.Value]OrgSet      // keys stored into local maps
	pmem  map[*ssa.Parameter]OrgSet // what the function stores into memory reachable from a root parameter
	ret   []OrgSet                  // per result index
	done  bool
	binds map[*ssa.FreeVar][]ssa.Value
	// closure parameter sources
	calls map[*ssa.Function][]*ssa.CallCommon // calls in which a family closure is passed or called
	sites map[*ssa.Function][]ssa.Instruction // where closures are made
}

func collectFamily(fn *ssa.Function, out *[]*ssa.Function) {
	*out = append(*out, fn)
	for _, a := range fn.AnonFuncs {
		collectFamily(a, out)
	}
}

// Family returns the (memoised) derivation analysis for fn's outermost function.
func (w *World) Family(fn *ssa.Function) *Family {
	fn = rootFn(fn)
	if f, ok := w.fl[fn]; ok {
		return f
	}
	f := &Family{w: w, root: fn, val: map[ssa.Value]OrgSet{}, mem: map[ssa.Value]OrgSet{}, kmem: map[ssa.Value]OrgSet{}, pmem: map[*ssa.Parameter]OrgSet{},
		binds: map[*ssa.FreeVar][]ssa.Value{}, calls: map[*ssa.Function][]*ssa.CallCommon{}, sites: map[*ssa.Function][]ssa.Instruction{}}
	w.fl[fn] = f
	collectFamily(fn, &f.fns)
	n := fn.Signature.Results().Len()
	f.ret = make([]OrgSet, n)
	for i := range f.ret {
		f.ret[i] = OrgSet{}
	}
	for _, g := range f.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					cf := mc.Fn.(*ssa.Function)
					f.sites[cf] = append(f.sites[cf], in)
					for i, fv := range cf.FreeVars {
						if i < len(mc.Bindings) {
							f.binds[fv] = append(f.binds[fv], mc.Bindings[i])
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					ops := append([]ssa.Value{cc.Value}, cc.Args...)
					for _, a := range ops {
						for _, cf := range closureFns(a, 0) {
							f.calls[cf] = append(f.calls[cf], cc)
							f.sites[cf] = append(f.sites[cf], in)
						}
					}
				}
			}
		}
	}
	for _, p := range fn.Params {
		f.val[p] = OrgSet{Org{Root: p}: true}
	}
	for i := 0; i < 60; i++ {
		if !f.pass() {
			break
		}
	}
	f.done = true
	return f
}

// closureFns resolves a value to the function literals it may denote.
func closureFns(v ssa.Value, depth int) []*ssa.Function {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		if x.Parent() != nil {
			return []*ssa.Function{x}
		}
	case *ssa.ChangeType:
		return closureFns(x.X, depth+1)
	case *ssa.MakeInterface:
		return closureFns(x.X, depth+1)
	case *ssa.UnOp:
		// load of a local cell holding a closure (recursive literals)
		cell := x.X
		for d := 0; d < 6; d++ {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			cell = binding(fv)
		}
		if al, ok := cell.(*ssa.Alloc); ok {
			var out []*ssa.Function
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					out = append(out, closureFns(st.Val, depth+1)...)
				}
			}
			return out
		}
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, closureFns(e, depth+1)...)
		}
		return out
	}
	return nil
}

func (f *Family) get(v ssa.Value) OrgSet {
	if s, ok := f.val[v]; ok {
		return s
	}
	s := OrgSet{}
	f.val[v] = s
	return s
}

func (f *Family) getMem(v ssa.Value) OrgSet {
	if s, ok := f.mem[v]; ok {
		return s
	}
	s := OrgSet{}
	f.mem[v] = s
	return s
}

// bases returns the memory roots of an address-like value.
func (f *Family) bases(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			rec(x.X)
		case *ssa.IndexAddr:
			rec(x.X)
		case *ssa.Slice:
			rec(x.X)
		case *ssa.Convert:
			rec(x.X)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.ChangeInterface:
			rec(x.X)
		case *ssa.MakeInterface:
			rec(x.X)
		case *ssa.TypeAssert:
			rec(x.X)
		case *ssa.Phi:
			out = append(out, x)
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.FreeVar:
			for _, b := range f.binds[x] {
				rec(b)
			}
		case *ssa.UnOp:
			out = append(out, x)
			var cells []ssa.Value
			switch a := x.X.(type) {
			case *ssa.Alloc:
				cells = append(cells, a)
			case *ssa.FreeVar:
				cells = append(cells, f.binds[a]...)
			case *ssa.FieldAddr:
				// the map embedded in an ordered map is the ordered map
				if n := namedOf(a.X.Type()); n != nil && n.Obj().Name() == "Map" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/orderedmap" {
					rec(a.X)
				}
			}
			for _, c := range cells {
				if al, ok := c.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al {
							rec(st.Val)
						}
					}
				}
			}
		case *ssa.Call:
			out = append(out, x)
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				rec(x.Call.Args[0])
			}
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		default:
			out = append(out, v)
		}
	}
	rec(v)
	return out
}

func (f *Family) memOf(v ssa.Value) OrgSet {
	s := OrgSet{}
	for _, b := range f.bases(v) {
		if m, ok := f.mem[b]; ok {
			s.addAll(m)
		}
	}
	return s
}

func (f *Family) keysOf(v ssa.Value) OrgSet {
	s := OrgSet{}
	for _, b := range f.bases(v) {
		if m, ok := f.kmem[b]; ok {
			s.addAll(m)
		}
	}
	return s
}

// storeKey records a map key. Keys surface only when the map is ranged over, not on lookup.
func (f *Family) storeKey(m ssa.Value, s OrgSet) bool {
	ch := false
	if len(s) == 0 {
		return false
	}
	for _, b := range f.bases(m) {
		if p, ok := b.(*ssa.Parameter); ok {
			if p.Parent() == f.root {
				if f.pmem[p] == nil {
					f.pmem[p] = OrgSet{}
				}
				if f.pmem[p].addAll(s) {
					ch = true
				}
			}
			continue
		}
		if f.kmem[b] == nil {
			f.kmem[b] = OrgSet{}
		}
		if f.kmem[b].addAll(s) {
			ch = true
		}
	}
	return ch
}

func (f *Family) storeTo(addr ssa.Value, s OrgSet) bool {
	ch := false
	if len(s) == 0 {
		return false
	}
	for _, b := range f.bases(addr) {
		if isReportAcc(b.Type()) {
			continue
		}
		if p, ok := b.(*ssa.Parameter); ok {
			if p.Parent() == f.root {
				if f.pmem[p] == nil {
					f.pmem[p] = OrgSet{}
				}
				if f.pmem[p].addAll(s) {
					ch = true
				}
			}
			continue
		}
		if f.getMem(b).addAll(s) {
			ch = true
		}
	}
	return ch
}

// isReportAcc: the type is an accumulator of reported differences (Change, PropertyCheck,
// slices of them). What was stored there says nothing about later conditions on it.
func isReportAcc(t types.Type) bool {
	for {
		switch x := types.Unalias(t).(type) {
		case *types.Pointer:
			t = x.Elem()
			continue
		case *types.Slice:
			t = x.Elem()
			continue
		case *types.Array:
			t = x.Elem()
			continue
		case *types.Named:
			o := x.Obj()
			return o.Pkg() != nil && o.Pkg().Path() == wcPath && (o.Name() == "Change" || o.Name() == "PropertyCheck" || strings.HasSuffix(o.Name(), "Changes"))
		}
		return false
	}
}

func structFieldOf(t types.Type, i int) *types.Var {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if st, ok := t.(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i)
	}
	return nil
}

func narrow(s OrgSet, fld *types.Var) OrgSet {
	out := OrgSet{}
	for o := range s {
		switch {
		case isRefPart(fld):
			if o.Part == "" {
				o.Part = fld.Name()
			}
		case o.Field == nil && fld != nil:
			o.Field = fld
			o.Part = ""
		}
		out[o] = true
	}
	return out
}

// isRefPart: fld is a content field of one of the generic low reference structs.
func isRefPart(fld *types.Var) bool {
	if fld == nil || fld.Pkg() == nil || fld.Pkg().Path() != modPath+"/datamodel/low" {
		return false
	}
	switch fld.Name() {
	case "Value", "ValueNode", "KeyNode":
		return true
	}
	return false
}

func withKV(s OrgSet, kv string) OrgSet {
	out := OrgSet{}
	for o := range s {
		if o.KV == "" {
			o.KV = kv
		}
		out[o] = true
	}
	return out
}

const omPath = modPath + "/orderedmap"

// omModel classifies functions of the ordered map package by name: which side of the
// map the result carries ("K", "V", "" both), ok=false when c is not such a function.
func omModel(c *ssa.CallCommon) (kv string, ok bool) {
	var pkg *types.Package
	name := ""
	if c.IsInvoke() {
		pkg = c.Method.Pkg()
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		pkg = fnPkg(f)
		name = f.Name()
		if o := f.Origin(); o != nil {
			name = o.Name()
			pkg = fnPkg(o)
		}
		if f.Parent() != nil {
			return "", false
		}
	}
	if pkg == nil || (pkg.Path() != omPath && !strings.HasSuffix(pkg.Path(), "wk8/go-ordered-map/v2") && !strings.HasSuffix(pkg.Path(), "ordered-map/v2")) {
		return "", false
	}
	switch name {
	case "Key", "KeyPtr", "KeysFromOldest", "KeysFromNewest":
		return "K", true
	case "Value", "ValuePtr", "Get", "GetOrZero", "ValuesFromOldest", "ValuesFromNewest":
		return "V", true
	}
	return "", true
}

// iterKV says which map side closure parameter i receives when the closure is the body
// of a loop over the iterator value it.
func iterKV(it ssa.Value, i int) string {
	for d := 0; d < 6; d++ {
		switch x := it.(type) {
		case *ssa.ChangeType:
			it = x.X
			continue
		case *ssa.Call:
			name := ""
			if x.Call.IsInvoke() {
				name = x.Call.Method.Name()
			} else if f := x.Call.StaticCallee(); f != nil {
				name = f.Name()
				if o := f.Origin(); o != nil {
					name = o.Name()
				}
			}
			if _, ok := omModel(&x.Call); !ok {
				return ""
			}
			switch name {
			case "FromOldest", "FromNewest":
				return []string{"K", "V"}[i&1]
			case "KeysFromOldest", "KeysFromNewest":
				return "K"
			case "ValuesFromOldest", "ValuesFromNewest":
				return "V"
			}
			return ""
		}
		return ""
	}
	return ""
}

// compose substitutes argument origins for the callee's parameters.
func compose(s OrgSet, params []*ssa.Parameter, args []OrgSet) OrgSet {
	out := OrgSet{}
	for o := range s {
		idx := -1
		for i, p := range params {
			if p == o.Root {
				idx = i
			}
		}
		if idx < 0 || idx >= len(args) {
			continue
		}
		for a := range args[idx] {
			n := a
			if a.Field == nil {
				n.Field = o.Field
				if n.Part == "" || o.Field != nil {
					n.Part = o.Part
				}
			} else if n.Part == "" {
				n.Part = o.Part
			}
			if n.KV == "" {
				n.KV = o.KV
			}
			out[n] = true
		}
	}
	return out
}

func (f *Family) callArgs(c *ssa.CallCommon) []OrgSet {
	var out []OrgSet
	if c.IsInvoke() {
		out = append(out, f.valMem(c.Value))
	}
	for _, a := range c.Args {
		out = append(out, f.valMem(a))
	}
	return out
}

func (f *Family) valMem(v ssa.Value) OrgSet {
	s := f.get(v).clone()
	if isAddrLike(v.Type()) {
		s.addAll(f.memOf(v))
	}
	return s
}

func isAddrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	}
	return false
}

func (f *Family) callResult(c *ssa.CallCommon, idx int) OrgSet {
	if kv, ok := omModel(c); ok {
		out := OrgSet{}
		for _, a := range f.callArgs(c) {
			out.addAll(a)
		}
		if kv != "" {
			out = withKV(out, kv)
		}
		return out
	}
	if isHashCall(c) {
		out := OrgSet{}
		for _, a := range f.callArgs(c) {
			out.addAll(a)
		}
		return out
	}
	if rt := resultType(c, idx); rt != nil && f.w.isLowModelPtr(rt) {
		if callee := c.StaticCallee(); callee != nil && callee.Signature.Recv() != nil && len(c.Args) == 1 &&
			IsType(c.Args[0].Type(), modPath+"/datamodel/low/base", "SchemaProxy") && IsType(rt, modPath+"/datamodel/low/base", "Schema") {
			return f.get(c.Args[0]).clone() // the proxy stands for its schema
		}
		same := OrgSet{}
		found := false
		for _, a := range c.Args {
			if types.Identical(a.Type(), rt) {
				found = true
				same.addAll(f.get(a))
			}
		}
		if found {
			return same // a view of the same object
		}
	}
	if c.IsInvoke() {
		if impls := f.w.implsOf(c); len(impls) > 0 {
			out := OrgSet{}
			args := f.callArgs(c)
			all := true
			for _, m := range impls {
				cf := f.w.Family(m)
				if !cf.done {
					all = false
					continue
				}
				for i, r := range cf.ret {
					if idx < 0 || i == idx {
						out.addAll(compose(r, m.Params, args))
					}
				}
			}
			if all && len(out) > 0 {
				return out
			}
		}
	}
	if callee := c.StaticCallee(); callee != nil && !c.IsInvoke() && len(callee.Blocks) > 0 && inRepo(callee) && callee.Parent() == nil {
		cf := f.w.Family(callee)
		if cf.done {
			out := OrgSet{}
			args := f.callArgs(c)
			if idx >= 0 && idx < len(cf.ret) {
				out.addAll(compose(cf.ret[idx], callee.Params, args))
			} else {
				for _, r := range cf.ret {
					out.addAll(compose(r, callee.Params, args))
				}
			}
			return out
		}
	}
	if callee := c.StaticCallee(); callee != nil && callee.Parent() != nil && rootFn(callee) == f.root {
		out := OrgSet{}
		for _, b := range callee.Blocks {
			for _, in := range b.Instrs {
				if rt, ok := in.(*ssa.Return); ok {
					for i, v := range rt.Results {
						if idx < 0 || i == idx {
							out.addAll(f.valMem(v))
						}
					}
				}
			}
		}
		return out
	}
	out := OrgSet{}
	for _, a := range f.callArgs(c) {
		out.addAll(a)
	}
	if !c.IsInvoke() {
		out.addAll(f.get(c.Value))
	}
	return out
}

func (f *Family) pass() bool {
	ch := false
	add := func(v ssa.Value, s OrgSet) {
		if len(s) == 0 {
			return
		}
		if f.get(v).addAll(s) {
			ch = true
		}
	}
	for _, g := range f.fns {
		if g != f.root {
			for _, fv := range g.FreeVars {
				for _, b := range f.binds[fv] {
					add(fv, f.get(b))
				}
			}
			for i, p := range g.Params {
				for _, cc := range f.calls[g] {
					// direct call of the closure: positional; otherwise: everything else in the call
					direct := false
					for _, cf := range closureFns(cc.Value, 0) {
						if cf == g {
							direct = true
						}
					}
					if direct && !cc.IsInvoke() {
						if i < len(cc.Args) {
							add(p, f.valMem(cc.Args[i]))
						}
						continue
					}
					for _, a := range cc.Args {
						skip := false
						for _, cf := range closureFns(a, 0) {
							if cf == g {
								skip = true
							}
						}
						if !skip {
							add(p, f.valMem(a))
						}
					}
					if kv := iterKV(cc.Value, i); kv != "" {
						add(p, withKV(f.get(cc.Value), kv))
					} else {
						add(p, f.get(cc.Value))
					}
				}
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					add(x, narrow(f.get(x.X), structFieldOf(x.X.Type(), x.Field)))
				case *ssa.Field:
					add(x, narrow(f.get(x.X), structFieldOf(x.X.Type(), x.Field)))
				case *ssa.IndexAddr:
					add(x, f.get(x.X))
				case *ssa.Index:
					add(x, f.get(x.X))
				case *ssa.Lookup:
					add(x, f.valMem(x.X))
				case *ssa.Slice:
					add(x, f.get(x.X))
				case *ssa.UnOp:
					add(x, f.get(x.X))
					if x.Op.String() == "*" || x.Op.String() == "<-" {
						add(x, f.memOf(x.X))
					}
				case *ssa.BinOp:
					add(x, f.get(x.X))
					add(x, f.get(x.Y))
				case *ssa.Phi:
					for _, e := range x.Edges {
						add(x, f.get(e))
					}
				case *ssa.ChangeType:
					add(x, f.get(x.X))
				case *ssa.ChangeInterface:
					add(x, f.get(x.X))
				case *ssa.Convert:
					add(x, f.get(x.X))
				case *ssa.MultiConvert:
					add(x, f.get(x.X))
				case *ssa.SliceToArrayPointer:
					add(x, f.get(x.X))
				case *ssa.MakeInterface:
					add(x, f.get(x.X))
				case *ssa.TypeAssert:
					add(x, f.get(x.X))
				case *ssa.Extract:
					if c, ok := x.Tuple.(*ssa.Call); ok {
						add(x, f.callResult(&c.Call, x.Index))
					} else if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString {
						if rg, ok := nx.Iter.(*ssa.Range); ok {
							switch x.Index {
							case 1:
								add(x, f.get(rg.X))
								add(x, f.keysOf(rg.X))
							case 2:
								add(x, f.get(x.Tuple))
							}
						} else {
							add(x, f.get(x.Tuple))
						}
					} else {
						add(x, f.get(x.Tuple))
					}
				case *ssa.Range:
					add(x, f.valMem(x.X))
				case *ssa.Next:
					add(x, f.get(x.Iter))
				case *ssa.Select:
					for _, s := range x.States {
						add(x, f.memOf(s.Chan))
						add(x, f.get(s.Chan))
					}
				case *ssa.MakeClosure:
					for _, bd := range x.Bindings {
						add(x, f.get(bd))
					}
				case *ssa.Store:
					if f.storeTo(x.Addr, f.valMem(x.Val)) {
						ch = true
					}
				case *ssa.MapUpdate:
					if f.storeKey(x.Map, f.valMem(x.Key)) {
						ch = true
					}
					if f.storeTo(x.Map, f.valMem(x.Value)) {
						ch = true
					}
				case *ssa.Send:
					if f.storeTo(x.Chan, f.valMem(x.X)) {
						ch = true
					}
				case *ssa.Return:
					if g == f.root {
						for i, v := range x.Results {
							if f.ret[i].addAll(f.valMem(v)) {
								ch = true
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if v, ok := in.(ssa.Value); ok {
						add(v, f.callResult(cc, -1))
					}
					// side effects on memory reachable from pointer arguments
					args := cc.Args
					var all []ssa.Value
					if cc.IsInvoke() {
						all = append(all, cc.Value)
					}
					all = append(all, args...)
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" {
							if f.storeTo(args[0], f.valMem(args[1])) {
								ch = true
							}
						}
						continue
					}
					if callee := cc.StaticCallee(); callee != nil && !cc.IsInvoke() && inRepo(callee) && len(callee.Blocks) > 0 {
						if callee.Parent() != nil {
							continue // closures of this family are analysed in place
						}
						cf := f.w.Family(callee)
						if cf.done && len(cf.pmem) > 0 {
							argOrgs := f.callArgs(cc)
							for j, p := range callee.Params {
								if m := cf.pmem[p]; len(m) > 0 && j < len(args) {
									if f.storeTo(args[j], compose(m, callee.Params, argOrgs)) {
										ch = true
									}
								}
							}
						}
						continue
					}
					if callee := cc.StaticCallee(); callee == nil && !cc.IsInvoke() {
						if fv := funcValues(cc.Value, 0); len(fv) > 0 {
							argOrgs := f.callArgs(cc)
							for _, cand := range fv {
								if cand.Parent() != nil || len(cand.Blocks) == 0 || !inRepo(cand) {
									continue
								}
								cf := f.w.Family(cand)
								if !cf.done {
									continue
								}
								for j, p := range cand.Params {
									if m := cf.pmem[p]; len(m) > 0 && j < len(args) {
										if f.storeTo(args[j], compose(m, cand.Params, argOrgs)) {
											ch = true
										}
									}
								}
							}
							continue
						}
					}
					for i, a := range all {
						if !isAddrLike(a.Type()) {
							continue
						}
						for j, o := range all {
							if i == j {
								continue
							}
							if _, isFn := o.Type().Underlying().(*types.Signature); isFn {
								continue
							}
							if f.storeTo(a, f.get(o)) {
								ch = true
							}
						}
					}
				}
			}
		}
	}
	return ch
}

// Dump prints the derivation facts.
func (f *Family) Dump(out io.Writer) {
	for _, g := range f.fns {
		fmt.Fprintln(out, "==", g.String())
		for _, b := range g.Blocks {
			fmt.Fprintf(out, " block %d gates=%s\n", b.Index, f.Gates(b))
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					fmt.Fprintf(out, "   %s = %s   %s mem=%s\n", v.Name(), in, f.get(v), f.memOf(v))
				} else {
					fmt.Fprintf(out, "   %s\n", in)
				}
			}
		}
	}
}

// ---- control dependence ----

type ctrlDeps struct {
	deps map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // block -> blocks whose terminator controls it
}

func (w *World) ctrl(fn *ssa.Function) *ctrlDeps {
	if c, ok := w.cd[fn]; ok {
		return c
	}
	c := &ctrlDeps{deps: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	w.cd[fn] = c
	n := len(fn.Blocks)
	// post-dominator sets by iteration; virtual exit = n. Panicking blocks do not
	// count as exits that make others conditional: a block ending in panic is linked
	// to the exit as well (sound for control dependence).
	pdom := make([][]bool, n+1)
	for i := range pdom {
		pdom[i] = make([]bool, n+1)
		for j := range pdom[i] {
			pdom[i][j] = true
		}
	}
	for j := range pdom[n] {
		pdom[n][j] = j == n
	}
	succs := func(b *ssa.BasicBlock) []int {
		if len(b.Succs) == 0 {
			return []int{n}
		}
		var o []int
		for _, s := range b.Succs {
			if panics(s) && len(b.Succs) > 1 {
				continue // a conditional panic does not make the other side conditional
			}
			o = append(o, s.Index)
		}
		if len(o) == 0 {
			return []int{n}
		}
		return o
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := make([]bool, n+1)
			for j := range nw {
				nw[j] = true
			}
			for _, s := range succs(b) {
				for j := range nw {
					nw[j] = nw[j] && pdom[s][j]
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pdom[i][j] {
					changed = true
					pdom[i] = nw
					break
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		ss := succs(b)
		if len(ss) < 2 {
			continue
		}
		for _, s := range ss {
			if s == n {
				continue
			}
			for j := 0; j < n; j++ {
				if pdom[s][j] && (j == b.Index || !pdom[b.Index][j]) {
					x := fn.Blocks[j]
					if c.deps[x] == nil {
						c.deps[x] = map[*ssa.BasicBlock]bool{}
					}
					c.deps[x][b] = true
				}
			}
		}
	}
	return c
}

// CtrlBlocks returns the transitive set of blocks whose branch decides whether b runs.
func (w *World) CtrlBlocks(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	c := w.ctrl(b.Parent())
	out := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for d := range c.deps[x] {
			if !out[d] {
				out[d] = true
				work = append(work, d)
			}
		}
	}
	return out
}

// Gates returns the origins of all conditions that decide whether block b executes,
// following closures out to the family root.
func (f *Family) Gates(b *ssa.BasicBlock) OrgSet {
	out := OrgSet{}
	for d := range f.w.CtrlBlocks(b) {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && !isMemoHit(iff.Cond) {
			out.addAll(f.get(iff.Cond))
		}
	}
	g := b.Parent()
	if g != f.root {
		for _, s := range f.sites[g] {
			if s.Parent() != g {
				out.addAll(f.Gates(s.Block()))
			}
		}
	}
	return out
}

// isHashCall: a niladic Hash/QuickHash method returning uint64; its result stands for the
// whole receiver (that it does is the hash-coverage property itself).
func isHashCall(c *ssa.CallCommon) bool {
	var sig *types.Signature
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
		sig, _ = c.Method.Type().(*types.Signature)
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		name = f.Name()
		sig = f.Signature
	}
	if sig == nil || (name != "Hash" && name != "QuickHash") || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// isMemoHit: cond tests the outcome of a memo-table lookup (sync.Map.Load ok, or a
// comma-ok assertion on the value it returned).
func isMemoHit(v ssa.Value) bool {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Call:
			return calleeFull(&x.Call) == "(*sync.Map).Load"
		default:
			return false
		}
	}
	return false
}

func resultType(c *ssa.CallCommon, idx int) types.Type {
	res := c.Signature().Results()
	if res.Len() == 1 {
		return res.At(0).Type()
	}
	if idx >= 0 && idx < res.Len() {
		return res.At(idx).Type()
	}
	return nil
}

func (w *World) isLowModelPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if w.lowSet == nil {
		w.lowSet = map[*types.Named]bool{}
		for _, m := range w.LowModels() {
			w.lowSet[m.N] = true
		}
	}
	return w.lowSet[n]
}

// implsOf resolves an interface call to the repository types implementing the interface
// (at most 60), when the interface itself is declared in the repository's low packages.
func (w *World) implsOf(c *ssa.CallCommon) []*ssa.Function {
	m := c.Method
	if m.Pkg() == nil || !strings.HasPrefix(m.Pkg().Path(), modPath+"/datamodel/low") {
		return nil
	}
	if w.impls == nil {
		w.impls = map[string][]*ssa.Function{}
	}
	mk := c.Value.Type().String() + "." + m.Name()
	if r, ok := w.impls[mk]; ok {
		return r
	}
	var out []*ssa.Function
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if ok {
		for _, p := range w.pkgs {
			if !strings.HasPrefix(p.PkgPath, modPath+"/datamodel/low") {
				continue
			}
			sc := p.Types.Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				n, ok := tn.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 || types.IsInterface(n) {
					continue
				}
				if types.Implements(types.NewPointer(n), iface) {
					if fn := w.Method(n, m.Name()); fn != nil {
						out = append(out, fn)
					}
				}
			}
		}
	}
	if len(out) > 60 {
		out = nil
	}
	w.impls[mk] = out
	return out
}
