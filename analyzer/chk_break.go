package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: a reported change is breaking exactly when the rule configured for its component,
// property and kind of change says so.

// sym is a string known statically: a constant, a parameter still to be filled in by the
// caller, or a field of the property check being processed.
type sym struct {
	S  string
	P  *ssa.Parameter
	F  string
	Ok bool
}

func (s sym) String() string {
	switch {
	case !s.Ok:
		return "?"
	case s.P != nil:
		return "<" + s.P.Name() + ">"
	case s.F != "":
		return "check." + s.F
	}
	return s.S
}

// brkAtom is one possible source of a breaking flag.
type brkAtom struct {
	K          string // rule, const, legacy, param, unknown
	Slot       string // Added, Modified, Removed
	Comp, Prop sym
	B          bool
	P          *ssa.Parameter
	Fn         *ssa.Function // call: result of this function, not yet evaluated
	Args       []ssa.Value   // call: constants, parameters of the enclosing function, or nil
}

func (a brkAtom) String() string {
	switch a.K {
	case "rule":
		return fmt.Sprintf("rule(%s.%s:%s)", a.Comp, a.Prop, a.Slot)
	case "const":
		return fmt.Sprint(a.B)
	case "param":
		return "<" + a.P.Name() + ">"
	}
	return a.K
}

// brkEv is one place where a change (or a property check) gets its classification.
type brkEv struct {
	Check bool // property check: one rule for the three kinds
	Kind  string
	KindP *ssa.Parameter
	Label sym
	Comp  sym // property checks
	Prop  sym
	Atoms []brkAtom
	Pos   string
	Fn    *ssa.Function
}

func (e *brkEv) open() bool {
	if e.KindP != nil || e.Label.P != nil || e.Check && (e.Comp.P != nil || e.Prop.P != nil) {
		return true
	}
	for _, a := range e.Atoms {
		if a.K == "param" || a.K == "rule" && (a.Comp.P != nil || a.Prop.P != nil || a.P != nil) {
			return true
		}
		for _, x := range a.Args {
			if _, ok := x.(*ssa.Parameter); ok {
				return true
			}
		}
	}
	return false
}

type brkWalker struct {
	w     *World
	memo  map[*ssa.Function][]brkEv
	busy  map[*ssa.Function]bool
	depth int
}

// reach resolves a value through local variables and captured variables to the values it
// may hold.
func localVals(f *Family, v ssa.Value, depth int, seen map[ssa.Value]bool) []ssa.Value {
	if depth > 12 || seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		var out []ssa.Value
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				// short-circuit: the constant stands for the value of the condition
				p := x.Block().Preds[i]
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
					if cl, ok := iff.Cond.(*ssa.Call); ok && (constant.BoolVal(c.Value) == (p.Succs[0] == x.Block())) {
						out = append(out, cl)
						continue
					}
				}
			}
			out = append(out, localVals(f, e, depth+1, seen)...)
		}
		return out
	case *ssa.ChangeType:
		return localVals(f, x.X, depth+1, seen)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			var allocs []ssa.Value
			switch a := x.X.(type) {
			case *ssa.Alloc:
				allocs = append(allocs, a)
			case *ssa.FreeVar:
				allocs = append(allocs, f.binds[a]...)
			}
			var out []ssa.Value
			ok := len(allocs) > 0
			for _, a := range allocs {
				al, is := a.(*ssa.Alloc)
				if !is {
					ok = false
					continue
				}
				for _, r := range *al.Referrers() {
					if st, is := r.(*ssa.Store); is && st.Addr == al {
						out = append(out, localVals(f, st.Val, depth+1, seen)...)
					}
				}
			}
			if ok && len(out) > 0 {
				return out
			}
		}
	case *ssa.FreeVar:
		var out []ssa.Value
		for _, b := range f.binds[x] {
			out = append(out, localVals(f, b, depth+1, seen)...)
		}
		if len(out) > 0 {
			return out
		}
	}
	return []ssa.Value{v}
}

func (b *brkWalker) symOf(f *Family, v ssa.Value) sym {
	if v == nil {
		return sym{}
	}
	vs := []ssa.Value{v}
	if f != nil {
		vs = localVals(f, v, 0, map[ssa.Value]bool{})
	}
	if len(vs) != 1 {
		return sym{}
	}
	switch x := vs[0].(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return sym{S: constant.StringVal(x.Value), Ok: true}
		}
	case *ssa.Parameter:
		return sym{P: x, Ok: true}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && IsType(fa.X.Type(), wcPath, "PropertyCheck") {
			return sym{F: structFieldOf(fa.X.Type(), fa.Field).Name(), Ok: true}
		}
	case *ssa.Call:
		// strings.ToLower(const) and the like
		if calleeFull(x.Common()) == "strings.ToLower" {
			s := b.symOf(f, x.Call.Args[0])
			s.S = strings.ToLower(s.S)
			return s
		}
	}
	return sym{}
}

var kindSlot = map[string]string{"added": "Added", "removed": "Removed", "both": "Modified"}

// ruleOf: the rule object a pointer denotes: the GetRule call it came from.
func (b *brkWalker) ruleOf(f *Family, v ssa.Value) (comp, prop sym, ok bool) {
	for _, x := range localVals(f, v, 0, map[ssa.Value]bool{}) {
		if c, is := x.(*ssa.Call); is {
			if cal := c.Common().StaticCallee(); cal != nil && cal.Name() == "GetRule" && len(c.Call.Args) == 3 {
				return b.symOf(f, c.Call.Args[1]), b.symOf(f, c.Call.Args[2]), true
			}
		}
	}
	return
}

func (b *brkWalker) atoms(f *Family, v ssa.Value) []brkAtom {
	var out []brkAtom
	if v == nil {
		return []brkAtom{{K: "unknown"}}
	}
	vs := []ssa.Value{v}
	if f != nil {
		vs = localVals(f, v, 0, map[ssa.Value]bool{})
	}
	for _, x := range vs {
		switch x := x.(type) {
		case *ssa.Const:
			out = append(out, brkAtom{K: "const", B: x.Value != nil && constant.BoolVal(x.Value)})
		case *ssa.Parameter:
			out = append(out, brkAtom{K: "param", P: x})
		case *ssa.UnOp:
			if u, ok := x.X.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && IsType(fa.X.Type(), wcPath, "BreakingChangeRule") {
					c, p, ok := b.ruleOf(f, fa.X)
					if !ok {
						out = append(out, brkAtom{K: "unknown"})
						continue
					}
					out = append(out, brkAtom{K: "rule", Slot: structFieldOf(fa.X.Type(), fa.Field).Name(), Comp: c, Prop: p})
					continue
				}
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && IsType(fa.X.Type(), wcPath, "PropertyCheck") && structFieldOf(fa.X.Type(), fa.Field).Name() == "Breaking" {
				out = append(out, brkAtom{K: "legacy"})
				continue
			}
			out = append(out, brkAtom{K: "unknown"})
		case *ssa.Call:
			out = append(out, b.callAtoms(f, x)...)
		default:
			out = append(out, brkAtom{K: "unknown"})
		}
	}
	return out
}

// callAtoms: the result of a package function that yields a breaking flag.
func (b *brkWalker) callAtoms(f *Family, c *ssa.Call) []brkAtom {
	cal := c.Common().StaticCallee()
	if cal == nil || fnPkg(cal) == nil || fnPkg(cal).Path() != wcPath || len(cal.Blocks) == 0 {
		return []brkAtom{{K: "unknown"}}
	}
	if cal.Name() == "IsBreaking" && len(c.Call.Args) == 4 {
		k, ok := constString(c.Call.Args[3])
		a := brkAtom{K: "rule", Comp: b.symOf(f, c.Call.Args[1]), Prop: b.symOf(f, c.Call.Args[2])}
		if ok {
			a.Slot = strings.ToUpper(k[:1]) + k[1:]
			return []brkAtom{a}
		}
		if s := b.symOf(f, c.Call.Args[3]); s.P != nil {
			a.P = s.P // slot still open
			return []brkAtom{a}
		}
		return []brkAtom{{K: "unknown"}}
	}
	a := brkAtom{K: "call", Fn: cal}
	for _, x := range c.Call.Args {
		vs := localVals(f, x, 0, map[ssa.Value]bool{})
		var v ssa.Value
		if len(vs) == 1 {
			switch vs[0].(type) {
			case *ssa.Const, *ssa.Parameter:
				v = vs[0]
			}
		}
		a.Args = append(a.Args, v)
	}
	return b.expand(a)
}

// expand evaluates the function behind a call atom for the arguments known so far, taking
// only the branches those arguments allow.
func (b *brkWalker) expand(a brkAtom) []brkAtom {
	cal := a.Fn
	if b.depth > 6 {
		return []brkAtom{{K: "unknown"}}
	}
	b.depth++
	defer func() { b.depth-- }()
	env := map[ssa.Value]ssa.Value{}
	for i, p := range cal.Params {
		if i < len(a.Args) && a.Args[i] != nil {
			env[p] = a.Args[i]
		}
	}
	cval := func(v ssa.Value) (constant.Value, bool) {
		if e, ok := env[v]; ok {
			v = e
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			return c.Value, true
		}
		return nil, false
	}
	seen := map[*ssa.BasicBlock]bool{}
	open := false
	var rets []*ssa.Return
	var walk func(blk *ssa.BasicBlock)
	walk = func(blk *ssa.BasicBlock) {
		if seen[blk] {
			return
		}
		seen[blk] = true
		last := blk.Instrs[len(blk.Instrs)-1]
		if rt, ok := last.(*ssa.Return); ok {
			rets = append(rets, rt)
		}
		if iff, ok := last.(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				x, ok1 := cval(bo.X)
				y, ok2 := cval(bo.Y)
				if ok1 && ok2 {
					t := constant.Compare(x, bo.Op, y)
					if t {
						walk(blk.Succs[0])
					} else {
						walk(blk.Succs[1])
					}
					return
				}
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if p, ok := env[o].(*ssa.Parameter); ok && p != nil {
						open = true
					}
				}
			}
		}
		for _, s := range blk.Succs {
			walk(s)
		}
	}
	walk(cal.Blocks[0])
	if open {
		return []brkAtom{a}
	}
	cf := b.w.Family(cal)
	args := make([]ssa.Value, len(a.Args))
	for i := range args {
		args[i] = a.Args[i]
	}
	var out []brkAtom
	for _, rt := range rets {
		if len(rt.Results) != 1 {
			continue
		}
		v := rt.Results[0]
		vals := []ssa.Value{v}
		if ph, ok := v.(*ssa.Phi); ok && seen[ph.Block()] {
			vals = nil
			for i, e := range ph.Edges {
				if seen[ph.Block().Preds[i]] {
					vals = append(vals, e)
				}
			}
		}
		for _, v := range vals {
			out = append(out, b.subst(nil, b.atoms(cf, v), cal, args)...)
		}
	}
	return out
}

func (b *brkWalker) subSym(f *Family, s sym, cal *ssa.Function, args []ssa.Value) sym {
	if s.P == nil {
		return s
	}
	for i, p := range cal.Params {
		if p == s.P && i < len(args) {
			return b.symOf(f, args[i])
		}
	}
	return sym{}
}

func (b *brkWalker) subst(f *Family, in []brkAtom, cal *ssa.Function, args []ssa.Value) []brkAtom {
	var out []brkAtom
	for _, a := range in {
		switch a.K {
		case "param":
			done := false
			for i, p := range cal.Params {
				if p == a.P && i < len(args) {
					out = append(out, b.atoms(f, args[i])...)
					done = true
				}
			}
			if !done {
				out = append(out, brkAtom{K: "unknown"})
			}
		case "rule":
			n := a
			n.Comp = b.subSym(f, a.Comp, cal, args)
			n.Prop = b.subSym(f, a.Prop, cal, args)
			if a.P != nil {
				n.P = nil
				s := b.subSym(f, sym{P: a.P, Ok: true}, cal, args)
				switch {
				case s.P != nil:
					n.P = s.P
				case s.Ok && s.S != "":
					n.Slot = strings.ToUpper(s.S[:1]) + s.S[1:]
				default:
					n = brkAtom{K: "unknown"}
				}
			}
			out = append(out, n)
		case "call":
			n := a
			n.Args = nil
			for _, x := range a.Args {
				var v ssa.Value = x
				if p, ok := x.(*ssa.Parameter); ok {
					v = nil
					for i, q := range cal.Params {
						if q == p && i < len(args) && args[i] != nil {
							vs := []ssa.Value{args[i]}
							if f != nil {
								vs = localVals(f, args[i], 0, map[ssa.Value]bool{})
							}
							if len(vs) == 1 {
								switch vs[0].(type) {
								case *ssa.Const, *ssa.Parameter:
									v = vs[0]
								}
							}
						}
					}
				}
				n.Args = append(n.Args, v)
			}
			out = append(out, b.expand(n)...)
		default:
			out = append(out, a)
		}
	}
	return out
}

func (b *brkWalker) Events(root *ssa.Function) []brkEv {
	root = rootFn(root)
	if e, ok := b.memo[root]; ok {
		return e
	}
	if b.busy[root] {
		return nil
	}
	b.busy[root] = true
	defer delete(b.busy, root)
	f := b.w.Family(root)
	var out []brkEv
	kind := func(e *brkEv, v ssa.Value) {
		vs := localVals(f, v, 0, map[ssa.Value]bool{})
		if len(vs) != 1 {
			return
		}
		if k, ok := changeKind(b.w, vs[0]); ok {
			e.Kind = k
		} else if p, ok := vs[0].(*ssa.Parameter); ok {
			e.KindP = p
		}
	}
	for _, g := range f.fns {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && al.Referrers() != nil {
					isC, isP := IsType(al.Type(), wcPath, "Change"), IsType(al.Type(), wcPath, "PropertyCheck")
					if _, isS := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !isS || !isC && !isP {
						continue
					}
					e := brkEv{Check: isP, Pos: b.w.InstrPos(in), Fn: root}
					n := 0
					for _, ref := range *al.Referrers() {
						fa, ok := ref.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, r2 := range *fa.Referrers() {
							st, ok := r2.(*ssa.Store)
							if !ok || st.Addr != fa {
								continue
							}
							n++
							switch structFieldOf(al.Type(), fa.Field).Name() {
							case "ChangeType":
								kind(&e, st.Val)
							case "Breaking":
								e.Atoms = append(e.Atoms, b.atoms(f, st.Val)...)
							case "Property":
								if isC {
									e.Label = b.symOf(f, st.Val)
								} else {
									e.Prop = b.symOf(f, st.Val)
								}
							case "Label":
								e.Label = b.symOf(f, st.Val)
							case "Component":
								e.Comp = b.symOf(f, st.Val)
							}
						}
					}
					if n > 0 {
						out = append(out, e)
					}
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().IsInvoke() {
					continue
				}
				cc := c.Common()
				callees := []*ssa.Function{}
				if s := cc.StaticCallee(); s != nil {
					if s.Parent() == nil {
						callees = append(callees, s)
					}
				} else {
					for _, x := range localVals(f, cc.Value, 0, map[ssa.Value]bool{}) {
						if s, ok := x.(*ssa.Function); ok && s.Parent() == nil {
							callees = append(callees, s)
						}
					}
				}
				for _, cal := range callees {
					pk := fnPkg(cal)
					if pk == nil || pk.Path() != wcPath || len(cal.Blocks) == 0 {
						continue
					}
					for _, e := range b.Events(cal) {
						if !e.open() {
							continue
						}
						n := e
						n.Pos = b.w.InstrPos(in)
						n.Fn = root
						n.Label = b.subSym(f, e.Label, cal, cc.Args)
						n.Comp = b.subSym(f, e.Comp, cal, cc.Args)
						n.Prop = b.subSym(f, e.Prop, cal, cc.Args)
						n.Atoms = b.subst(f, e.Atoms, cal, cc.Args)
						if e.KindP != nil {
							n.KindP = nil
							for i, p := range cal.Params {
								if p == e.KindP && i < len(cc.Args) {
									kind(&n, cc.Args[i])
								}
							}
						}
						out = append(out, n)
					}
				}
			}
		}
	}
	b.memo[root] = out
	return out
}

// breakRules reads the configuration type: every component.property that can be configured.
func (w *World) breakRules(r *Reporter) map[string]bool {
	rules := map[string]bool{}
	cfg := w.Named("what-changed/model", "BreakingRulesConfig")
	if cfg == nil {
		return rules
	}
	st := cfg.Underlying().(*types.Struct)
	isRule := func(t types.Type) bool { return IsType(t, wcPath, "BreakingChangeRule") }
	tagName := func(tag, k string) string {
		s := reflect.StructTag(tag).Get(k)
		if i := strings.Index(s, ","); i >= 0 {
			s = s[:i]
		}
		return s
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if !fl.Exported() {
			continue
		}
		ptr, ok := fl.Type().(*types.Pointer)
		if !ok {
			continue
		}
		comp := tagName(st.Tag(i), "json")
		add := func(key, pos string, f *types.Var, tag string) {
			j, y := tagName(tag, "json"), tagName(tag, "yaml")
			switch {
			case j == "" || j != y:
				r.Bad("rule-keys", key, pos, fmt.Sprintf("field %s: its json name %q and its yaml name %q differ, so the rule is looked up under one name and configured under another", f.Name(), j, y))
			case rules[key]:
				r.Bad("rule-keys", key, pos, fmt.Sprintf("two fields of the configuration share the key %q", key))
			default:
				r.OK("rule-keys", key)
			}
			rules[key] = true
		}
		if isRule(fl.Type()) {
			add(comp, w.Pos(fl.Pos()), fl, st.Tag(i))
			continue
		}
		in, ok := ptr.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < in.NumFields(); j++ {
			if isRule(in.Field(j).Type()) {
				add(comp+"."+tagName(in.Tag(j), "json"), w.Pos(in.Field(j).Pos()), in.Field(j), in.Tag(j))
			}
		}
	}
	return rules
}

func symKey(c, p sym) string {
	if p.S == "" {
		return c.S
	}
	return c.S + "." + p.S
}

func init() {
	register("C04", "every change is classified by the configured rule of its own component and property for its own kind of change (added, modified, removed); every rule named in the comparison code exists in the configuration type, and every rule of the configuration has a default", checkBreaking)
}

func checkBreaking(w *World, r *Reporter) {
	rules := w.breakRules(r)
	r.Min("rule-keys", 150)
	b := &brkWalker{w: w, memo: map[*ssa.Function][]brkEv{}, busy: map[*ssa.Function]bool{}}
	all := map[*types.Named]*Model{}
	for _, m := range w.AllLow() {
		all[m.N] = m
	}
	for _, fn := range w.fns {
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if fn.Parent() != nil || fnPkg(fn) == nil || fnPkg(fn).Path() != wcPath {
			continue
		}
		evs := b.Events(fn)
		if len(evs) == 0 {
			continue
		}
		r.Fn(FnName(fn))
		var owner []*Model
		if fn.Signature.Params().Len() > 0 && fn.Signature.Recv() == nil {
			owner = w.comparedTypes(fn, all)
		}
		for _, e := range evs {
			lab := e.Label.String()
			key := fn.Name() + ":" + e.Kind + ":" + lab
			if e.Check {
				key = fn.Name() + ":check:" + lab
			}
			if !e.Check && e.Kind == "" && e.KindP == nil {
				r.Bad("kind", key, e.Pos, "the kind of the change recorded here is not one of the constants, so its rule cannot be determined")
				continue
			}
			type cp struct{ c, p sym }
			var pairs []cp
			if e.Check && e.Comp.Ok {
				pairs = append(pairs, cp{e.Comp, e.Prop})
			}
			slots := map[string]bool{}
			onlyConst, hasRule, unknown := true, false, false
			for _, a := range e.Atoms {
				switch a.K {
				case "rule":
					hasRule, onlyConst = true, false
					pairs = append(pairs, cp{a.Comp, a.Prop})
					if a.Slot != "" {
						slots[a.Slot] = true
					}
				case "const":
				case "unknown":
					onlyConst = false
					unknown = true
				default:
					onlyConst = false
				}
			}
			if unknown {
				if alsoBreaking[lab] == "" || !hasRule {
					r.Bad("classified", key, e.Pos, fmt.Sprintf("%s: the breaking flag of %q does not come from its rule", fn.Name(), lab))
				} else {
					r.OK("classified", key)
				}
			}
			if !e.Check && e.Kind != "" && hasRule {
				want := kindSlot[e.Kind]
				ok := true
				for s := range slots {
					if s != want {
						ok = false
						r.Bad("slot", key, e.Pos, fmt.Sprintf("%s: this change is recorded as %s but classified by the %s rule", fn.Name(), e.Kind, s))
					}
				}
				if ok {
					r.OK("slot", key)
				}
			}
			if !e.Check && onlyConst && len(e.Atoms) > 0 || e.Check && !e.Comp.Ok {
				if rk := configurable(rules, owner, e.Label); rk != "" {
					if _, ok := constBreaking[fn.Name()+":"+lab]; !ok {
						r.Bad("configured", key, e.Pos, fmt.Sprintf("%s: the change %q is classified by a fixed value although the configuration has a rule for it, %s", fn.Name(), lab, rk))
					}
				} else {
					r.OK("configured", key)
				}
			}
			for _, p := range pairs {
				if p.c.P != nil || p.p.P != nil || p.c.F != "" {
					if p.c.F != "" && (p.c.F != "Component" || p.p.F != "Property") {
						r.Bad("rule-exists", key, e.Pos, "the rule is not looked up under the component and property of the check")
					}
					continue
				}
				if !p.c.Ok {
					r.Bad("rule-exists", key, e.Pos, fmt.Sprintf("%s: the component of the rule applied to %q is not a constant", fn.Name(), lab))
					continue
				}
				rk := symKey(p.c, p.p)
				if e.Check && !rules[rk] && !hasRule {
					r.OK("rule-exists", key+":fixed") // falls back to the fixed classification given
					continue
				}
				if rules[rk] {
					r.OK("rule-exists", key+":"+rk)
				} else if _, ok := ruleMissing[rk]; !ok {
					r.Bad("rule-exists", key+":"+rk, e.Pos, fmt.Sprintf("%s classifies %q by the rule %s, which the configuration does not have, so it cannot be configured and is never breaking", fn.Name(), lab, rk))
				}
				if e.Label.Ok && e.Label.P == nil && e.Label.S != "" {
					prop := p.p.S
					if prop == "" {
						prop = p.c.S
					}
					if strings.EqualFold(strings.TrimPrefix(prop, "$"), strings.TrimPrefix(e.Label.S, "$")) || breakLabel[fn.Name()+":"+e.Label.S] == rk || breakLabel[e.Label.S] == rk {
						r.OK("own-rule", key+":"+rk)
					} else {
						r.Bad("own-rule", key+":"+rk, e.Pos, fmt.Sprintf("%s reports %q but classifies it by the rule of %s", fn.Name(), e.Label.S, rk))
					}
				}
				for _, m := range owner {
					n := m.N.Obj().Name()
					ok := strings.EqualFold(n, p.c.S) || compOwner[n+":"+p.c.S] != "" || p.p.S == ""
					if ok {
						r.OK("own-component", key+":"+rk)
						break
					}
					if m == owner[len(owner)-1] {
						r.Bad("own-component", key+":"+rk, e.Pos, fmt.Sprintf("%s compares %s objects but classifies %q by the rule of another object, %s", fn.Name(), n, lab, rk))
					}
				}
			}
		}
	}
	r.Min("slot", 150)
	r.Min("rule-exists", 200)
	checkDefaults(w, r)
	checkSlots(w, r, b)
}

// Reports classified by a fixed value although a rule with their name exists.
var constBreaking = map[string]string{}

// Rules used directly that the configuration does not have.
var ruleMissing = map[string]string{}

// Labels whose rule has another name. Key: label, or function ":" label.
var breakLabel = map[string]string{
	"swagger":                          "openapi",           // the v2 version keyword
	"CompareExamples:example":          "example.value",     // the whole example, when one side has none
	"CompareSchemas:dependentSchemas":  "schema.properties", // maps of schemas share the properties rule
	"CompareSchemas:patternProperties": "schema.properties",
	"CompareSchemas:schema":            "schemas",              // the whole schema, when one side has none
	"$schema":                          "schema.schemaDialect", // rule name of $schema
}

// Objects classified by a rule of the object that holds them. Key: type ":" component.
var compOwner = map[string]string{
	"Callback:operation":            "a whole callback is classified by operation.callbacks",
	"ExternalDoc:externalDocs":      "component name of external documentation",
	"Scopes:oauthFlow":              "the v2 scopes object",
	"SecurityRequirement:operation": "a whole requirement is classified by operation.security",
}

// Changes whose rule can be overridden by the document: an added parameter is breaking when
// it is required, whatever the rule says.
var alsoBreaking = map[string]string{"parameters": "adding a required parameter is always breaking"}

// checkDefaults: every rule of the configuration type has a default.
func checkDefaults(w *World, r *Reporter) {
	fn := w.Func("what-changed/model", "buildDefaultRules")
	cfg := w.Named("what-changed/model", "BreakingRulesConfig")
	if fn == nil || cfg == nil {
		return
	}
	set := map[*types.Var]bool{}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		if seen[f] || f == nil || fnPkg(f) == nil || fnPkg(f).Path() != wcPath {
			return
		}
		seen[f] = true
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						reach(cal)
					}
				}
			}
		}
	}
	reach(fn)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && !isNilConst(st.Val) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						set[structFieldOf(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	var check func(t *types.Struct, prefix string)
	check = func(t *types.Struct, prefix string) {
		for i := 0; i < t.NumFields(); i++ {
			fl := t.Field(i)
			p, ok := fl.Type().(*types.Pointer)
			if !ok || !fl.Exported() {
				continue
			}
			name := prefix + fl.Name()
			if set[fl] {
				r.OK("default", name)
			} else {
				r.Bad("default", name, w.Pos(fl.Pos()), fmt.Sprintf("the default rules do not set %s: a change of that kind is never breaking unless configured", name))
			}
			if st, ok := p.Elem().Underlying().(*types.Struct); ok && !IsType(fl.Type(), wcPath, "BreakingChangeRule") {
				check(st, name+".")
			}
		}
	}
	check(cfg.Underlying().(*types.Struct), "")
	r.Min("default", 200)
}

// checkSlots: wherever a rule is built from other rules, each slot comes from the same slot;
// wherever a whole collection of changes is reclassified, by the rule of its kind.
func checkSlots(w *World, r *Reporter, b *brkWalker) {
	for _, fn := range w.fns {
		if fnPkg(fn) == nil || fnPkg(fn).Path() != wcPath || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		f := w.Family(fn)
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !IsType(fa.X.Type(), wcPath, "BreakingChangeRule") {
						continue
					}
					to := structFieldOf(fa.X.Type(), fa.Field).Name()
					for _, v := range localVals(f, st.Val, 0, map[ssa.Value]bool{}) {
						u, ok := v.(*ssa.UnOp)
						if !ok {
							continue
						}
						if src, ok := u.X.(*ssa.FieldAddr); ok && IsType(src.X.Type(), wcPath, "BreakingChangeRule") {
							from := structFieldOf(src.X.Type(), src.Field).Name()
							key := fn.Name() + ":" + to + "<-" + from
							if from == to {
								r.OK("merge-slot", key)
							} else {
								r.Bad("merge-slot", key, w.InstrPos(in), fmt.Sprintf("%s fills the %s slot of a rule from the %s slot of another", fn.Name(), to, from))
							}
						}
					}
					continue
				}
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !storesBreaking(c.Call.StaticCallee()) {
					continue
				}
				want := "Modified"
				if len(fn.Params) == 2 && types.Identical(fn.Params[0].Type(), fn.Params[1].Type()) {
					if knownNil(blk, fn.Params[0]) {
						want = "Added"
					} else if knownNil(blk, fn.Params[1]) {
						want = "Removed"
					}
				}
				for i, a := range c.Call.Args {
					if bt, ok := a.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
						continue
					}
					for _, at := range b.atoms(f, c.Call.Args[i]) {
						if at.K != "rule" {
							continue
						}
						key := FnName(fn) + ":" + want
						if at.Slot == want {
							r.OK("override-slot", key)
						} else {
							r.Bad("override-slot", key, w.InstrPos(in), fmt.Sprintf("%s: changes of kind %s are reclassified by the %s rule", FnName(fn), want, at.Slot))
						}
					}
				}
			}
		}
	}
	r.Min("merge-slot", 6)
}

func storesBreaking(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && IsType(fa.X.Type(), wcPath, "Change") && structFieldOf(fa.X.Type(), fa.Field).Name() == "Breaking" {
					if _, isAl := fa.X.(*ssa.Alloc); !isAl {
						return true
					}
				}
			}
		}
	}
	return false
}

// knownNil: the block only runs when v is nil.
func knownNil(blk *ssa.BasicBlock, v ssa.Value) bool {
	for b := blk; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			return false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			continue
		}
		side := 0
		if bo.Op == token.NEQ {
			side = 1
		} else if bo.Op != token.EQL {
			continue
		}
		s := d.Succs[side]
		if len(s.Preds) == 1 && s.Dominates(blk) {
			return true
		}
	}
	return false
}

// configurable: the rule of the configuration that speaks about this label of this object.
func configurable(rules map[string]bool, owner []*Model, label sym) string {
	if !label.Ok || label.S == "" {
		return ""
	}
	for rk := range rules {
		c, p, _ := strings.Cut(rk, ".")
		if !strings.EqualFold(strings.TrimPrefix(p, "$"), strings.TrimPrefix(label.S, "$")) {
			continue
		}
		for _, m := range owner {
			if strings.EqualFold(m.N.Obj().Name(), c) || compOwner[m.N.Obj().Name()+":"+c] != "" {
				return rk
			}
		}
	}
	return ""
}
