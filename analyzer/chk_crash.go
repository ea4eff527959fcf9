package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: what can be missing is looked at before it is used.

func init() {
	register("C10", "crash", func(w *World, r *Reporter) {
		checkMissing(w, r)
		checkShort(w, r)
		r.Min("missing", 2300)
		r.Min("short", 300)
	})
}

// nilSum: a result can be nil; cor holds the other results that say so (a non-nil error, a false)
// each time it is.
type nilSum struct {
	may   bool
	cor   map[int]bool
	bound bool
	all   map[int]bool    // as cor, for the returns that arg explains too
	arg   map[string]bool // nil only when one of these is: a parameter, or what is reached from it by fields
}

func (s nilSum) eq(o nilSum) bool {
	return s.may == o.may && s.bound == o.bound && len(s.all) == len(o.all) && len(s.cor) == len(o.cor) && len(s.arg) == len(o.arg) && (s.arg == nil) == (o.arg == nil)
}

type missAn struct {
	*nilAn
	sums  map[*ssa.Function][]nilSum
	needs map[*ssa.Function]map[int]int
}

// goTogether: results that are there whenever another one is, for a reason the analysis does not see.
var goTogether = map[string][]int{
	"datamodel/low.ExtractMap#1":           {0}, // the keyword's node is found together with its value
	"datamodel/low.ExtractMapExtensions#1": {0},
}

// neverMissing: results that are always there where they are used this way: caller>callee.
var neverMissing = map[string]string{
	"datamodel/high/v3.Document.RenderWithIndention>go.yaml.in/yaml/v4.NewDumper":                                    "the options are constants and valid",
	"utils.GenerateAlphanumericString>crypto/rand.Int":                                                               "fails only when the system has no randomness, and the program ends then",
	"index.RemoteFS.OpenWithContext>net/url.Parse":                                                                   "the same address was parsed just before",
	"datamodel/low/v2.Definitions.Hash>datamodel/low/v2.Definitions.FindSchema":                                      "looks up a key of the same map",
	"what-changed/model.ComparePaths>datamodel/low/v2.Paths.FindPathAndKey":                                          "looks up a key of the same map",
	"what-changed/model.ComparePaths>datamodel/low/v3.Paths.FindPathAndKey":                                          "looks up a key of the same map",
	"datamodel/high/base.Schema.MarshalJSON>datamodel/high/base.SchemaProxy.referenceYAMLNodeForSchema":              "a parsed reference with siblings has its node",
	"generator/golang.Generator.irFromOpenAPIName>datamodel/high/base.SchemaProxy.BuildTransformedRefSemanticSchema": "a transformed reference has a low-level schema, or a build error",
}

func nillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (a *missAn) sum(f *ssa.Function, i int) nilSum {
	if f == nil {
		return nilSum{}
	}
	res := f.Signature.Results()
	if !inRepo(f) || len(f.Blocks) == 0 {
		return a.extSum(f, i)
	}
	if s := a.sums[f]; i < len(s) {
		return s[i]
	}
	_ = res
	return nilSum{}
}

// extSum: what is known of functions outside the library.
func (a *missAn) extSum(f *ssa.Function, i int) nilSum {
	res := f.Signature.Results()
	if inRepo(f) || i >= res.Len() || !nillable(res.At(i).Type()) || isErrType(res.At(i).Type()) {
		return nilSum{}
	}
	for j := 0; j < res.Len(); j++ {
		if j != i && isErrType(res.At(j).Type()) {
			return nilSum{may: true, bound: true, cor: map[int]bool{j: true}, all: map[int]bool{j: true}}
		}
	}
	if p := fnPkg(f); p != nil && strings.Contains(p.Path(), "ordered-map") {
		switch f.Name() {
		case "Oldest", "Newest", "Next", "Prev", "GetPair":
			return nilSum{may: true, bound: true}
		}
	}
	return nilSum{}
}

func (a *missAn) build() {
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range a.w.fns {
			res := f.Signature.Results()
			if res.Len() == 0 {
				continue
			}
			old := a.sums[f]
			var now []nilSum
			for i := 0; i < res.Len(); i++ {
				now = append(now, a.summarise(f, i))
			}
			if old == nil {
				for _, s := range now {
					changed = changed || s.may
				}
			} else {
				for i := range now {
					if !now[i].eq(old[i]) {
						changed = true
					}
				}
			}
			a.sums[f] = now
		}
		if !changed {
			return
		}
	}
}

func (a *missAn) summarise(f *ssa.Function, i int) nilSum {
	res := f.Signature.Results()
	if !nillable(res.At(i).Type()) || isErrType(res.At(i).Type()) {
		return nilSum{}
	}
	out := nilSum{arg: map[string]bool{}}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[i]
		var because []string
		if k := paramIndex(f, v); k >= 0 {
			if a.checked(v, ret, nil) {
				continue
			}
			because = []string{fmt.Sprint(k)}
		} else if a.missing(v, ret, nil, map[ssa.Value]bool{}) == "" {
			if because = a.passOn(f, v); len(because) == 0 || a.signalled(v, ret) || a.checked(v, ret, nil) {
				continue
			}
		} else if because = a.passOn(f, v); because == nil {
			if k := a.nilParam(f, ret); k != "" {
				because = []string{k}
			}
		}
		cor := map[int]bool{}
		for j, u := range ret.Results {
			if j != i && a.says(v, u, ret, map[ssa.Value]bool{}) {
				cor[j] = true
			}
		}
		out.all = meet(out.all, cor)
		out.may = true
		if because != nil {
			for _, k := range because {
				out.arg[k] = true
			}
			continue
		}
		out.bound = true
		out.cor = meet(out.cor, cor)
	}
	return out
}

// meet: nil stands for everything.
func meet(a, b map[int]bool) map[int]bool {
	if a == nil {
		return b
	}
	out := map[int]bool{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

func paramIndex(f *ssa.Function, v ssa.Value) int {
	for k, p := range f.Params {
		if v == ssa.Value(p) {
			return k
		}
	}
	return -1
}

// passOn: v is the result of a call that depends only on parameters that are parameters here too.
func (a *missAn) passOn(f *ssa.Function, v ssa.Value) []string {
	var c *ssa.CallCommon
	i := 0
	switch x := v.(type) {
	case *ssa.Call:
		c = &x.Call
	case *ssa.Extract:
		t, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return nil
		}
		c, i = &t.Call, x.Index
	default:
		return nil
	}
	g := StaticCallee(c)
	if g == nil {
		return nil
	}
	s := a.sum(g, i)
	if !s.may || s.bound {
		return nil
	}
	var out []string
	for all := range s.arg {
		var keep []string
		for _, q := range strings.Split(all, "&") {
			n := strings.IndexAny(q, ".=")
			head, rest := q, ""
			if n >= 0 {
				head, rest = q[:n], q[n:]
			}
			k, _ := strconv.Atoi(head)
			if k >= len(c.Args) {
				continue
			}
			if kc, ok := c.Args[k].(*ssa.Const); ok && strings.HasPrefix(rest, "=") && kc.Value != nil {
				if kc.Value.String() != rest[1:] {
					keep = nil
					goto next
				}
				continue
			}
			if j := paramIndex(f, c.Args[k]); j >= 0 {
				keep = append(keep, fmt.Sprint(j)+rest)
			}
		}
		if keep == nil {
			return nil
		}
		out = append(out, strings.Join(keep, "&"))
	next:
	}
	return out
}

// nilParam: the parameter, or field reached from one, that is known to be nil at the instruction.
func (a *missAn) nilParam(f *ssa.Function, at ssa.Instruction) string {
	var facts []string
	for d := at.Block(); d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, on := iff.Cond, 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			cond, on = u.X, 1-on
		}
		if p, ok := cond.(*ssa.Parameter); ok {
			for side := 0; side < 2; side++ {
				if t := up.Succs[side]; len(t.Preds) == 1 && t.Dominates(at.Block()) {
					facts = append(facts, fmt.Sprintf("%d=%v", paramIndex(f, p), side == on))
				}
			}
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(isNilConst(bo.X) || isNilConst(bo.Y)) {
			continue
		}
		v := bo.X
		if isNilConst(v) {
			v = bo.Y
		}
		path := a.path(v, 0)
		for k, p := range f.Params {
			if rest, ok := strings.CutPrefix(path, "p:"+p.Name()); ok && (rest == "" || rest[0] == '.') {
				if s := a.nonNilSide(iff, path); s >= 0 {
					if t := up.Succs[1-s]; t.Dominates(at.Block()) && nilOnAll(a, t, path) {
						facts = append(facts, fmt.Sprint(k)+rest)
					}
				}
			}
		}
	}
	return strings.Join(facts, "&")
}

// nilOnAll: the block is entered only from tests that found the path to be nil, or something
// reached on the way to it.
func nilOnAll(a *missAn, t *ssa.BasicBlock, path string) bool {
	for _, p := range t.Preds {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		v := bo.X
		if isNilConst(v) {
			v = bo.Y
		}
		q := a.path(v, 0)
		if q == "" || !(q == path || strings.HasPrefix(path, q+".")) {
			return false
		}
		s := a.nonNilSide(iff, q)
		if s < 0 || p.Succs[1-s] != t {
			return false
		}
	}
	return true
}

// says: whenever v is nil here, u is an error or false.
func (a *missAn) says(v, u ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) bool {
	switch t := u.Type().Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsBoolean == 0 {
			return false
		}
		if c, ok := u.(*ssa.Const); ok {
			return c.Value != nil && c.Value.String() == "false"
		}
	case *types.Pointer, *types.Interface:
		if isErrType(u.Type()) {
			if isNilConst(u) {
				return false
			}
			if a.surely(u, at, 0) {
				return true
			}
		} else if isNilConst(u) {
			return true
		}
	case *types.Slice, *types.Map:
		if isNilConst(u) {
			return true
		}
	default:
		return false
	}
	// both from one call whose results go together
	ev, ok1 := v.(*ssa.Extract)
	eu, ok2 := u.(*ssa.Extract)
	if ok1 && ok2 && ev.Tuple == eu.Tuple {
		if c, ok := ev.Tuple.(*ssa.Call); ok {
			s := a.sum(StaticCallee(&c.Call), ev.Index)
			if s.all == nil || s.all[eu.Index] {
				return true
			}
			return (!s.bound || s.cor[eu.Index]) && a.argsMissing(&c.Call, s, c, seen) == ""
		}
	}
	// both chosen at the same place
	pv, ok1 := v.(*ssa.Phi)
	pu, ok2 := u.(*ssa.Phi)
	if ok1 && ok2 && pv.Block() == pu.Block() {
		if seen[pv] {
			return true
		}
		seen[pv] = true
		defer delete(seen, pv)
		for k := range pv.Edges {
			pb := pv.Block().Preds[k]
			t := pb.Instrs[len(pb.Instrs)-1]
			if a.missing(pv.Edges[k], t, pv.Block(), seen) != "" && !a.says(pv.Edges[k], pu.Edges[k], t, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// signalled: the call that v comes from is known to have succeeded.
func (a *missAn) signalled(v ssa.Value, at ssa.Instruction) bool {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	t, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	for j := range a.sum(StaticCallee(&t.Call), e.Index).all {
		if u := extractOf(t, j); u != nil && a.signalGood(u, at, nil) {
			return true
		}
	}
	return false
}

// surely: the error is not nil at the instruction.
func (a *missAn) surely(u ssa.Value, at ssa.Instruction, depth int) bool {
	if knownNonNil(u, at.Block()) || a.checked(u, at, nil) || (&errFlow{vals: map[ssa.Value]bool{}}).fresh(u, 0) {
		return true
	}
	c, ok := u.(*ssa.Call)
	if !ok || depth > 3 {
		return false
	}
	f := StaticCallee(&c.Call)
	if f == nil || !inRepo(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !a.surely(ret.Results[0], ret, depth+1) {
			return false
		}
	}
	return true
}

// missing says why v can be nil at the instruction, or "". to is the successor taken from it, if any.
func (a *missAn) missing(v ssa.Value, at ssa.Instruction, to *ssa.BasicBlock, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	if isNilConst(v) {
		return "nil"
	}
	switch v.(type) {
	case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.TypeAssert:
	default:
		return ""
	}
	if a.checked(v, at, to) {
		return ""
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return a.missing(x.X, at, to, seen)
	case *ssa.ChangeInterface:
		return a.missing(x.X, at, to, seen)
	case *ssa.Phi:
		if a.oddOnly(x, at) {
			return ""
		}
		for _, in := range x.Block().Instrs {
			u, ok := in.(*ssa.Phi)
			if !ok || u == x || !a.signalGood(u, at, to) {
				continue
			}
			if a.says(x, u, x, seen) {
				return ""
			}
		}
		seen[v] = true
		defer delete(seen, v)
		for k, e := range x.Edges {
			pb := x.Block().Preds[k]
			if w := a.missing(e, pb.Instrs[len(pb.Instrs)-1], x.Block(), seen); w != "" {
				return w
			}
		}
	case *ssa.Call:
		if x.Call.Signature().Results().Len() == 1 {
			return a.missingCall(&x.Call, 0, x, seen)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			f := StaticCallee(&t.Call)
			if f == nil || x.Index >= f.Signature.Results().Len() {
				return ""
			}
			s := a.sum(f, x.Index)
			if !s.may {
				return ""
			}
			for _, j := range goTogether[FnName(f)+"#"+fmt.Sprint(x.Index)] {
				if e := extractOf(t, j); e != nil && a.signalGood(e, at, to) {
					return ""
				}
			}
			for j := range s.all {
				if e := extractOf(t, j); e != nil && a.signalGood(e, at, to) {
					return ""
				}
			}
			for j := range s.cor {
				if e := extractOf(t, j); s.bound && e != nil && a.signalGood(e, at, to) {
					return a.argsMissing(&t.Call, s, t, seen)
				}
			}
			return a.missingCall(&t.Call, x.Index, t, seen)
		case *ssa.Lookup:
			if x.Index == 0 {
				if ok := extractOf(t, 1); ok != nil && a.signalGood(ok, at, to) {
					return ""
				}
				if nillable(x.Type()) && !a.sameKey(t, at, to) {
					return "a map lookup"
				}
			}
		case *ssa.TypeAssert:
			if x.Index == 0 && nillable(x.Type()) {
				if ok := extractOf(t, 1); ok != nil && a.signalGood(ok, at, to) {
					return ""
				}
				return "a type assertion"
			}
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && nillable(x.Type()) && !a.sameKey(x, at, to) {
			return "a map lookup"
		}
	}
	return ""
}

// missingCall: why the result of the call can be nil.
func (a *missAn) missingCall(c *ssa.CallCommon, i int, at ssa.Instruction, seen map[ssa.Value]bool) string {
	f := StaticCallee(c)
	if f == nil {
		return ""
	}
	s := a.sum(f, i)
	if !s.may {
		return ""
	}
	switch f.Name() {
	case "Oldest", "Newest", "First", "Last":
		// there is a first one when it is not empty
		if len(c.Args) == 1 {
			if p := strings.TrimSuffix(a.path(c.Args[0], 0), ".OrderedMap"); p != "" && a.sized(p, at) {
				return ""
			}
		}
	}
	if FnName(f) == "utils.GetRefValueNode" && a.refKnown(c.Args[0], at, 0) {
		return ""
	}
	if s.bound {
		return "the result of " + FnName(f)
	}
	return a.argsMissing(c, s, at, seen)
}

// refKnown: the node was found to hold a $ref before the instruction is reached, here or wherever
// the function is called.
func (a *missAn) refKnown(v ssa.Value, at ssa.Instruction, depth int) bool {
	p := a.path(v, 0)
	b := at.Block()
	for d := b; d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		ex, ok := iff.Cond.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		c, ok := ex.Tuple.(*ssa.Call)
		if !ok {
			continue
		}
		if f := StaticCallee(&c.Call); f == nil || FnName(f) != "utils.IsNodeRefValue" {
			continue
		}
		if c.Call.Args[0] != v && (p == "" || a.path(c.Call.Args[0], 0) != p) {
			continue
		}
		if s := up.Succs[0]; len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
		if other := up.Succs[1]; !reaches(other, b, up, func(*ssa.BasicBlock) bool { return false }) {
			return true
		}
	}
	fn := b.Parent()
	pa, ok := v.(*ssa.Parameter)
	if !ok || depth > 2 || fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	cs := a.callers()[fn]
	for _, c := range cs {
		k := paramIndex(fn, pa)
		if k < 0 || k >= len(c.Common().Args) || !a.refKnown(c.Common().Args[k], c, depth+1) {
			return false
		}
	}
	return len(cs) > 0
}

// argsMissing: why one of the arguments that decide can be such that the result is nil.
func (a *missAn) argsMissing(c *ssa.CallCommon, s nilSum, at ssa.Instruction, seen map[ssa.Value]bool) string {
	f := StaticCallee(c)
	for all := range s.arg {
		why := "the result of " + FnName(f)
		for _, q := range strings.Split(all, "&") {
			if head, val, ok := strings.Cut(q, "="); ok {
				k, _ := strconv.Atoi(head)
				if k < len(c.Args) {
					if kc, ok := c.Args[k].(*ssa.Const); ok && kc.Value != nil && kc.Value.String() != val {
						why = ""
					}
				}
				continue
			}
			head, rest, deep := strings.Cut(q, ".")
			k, _ := strconv.Atoi(head)
			if k >= len(c.Args) {
				why = ""
				continue
			}
			if !deep {
				if a.missing(c.Args[k], at, nil, seen) == "" {
					why = ""
				}
				continue
			}
			if base := a.path(c.Args[k], 0); base != "" && a.guarded(base+"."+rest, at) {
				why = ""
			}
		}
		if why != "" {
			return why
		}
	}
	return ""
}

// sameKey: a lookup of the same key of the same map is known to have found something, or the key
// comes from ranging over the map.
func (a *missAn) sameKey(l *ssa.Lookup, at ssa.Instruction, to *ssa.BasicBlock) bool {
	mp := a.path(l.X, 0)
	if a.rangeKey(l.Index, l.X, map[ssa.Value]bool{}) {
		return true
	}
	for _, b := range l.Parent().Blocks {
		for _, in := range b.Instrs {
			o, ok := in.(*ssa.Lookup)
			if !ok || o == l || !(o.Index == l.Index || a.path(o.Index, 0) != "" && a.path(o.Index, 0) == a.path(l.Index, 0)) || !(o.X == l.X || mp != "" && a.path(o.X, 0) == mp) {
				continue
			}
			if o.CommaOk {
				if f := extractOf(o, 1); f != nil && a.signalGood(f, at, to) {
					return true
				}
				if f := extractOf(o, 0); f != nil && a.checked(f, at, to) {
					return true
				}
			} else if a.checked(o, at, to) {
				return true
			}
		}
	}
	return false
}

// oddOnly: the instruction is reached only at odd positions of a loop, after the even position
// before it has set the variable.
func (a *missAn) oddOnly(p *ssa.Phi, at ssa.Instruction) bool {
	for d := at.Block(); d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		rem, ok := bo.X.(*ssa.BinOp)
		c, ok2 := bo.Y.(*ssa.Const)
		if !ok || !ok2 || rem.Op.String() != "%" || c.Value == nil {
			continue
		}
		odd := -1
		switch bo.Op.String() + c.Value.String() {
		case "==0", "!=1":
			odd = 1
		case "!=0", "==1":
			odd = 0
		}
		if odd < 0 || !up.Succs[odd].Dominates(at.Block()) {
			continue
		}
		// the even side goes back to the loop with a value
		if evenSets(p, up.Succs[1-odd], map[*ssa.Phi]bool{}) {
			return true
		}
	}
	return false
}

// checked: v is known not to be nil at the instruction (and on the edge to the given successor).
func (a *missAn) checked(v ssa.Value, at ssa.Instruction, to *ssa.BasicBlock) bool {
	p := a.path(v, 0)
	if p == "" {
		return false
	}
	if a.guarded(p, at) {
		return true
	}
	if iff, ok := at.(*ssa.If); ok && to != nil {
		if s := a.nonNilSide(iff, p); s >= 0 && iff.Block().Succs[s] == to && iff.Block().Succs[1-s] != to {
			return true
		}
	}
	return false
}

// signalGood: the error is known to be nil, or the flag to be true, at the instruction.
func (a *missAn) signalGood(u ssa.Value, at ssa.Instruction, to *ssa.BasicBlock) bool {
	good := func(iff *ssa.If) int {
		cond, flip := iff.Cond, 0
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op.String() != "!" {
				break
			}
			cond, flip = n.X, 1-flip
		}
		if cond == u {
			return flip
		}
		if bo, ok := cond.(*ssa.BinOp); ok && isLenOf(bo.X, u) {
			if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
				switch bo.Op.String() + k.Value.String() {
				case ">0", "!=0", ">=1":
					return flip
				case "==0", "<=0", "<1":
					return 1 - flip
				}
			}
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.X == u && isNilConst(bo.Y) || bo.Y == u && isNilConst(bo.X)) {
			switch bo.Op.String() {
			case "==":
				return flip
			case "!=":
				return 1 - flip
			}
		}
		return -1
	}
	if iff, ok := at.(*ssa.If); ok && to != nil {
		if s := good(iff); s >= 0 && iff.Block().Succs[s] == to && iff.Block().Succs[1-s] != to {
			return true
		}
	}
	if !isErrType(u.Type()) && nillable(u.Type()) {
		return a.checked(u, at, to)
	}
	b := at.Block()
	for d := b; d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		side := good(iff)
		if side < 0 {
			continue
		}
		s, other := up.Succs[side], up.Succs[1-side]
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
		if other != s && !reaches(other, b, up, func(*ssa.BasicBlock) bool { return false }) {
			return true
		}
	}
	return false
}

// needsParam: the function uses its parameter without looking whether it is nil.
func (a *missAn) needsParam(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 || !inRepo(f) || i >= len(f.Params) || !nillable(f.Params[i].Type()) {
		return false
	}
	m := a.needs[f]
	if m == nil {
		m = map[int]int{}
		a.needs[f] = m
	}
	switch m[i] {
	case 1, 2:
		return false
	case 3:
		return true
	}
	m[i] = 1
	need := false
	p := "p:" + f.Params[i].Name()
	a.uses(f, func(v ssa.Value, in ssa.Instruction) {
		if v == ssa.Value(f.Params[i]) && !a.guarded(p, in) {
			need = true
		}
	})
	m[i] = 2
	if need {
		m[i] = 3
	}
	return need
}

// uses: derefs, and arguments that the callee needs.
func (a *missAn) uses(f *ssa.Function, fn func(v ssa.Value, in ssa.Instruction)) {
	a.derefs(f, fn)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().IsInvoke() {
				continue
			}
			g := StaticCallee(ci.Common())
			if g == nil {
				continue
			}
			for i, v := range ci.Common().Args {
				if i == 0 && g.Signature.Recv() != nil {
					continue // derefs has it
				}
				if a.needsParam(g, i) {
					fn(v, in)
				}
			}
		}
	}
}

func checkMissing(w *World, r *Reporter) {
	a := &missAn{nilAn: &nilAn{w: w, getters: map[*ssa.Function]string{}, safe: map[*ssa.Function]int{}},
		sums: map[*ssa.Function][]nilSum{}, needs: map[*ssa.Function]map[int]int{}}
	a.build()
	for _, fn := range w.fns {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue // its instances are looked at
		}
		a.uses(fn, func(v ssa.Value, in ssa.Instruction) {
			var src string
			switch v.(type) {
			case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.Lookup:
			default:
				return
			}
			why := a.missing(v, in, nil, map[ssa.Value]bool{})
			src = FnName(rootFn(fn)) + ":" + a.what(v, 0)
			r.Fn(FnName(rootFn(fn)))
			if why != "" {
				for k := range neverMissing {
					caller, callee, _ := strings.Cut(k, ">")
					if strings.HasSuffix(why, " "+callee) && a.within(fn, caller, 2) {
						why = ""
						break
					}
				}
			}
			if why == "" {
				if a.canMiss(v) {
					r.OK("missing", src)
				}
				return
			}
			r.Bad("missing", src, w.InstrPos(in), fmt.Sprintf("%s uses %s, which can be nil (%s), without looking", FnName(rootFn(fn)), a.what(v, 0), why))
		})
	}
}

// canMiss: v comes from something that can be nil, were it not checked.
func (a *missAn) canMiss(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		return a.sum(StaticCallee(&x.Call), 0).may
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return a.sum(StaticCallee(&t.Call), x.Index).may
		}
		return true
	case *ssa.Lookup:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if isNilConst(e) {
				return true
			}
			if _, ok := e.(*ssa.Phi); !ok && a.canMiss(e) {
				return true
			}
		}
	}
	return false
}

// what names the origin of a value.
func (a *missAn) what(v ssa.Value, depth int) string {
	switch x := v.(type) {
	case *ssa.Call:
		if f := StaticCallee(&x.Call); f != nil {
			return FnName(f)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if f := StaticCallee(&t.Call); f != nil {
				return fmt.Sprintf("%s#%d", FnName(f), x.Index)
			}
		case *ssa.Lookup:
			return "lookup " + typeName(t.X.Type())
		case *ssa.TypeAssert:
			return "assert " + typeName(t.AssertedType)
		}
	case *ssa.Lookup:
		return "lookup " + typeName(x.X.Type())
	case *ssa.Phi:
		return "local " + x.Comment + " " + typeName(x.Type())
	}
	return v.Name()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isLenOf(v, u ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == u
}

// rangeKey: v is a key met when ranging over the map, or an element of a list of such keys.
func (a *missAn) rangeKey(v ssa.Value, mp ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	mpath := a.path(mp, 0)
	switch x := v.(type) {
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		return ok && x.Index == 1 && (rg.X == mp || mpath != "" && a.path(rg.X, 0) == mpath)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			return a.rangeKeys(ia.X, mp, seen)
		}
	}
	return false
}

// rangeKeys: every element of the list is such a key, or was kept together with an entry of the map.
func (a *missAn) rangeKeys(v ssa.Value, mp ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.rangeKeys(e, mp, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && !a.rangeKey(st.Val, mp, seen) && !storedWith(st.Val, mp) {
						return false
					}
				}
			}
			return true
		}
		return a.rangeKeys(x.X, mp, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return a.rangeKeys(x.Call.Args[0], mp, seen) && a.rangeKeys(x.Call.Args[1], mp, seen)
		}
		if f := StaticCallee(&x.Call); f != nil && len(x.Call.Args) > 0 {
			switch calleeFull(&x.Call) {
			case "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "slices.Collect":
				return a.rangeKeys(x.Call.Args[0], mp, seen)
			case "maps.Keys":
				p := a.path(mp, 0)
				return x.Call.Args[0] == mp || p != "" && a.path(x.Call.Args[0], 0) == p
			}
		}
	case *ssa.ChangeType:
		return a.rangeKeys(x.X, mp, seen)
	}
	return false
}

// storedWith: the map has an entry set under this very key.
func storedWith(k, mp ssa.Value) bool {
	for _, r := range *mp.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == mp && mu.Key == k {
			return true
		}
	}
	return false
}

func evenSets(p *ssa.Phi, even *ssa.BasicBlock, seen map[*ssa.Phi]bool) bool {
	if seen[p] {
		return false
	}
	seen[p] = true
	for k, e := range p.Edges {
		q, isPhi := e.(*ssa.Phi)
		if even.Dominates(p.Block().Preds[k]) && !isNilConst(e) && !isPhi {
			return true
		}
		if isPhi && evenSets(q, even, seen) {
			return true
		}
	}
	return false
}

// sized: the size of what p names was found to be greater than zero.
func (a *missAn) sized(p string, at ssa.Instruction) bool {
	for d := at.Block(); d.Idom() != nil; d = d.Idom() {
		up := d.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		c, ok := bo.X.(*ssa.Call)
		k, ok2 := bo.Y.(*ssa.Const)
		if !ok || !ok2 || k.Value == nil || len(c.Call.Args) != 1 || strings.TrimSuffix(a.path(c.Call.Args[0], 0), ".OrderedMap") != p {
			continue
		}
		if f := StaticCallee(&c.Call); f == nil || f.Name() != "Len" {
			continue
		}
		side := -1
		switch bo.Op.String() + k.Value.String() {
		case ">0", "!=0", ">=1", "==1":
			side = 0
		case "==0", "<=0", "<1", "!=1":
			side = 1
		}
		if side < 0 {
			continue
		}
		if s := up.Succs[side]; len(s.Preds) == 1 && s.Dominates(at.Block()) {
			return true
		}
	}
	return false
}

// within: the function is the named one, a closure in it, or a helper only it calls.
func (a *missAn) within(fn *ssa.Function, name string, depth int) bool {
	fn = rootFn(fn)
	if FnName(fn) == name {
		return true
	}
	if depth == 0 || fn.Object() == nil || fn.Object().Exported() {
		return false
	}
	cs := a.callers()[fn]
	for _, c := range cs {
		if !a.within(c.Parent(), name, depth-1) {
			return false
		}
	}
	return len(cs) > 0
}
