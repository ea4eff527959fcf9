package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", "settings", checkSettings) }

// settingTypes are the types a program configures the library with.
var settingTypes = [][2]string{
	{"datamodel", "DocumentConfiguration"},
	{"index", "SpecIndexConfig"},
	{"index", "LocalFSConfig"},
	{"bundler", "BundleCompositionConfig"},
	{"bundler", "BundleInlineConfig"},
	{"arazzo", "ResolveConfig"},
	{"arazzo", "EngineConfig"},
	{"renderer", "MockGenerationOptions"},
	{"utils", "JSONPathLookupOptions"},
}

// unusedSettings are settings that have no effect and say so.
var unusedSettings = map[string]string{
	"SpecIndexConfig.FSHandler": "deprecated: the rolodex took its place",
}

// sameSetting gives the name a setting has in the configuration of the index.
var sameSetting = map[string]string{
	"AllowFileReferences":   "AllowFileLookup",
	"AllowRemoteReferences": "AllowRemoteLookup",
}

type confAn struct {
	w     *World
	types map[string]*types.Named
	fns   []*ssa.Function
	busy  map[*ssa.Phi]bool
}

func (a *confAn) typeOf(t types.Type) string {
	n := namedOf(derefType(t))
	if n == nil {
		return ""
	}
	for k, v := range a.types {
		if v == n {
			return k
		}
	}
	return ""
}

// field: which setting of which type the address or value is.
func (a *confAn) field(v ssa.Value) (string, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if t := a.typeOf(x.X.Type()); t != "" {
			return t, fieldName(x.X.Type(), x.Field)
		}
	case *ssa.Field:
		if t := a.typeOf(x.X.Type()); t != "" {
			return t, fieldName(x.X.Type(), x.Field)
		}
	}
	return "", ""
}

// settingsIn: the settings a value is made from.
func (a *confAn) settingsIn(v ssa.Value, seen map[ssa.Value]bool, out map[string]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if t, f := a.field(v); t != "" {
		out[t+"."+f] = true
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					a.settingsIn(st.Val, seen, out)
				}
			}
			return
		}
		a.settingsIn(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.settingsIn(e, seen, out)
		}
	case *ssa.Call:
		for _, e := range x.Call.Args {
			a.settingsIn(e, seen, out)
		}
		if f := StaticCallee(&x.Call); f != nil && inRepo(f) && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, e := range rt.Results {
						a.settingsIn(e, seen, out)
					}
				}
			}
		}
	case *ssa.Extract:
		a.settingsIn(x.Tuple, seen, out)
	case *ssa.Next:
		a.settingsIn(x.Iter, seen, out)
	case *ssa.Range:
		a.settingsIn(x.X, seen, out)
	case *ssa.IndexAddr:
		a.settingsIn(x.X, seen, out)
	case *ssa.Index:
		a.settingsIn(x.X, seen, out)
	case *ssa.Lookup:
		a.settingsIn(x.X, seen, out)
	case *ssa.Slice:
		a.settingsIn(x.X, seen, out)
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok {
							a.settingsIn(st.Val, seen, out)
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		for _, e := range captured(x) {
			a.settingsIn(e, seen, out)
		}
	case *ssa.Convert:
		a.settingsIn(x.X, seen, out)
	case *ssa.ChangeType:
		a.settingsIn(x.X, seen, out)
	case *ssa.MakeInterface:
		a.settingsIn(x.X, seen, out)
	case *ssa.ChangeInterface:
		a.settingsIn(x.X, seen, out)
	case *ssa.BinOp:
		a.settingsIn(x.X, seen, out)
		a.settingsIn(x.Y, seen, out)
	case *ssa.TypeAssert:
		a.settingsIn(x.X, seen, out)
	case *ssa.Parameter:
		// what a helper is given
		f := x.Parent()
		i := paramIndex(f, x)
		if i < 0 {
			return
		}
		if n := a.w.Callgraph().Nodes[f]; n != nil && len(n.In) <= 4 {
			for _, e := range n.In {
				if e.Site != nil && StaticCallee(e.Site.Common()) == f && i < len(e.Site.Common().Args) {
					a.settingsIn(e.Site.Common().Args[i], seen, out)
				}
			}
		}
	}
}

func checkSettings(w *World, r *Reporter) {
	a := &confAn{w: w, types: map[string]*types.Named{}}
	for _, t := range settingTypes {
		if n := w.Named(t[0], t[1]); n != nil {
			a.types[t[1]] = n
		}
	}
	for f := range w.Callgraph().Nodes {
		if f != nil && inRepo(f) && len(f.Blocks) > 0 {
			a.fns = append(a.fns, f)
		}
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
	a.used(r)
	a.copied(r)
	a.both(r)
	a.kept(r)
	a.gated(r)
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if t, _ := a.field(v); t != "" {
						r.Fn(FnName(f))
					}
				}
			}
		}
	}
	r.Min("used", 50)
	r.Min("copied", 30)
	r.Min("both", 30)
	r.Min("kept", 20)
	r.Min("gated", 15)
	r.Min("limited", 2)
}

// used: a setting is looked at by something else than what prepares or copies the configuration.
func (a *confAn) used(r *Reporter) {
	reads := map[string]map[*ssa.Function][]ssa.Value{}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				t, n := a.field(v)
				if t == "" || v.Referrers() == nil {
					continue
				}
				k := t + "." + n
				if _, ok := v.(*ssa.Field); ok {
					if reads[k] == nil {
						reads[k] = map[*ssa.Function][]ssa.Value{}
					}
					reads[k][f] = append(reads[k][f], v)
					continue
				}
				for _, u := range *v.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
						if reads[k] == nil {
							reads[k] = map[*ssa.Function][]ssa.Value{}
						}
						reads[k][f] = append(reads[k][f], l)
					}
					if fa, ok := u.(*ssa.FieldAddr); ok {
						if reads[k] == nil {
							reads[k] = map[*ssa.Function][]ssa.Value{}
						}
						reads[k][f] = append(reads[k][f], fa)
					}
				}
			}
		}
	}
	var keys []string
	pos := map[string]token.Pos{}
	for tn, n := range a.types {
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if fld := st.Field(i); fld.Exported() {
				keys = append(keys, tn+"."+fld.Name())
				pos[tn+"."+fld.Name()] = fld.Pos()
			}
		}
	}
	sort.Strings(keys)
	good := map[string]bool{}
	into := map[string]map[string]bool{}
	for _, k := range keys {
		to := map[string]bool{}
		for _, vs := range reads[k] {
			for _, v := range vs {
				if a.effect(v, k, map[ssa.Value]bool{}, to) {
					good[k] = true
				}
			}
		}
		into[k] = to
	}
	for again := true; again; {
		again = false
		for _, k := range keys {
			for t := range into[k] {
				if !good[k] && good[t] {
					good[k], again = true, true
				}
			}
		}
	}
	for _, k := range keys {
		key := k
		switch {
		case good[k]:
			r.OK("used", key)
		case unusedSettings[k] != "":
		default:
			r.Bad("used", key, a.w.Pos(pos[k]), fmt.Sprintf("the setting %s has no effect: nothing acts on it", k))
		}
	}
}

// effect: the value decides or becomes something. What it only fills is another setting, which is put in to; and
// testing a setting to give it a default does not count.
func (a *confAn) effect(v ssa.Value, k string, seen map[ssa.Value]bool, to map[string]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.If:
			def := false
			for _, s := range x.Block().Succs {
				if len(s.Preds) != 1 {
					continue
				}
				for _, in := range s.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						t, n := a.field(st.Addr)
						def = def || t+"."+n == k
					}
				}
			}
			if !def {
				return true
			}
		case *ssa.Return, *ssa.Send, *ssa.MapUpdate, *ssa.Range, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Call:
			return true
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if t, n := a.field(x.Addr); t != "" {
				to[t+"."+n] = true
				continue
			}
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, q := range *al.Referrers() {
					if l, ok := q.(*ssa.UnOp); ok && a.effect(l, k, seen, to) {
						return true
					}
					if _, ok := q.(*ssa.MakeClosure); ok {
						return true
					}
				}
				continue
			}
			return true
		case ssa.Value:
			if a.effect(x, k, seen, to) {
				return true
			}
		}
	}
	return false
}

// copied: where one configuration is made from another, every setting both have is handed on, to the setting of
// the same name and under no condition of another setting.
func (a *confAn) copied(r *Reporter) {
	type cp struct {
		in   *ssa.Function
		pos  token.Pos
		from map[string]bool
		blk  *ssa.BasicBlock
	}
	// package, from, to -> field -> stores
	convs := map[[3]string]map[string][]cp{}
	pairs := map[[3]string]int{}
	for _, f := range a.fns {
		pkg := shortPkg(fnPkg(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				t, n := a.field(st.Addr)
				if t == "" {
					continue
				}
				from := map[string]bool{}
				a.settingsIn(st.Val, map[ssa.Value]bool{}, from)
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.String() == "true" {
					for d := range a.w.CtrlBlocks(b) {
						if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
							on := map[string]bool{}
							a.settingsIn(iff.Cond, map[ssa.Value]bool{}, on)
							for k := range on {
								ft, fn, _ := strings.Cut(k, ".")
								if ft != t && sameSetting[fn] == n {
									from[k] = true
								}
							}
						}
					}
				}
				src := map[string]bool{}
				for k := range from {
					ft, _, _ := strings.Cut(k, ".")
					if ft != t {
						src[ft] = true
					}
				}
				for ft := range src {
					k := [3]string{pkg, ft, t}
					if convs[k] == nil {
						convs[k] = map[string][]cp{}
					}
					convs[k][n] = append(convs[k][n], cp{f, st.Pos(), from, b})
					pairs[k]++
				}
			}
		}
	}
	for k, by := range convs {
		if pairs[k] < 5 || !handedOn[[2]string{k[1], k[2]}] {
			continue
		}
		from, to := a.types[k[1]].Underlying().(*types.Struct), a.types[k[2]].Underlying().(*types.Struct)
		names := map[string]bool{}
		for i := 0; i < to.NumFields(); i++ {
			names[to.Field(i).Name()] = true
		}
		for i := 0; i < from.NumFields(); i++ {
			n := from.Field(i).Name()
			m := n
			if !names[m] {
				m = sameSetting[n]
			}
			if m == "" {
				for x, y := range sameSetting {
					if y == n && names[x] {
						m = x
					}
				}
			}
			if !from.Field(i).Exported() || m == "" || !names[m] {
				continue
			}
			key := fmt.Sprintf("copied %s %s.%s -> %s.%s", k[0], k[1], n, k[2], m)
			if why := notCopied[key]; why != "" {
				continue
			}
			var all []string
			ok := false
			for _, c := range by[m] {
				if c.from[k[1]+"."+n] {
					ok = true
					// no other setting decides
					for d := range a.w.CtrlBlocks(c.blk) {
						iff, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If)
						if !isIf {
							continue
						}
						on := map[string]bool{}
						a.settingsIn(iff.Cond, map[ssa.Value]bool{}, on)
						delete(on, k[1]+"."+n)
						for o := range on {
							if strings.HasPrefix(o, k[1]+".") && sameSetting[n] == "" {
								ok = false
								all = append(all, "only when "+o+" says so")
							}
						}
					}
				}
				for o := range c.from {
					if strings.HasPrefix(o, k[1]+".") && o != k[1]+"."+n {
						all = append(all, "it is set from "+o)
						ok = false
					}
				}
				if !ok {
					break
				}
			}
			if ok {
				r.OK("copied", key)
				continue
			}
			pos := a.w.Pos(from.Field(i).Pos())
			for _, cs := range by {
				pos = a.w.Pos(cs[0].in.Pos())
				break
			}
			sort.Strings(all)
			r.Bad("copied", key, pos, fmt.Sprintf("the setting %s.%s is not handed on to %s.%s %s", k[1], n, k[2], m, strings.Join(all, ", ")))
		}
	}
}

// handedOn are the configurations that are made from another.
var handedOn = map[[2]string]bool{
	{"DocumentConfiguration", "SpecIndexConfig"}: true,
	{"SpecIndexConfig", "DocumentConfiguration"}: true,
}

const noSiblings = "Swagger has no properties beside $ref"

// notCopied are settings that a configuration made from another leaves out on purpose.
var notCopied = map[string]string{
	"copied datamodel/low/v3 DocumentConfiguration.RemoteURLHandler -> SpecIndexConfig.RemoteURLHandler":                   "given to the remote file system itself",
	"copied datamodel/low/v2 DocumentConfiguration.RemoteURLHandler -> SpecIndexConfig.RemoteURLHandler":                   "given to the remote file system itself",
	"copied datamodel/low/v2 DocumentConfiguration.MergeReferencedProperties -> SpecIndexConfig.MergeReferencedProperties": noSiblings,
	"copied datamodel/low/v2 DocumentConfiguration.PropertyMergeStrategy -> SpecIndexConfig.PropertyMergeStrategy":         noSiblings,
	"copied datamodel/low/v2 DocumentConfiguration.TransformSiblingRefs -> SpecIndexConfig.TransformSiblingRefs":           noSiblings,
}

// captured: what a closure was given for one of its free variables.
func captured(v *ssa.FreeVar) []ssa.Value {
	f := v.Parent()
	i := -1
	for j, fv := range f.FreeVars {
		if fv == v {
			i = j
		}
	}
	if f.Parent() == nil || i < 0 {
		return nil
	}
	var out []ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && i < len(mc.Bindings) {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return out
}

// onlyOne are settings that mean nothing to one of the two kinds of document.
var onlyOne = map[string]string{}

// both: what one kind of document looks at in the configuration, the other looks at too; and a file system that is
// made for a document gets what the configuration says about it.
func (a *confAn) both(r *Reporter) {
	read := map[string]map[string]token.Pos{"datamodel/low/v2": {}, "datamodel/low/v3": {}}
	all := map[string]bool{}
	for _, f := range a.fns {
		m := read[shortPkg(fnPkg(f))]
		if m == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				if t, n := a.field(v); t == "DocumentConfiguration" {
					m[n] = in.Pos()
					all[n] = true
				}
				if al, ok := v.(*ssa.Alloc); ok && a.typeOf(al.Type()) == "LocalFSConfig" && !wholeStored(al) {
					a.fsConfig(r, f, al)
				}
			}
		}
	}
	for n := range all {
		for pkg, m := range read {
			key := "both " + pkg + " " + n
			if _, ok := m[n]; ok {
				r.OK("both", key)
				continue
			}
			if why := notCopied[fmt.Sprintf("copied %s DocumentConfiguration.%s -> SpecIndexConfig.%s", pkg, n, n)]; why == noSiblings || onlyOne[key] != "" {
				continue
			}
			other := ""
			for p2, m2 := range read {
				if q, ok := m2[n]; ok && p2 != pkg {
					other = a.w.Pos(q)
				}
			}
			r.Bad("both", key, other, fmt.Sprintf("the setting DocumentConfiguration.%s is not looked at in %s", n, pkg))
		}
	}
}

// fsConfig: the configuration of a local file system that is made for a document.
func (a *confAn) fsConfig(r *Reporter, f *ssa.Function, al *ssa.Alloc) {
	set := map[string]ssa.Value{}
	for _, u := range *al.Referrers() {
		if fa, ok := u.(*ssa.FieldAddr); ok {
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
					set[fieldName(al.Type(), fa.Field)] = st.Val
				}
			}
		}
	}
	want := map[string]string{"FileFilters": "DocumentConfiguration.FileFilter",
		"BaseDirectory": "DocumentConfiguration.BasePath", "IndexConfig": ""}
	own := perm("LocalFS", "DocumentConfiguration.LocalFS")
	for d := range a.w.CtrlBlocks(al.Block()) {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			if s := a.permits(iff.Cond, own, 0); s >= 0 && d.Succs[s].Dominates(al.Block()) {
				want["DirFS"] = "DocumentConfiguration.LocalFS"
			}
		}
	}
	for n, from := range want {
		key := fmt.Sprintf("files %s %s#%s", FnName(f), n, a.ordinal(f, al))
		on := map[string]bool{}
		if v := set[n]; v != nil {
			a.settingsIn(v, map[ssa.Value]bool{}, on)
		}
		if set[n] == nil || from != "" && !on[from] {
			r.Bad("both", key, a.w.Pos(al.Pos()), fmt.Sprintf("the file system made here is not given %s", n))
		} else {
			r.OK("both", key)
		}
	}
}

func (a *confAn) ordinal(f *ssa.Function, al *ssa.Alloc) string {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Alloc); ok && x.Type() == al.Type() {
				n++
				if x == al {
					return fmt.Sprint(n)
				}
			}
		}
	}
	return "0"
}

// perFile are the parts of a configuration that belong to one file, or to the run, and are not settings.
var perFile = map[string]bool{
	"SpecIndexConfig.SpecAbsolutePath":        true, // where the file is
	"SpecIndexConfig.SpecInfo":                true, // the file, parsed
	"SpecIndexConfig.BaseURL":                 true, // the base of a remote file is where it came from
	"SpecIndexConfig.Rolodex":                 true, // the run
	"SpecIndexConfig.AvoidBuildIndex":         true, // built in a second step
	"SpecIndexConfig.ExtractRefsSequentially": true, // a speed setting: remote files never look in parallel
	"SpecIndexConfig.id":                      true,
	"SpecIndexConfig.uri":                     true,
}

// madeWithout: functions that make a configuration of the type themselves, out of nothing they are given.
func (a *confAn) makers() map[*ssa.Function]map[string]bool {
	out := map[*ssa.Function]map[string]bool{}
	add := func(f *ssa.Function, t string) bool {
		if out[f] == nil {
			out[f] = map[string]bool{}
		}
		if out[f][t] {
			return false
		}
		out[f][t] = true
		return true
	}
	for again := true; again; {
		again = false
		for _, f := range a.fns {
			for _, m := range a.madeIn(f, out) {
				if !a.given(f)[m.t] && !a.givenOther(f, m.t) && add(f, m.t) {
					again = true
				}
			}
		}
	}
	return out
}

type madeConf struct {
	t   string
	in  ssa.Instruction
	val ssa.Value
}

// madeIn: the configurations that come to be in a function, other than as a copy of another.
func (a *confAn) madeIn(f *ssa.Function, makers map[*ssa.Function]map[string]bool) []madeConf {
	var out []madeConf
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				t := a.typeOf(x.Type())
				if _, isPtr := derefType(x.Type()).(*types.Pointer); t == "" || isPtr {
					continue
				}
				if !wholeStored(x) {
					out = append(out, madeConf{t, in, x})
				}
			case ssa.CallInstruction:
				if g := StaticCallee(x.Common()); g != nil {
					for t := range makers[g] {
						out = append(out, madeConf{t, in, x.Value()})
					}
				}
			}
		}
	}
	return out
}

func wholeStored(x *ssa.Alloc) bool {
	for _, u := range *x.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
			return true
		}
	}
	return false
}

// putIn: the configuration the function is given is what it leaves in the object it made.
func (a *confAn) putIn(f *ssa.Function, t string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, isP := st.Val.(*ssa.Parameter); !isP || a.typeOf(st.Val.Type()) != t {
					continue
				}
				if _, isF := st.Addr.(*ssa.FieldAddr); isF {
					return true
				}
			}
		}
	}
	return false
}

// given: the types of configuration a function is handed, as an argument or within its receiver.
func (a *confAn) given(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for g := f; g != nil; g = g.Parent() {
		for _, p := range g.Params {
			if t := a.typeOf(p.Type()); t != "" {
				out[t] = true
			}
			if st, ok := derefType(p.Type()).Underlying().(*types.Struct); ok && p == g.Params[0] && g.Signature.Recv() != nil {
				for i := 0; i < st.NumFields(); i++ {
					if t := a.typeOf(st.Field(i).Type()); t != "" {
						out[t] = true
					}
				}
			}
		}
	}
	return out
}

// givenOther: the function is handed the configuration this one is made from.
func (a *confAn) givenOther(f *ssa.Function, t string) bool {
	for o := range a.given(f) {
		if handedOn[[2]string{o, t}] {
			return true
		}
	}
	return false
}

// kept: a configuration that was handed in is the one that is used. It is changed for one file at most in what
// belongs to the file, a setting is only filled in where it is not set, and no other is made where one was given.
func (a *confAn) kept(r *Reporter) {
	makers := a.makers()
	for _, f := range a.fns {
		given := a.given(f)
		n := map[string]int{}
		for _, m := range a.madeIn(f, makers) {
			if !given[m.t] {
				continue
			}
			if _, isAl := m.in.(*ssa.Alloc); isAl && m.t == "LocalFSConfig" {
				continue
			}
			n[m.t]++
			key := fmt.Sprintf("made %s %s#%d", FnName(f), m.t, n[m.t])
			if a.underNil(m.in.Block(), m.t) || a.putIn(f, m.t) || keptOK[key] != "" {
				r.OK("kept", key)
			} else {
				r.Bad("kept", key, a.w.InstrPos(m.in), fmt.Sprintf("another %s is made here although one is given: its settings are lost", m.t))
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t, name := a.field(fa)
				if t == "" || a.fresh(fa.X, map[ssa.Value]bool{}) {
					continue
				}
				k := t + "." + name
				n[k]++
				key := fmt.Sprintf("stored %s %s#%d", FnName(f), k, n[k])
				why := keptOK[key]
				for d := range a.w.CtrlBlocks(b) {
					if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && a.isUnset(iff.Cond, k) {
						why = "a default"
					}
				}
				if perFile[k] || why != "" || b.Parent().Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Set") {
					r.OK("kept", key)
				} else {
					r.Bad("kept", key, a.w.InstrPos(in), fmt.Sprintf("the setting %s is overwritten in a configuration that was handed in", k))
				}
			}
		}
	}
}

// keptOK are places that may make or change a configuration although one is given.
var keptOK = map[string]string{
	"made utils.normalizeJSONPathLookupOptions JSONPathLookupOptions#1": "the defaults, each used where the option is not set",
}

// fresh: the configuration was made in this very function and is not a copy of another.
func (a *confAn) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		ok := true
		for _, u := range *x.Referrers() {
			if st, isSt := u.(*ssa.Store); isSt && st.Addr == ssa.Value(x) {
				ok = ok && a.fresh(st.Val, seen)
			}
		}
		return ok
	case *ssa.Call:
		g := StaticCallee(&x.Call)
		return g != nil && len(g.Params) == 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !a.fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return a.fresh(al, seen)
		}
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return a.fresh(x.X, seen)
	case *ssa.Parameter:
		// a helper of the one that makes it
		f := x.Parent()
		if f.Object() == nil || f.Object().Exported() {
			return false
		}
		n, i := a.w.Callgraph().Nodes[f], paramIndex(f, x)
		if n == nil || i < 0 {
			return false
		}
		for _, e := range n.In {
			if e.Site == nil || StaticCallee(e.Site.Common()) != f || !a.fresh(e.Site.Common().Args[i], seen) {
				return false
			}
		}
		return true
	}
	return false
}

// underNil: only where no configuration of the type is given.
func (a *confAn) underNil(b *ssa.BasicBlock, t string) bool {
	for d := range a.w.CtrlBlocks(b) {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) || a.typeOf(bo.X.Type()) != t {
			continue
		}
		side := 0
		if bo.Op == token.NEQ {
			side = 1
		}
		if d.Succs[side].Dominates(b) || d.Succs[side] == b {
			return true
		}
	}
	return false
}

// isUnset: the condition asks whether the setting is set.
func (a *confAn) isUnset(c ssa.Value, k string) bool {
	on := map[string]bool{}
	a.settingsIn(c, map[ssa.Value]bool{}, on)
	return on[k]
}

// A permission is something the configuration has to say before files or the network are touched.
type permission struct {
	name string
	by   map[string]bool // the settings, any one of which permits it
	not  bool            // the setting forbids it
	via  string          // the test has to make use of this function
}

func perm(name string, by ...string) *permission {
	p := &permission{name: name, by: map[string]bool{}}
	for _, b := range by {
		p.by[b] = true
	}
	return p
}

var (
	permRemote = perm("AllowRemoteLookup", "SpecIndexConfig.AllowRemoteLookup", "DocumentConfiguration.AllowRemoteReferences")
	permLocal  = perm("AllowFileLookup or BasePath", "SpecIndexConfig.AllowFileLookup", "DocumentConfiguration.AllowFileReferences",
		"SpecIndexConfig.BasePath", "DocumentConfiguration.BasePath", "DocumentConfiguration.LocalFS", "Rolodex.localFS")
	permScheme = perm("AllowedSchemes", "ResolveConfig.AllowedSchemes")
	permHost   = perm("AllowedHosts", "ResolveConfig.AllowedHosts")
	permMany   = perm("MaxSources", "ResolveConfig.MaxSources")
	permRoots  = &permission{name: "FSRoots with links followed", by: map[string]bool{"ResolveConfig.FSRoots": true}, via: "path/filepath.EvalSymlinks"}
	permSize   = perm("MaxBodySize", "ResolveConfig.MaxBodySize")
	permSkip   = &permission{name: "SkipExternalRefResolution", by: map[string]bool{"SpecIndexConfig.SkipExternalRefResolution": true}, not: true}
)

// askedFor are entry points that touch what the program hands them: no document decides it.
var askedFor = map[string]string{
	"index.NewLocalFSWithConfig": "the program makes a file system of a directory of its choice",
}

// ownBusiness are functions that do not need the permission whoever calls them.
var ownBusiness = map[string]string{
	"renderer.ReadDictionary|AllowFileLookup or BasePath":                 "the dictionary of words is no part of a document",
	"bundler.resolveDiscriminatorMappingTarget|SkipExternalRefResolution": "bundling is the resolution of external references",
}

type ioSite struct {
	in   ssa.Instruction
	what string
	need []*permission
}

// ioSites: the places files or the network are touched.
func (a *confAn) ioSites() []ioSite {
	var out []ioSite
	for _, f := range a.fns {
		pkg := shortPkg(fnPkg(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				name := calleeFull(c)
				local, remote := false, false
				switch name {
				case "os.Open", "os.OpenFile", "os.ReadFile", "os.ReadDir", "io/fs.ReadFile", "io/fs.WalkDir", "io/fs.ReadDir",
					"path/filepath.Walk", "path/filepath.WalkDir", "os.DirFS", "io/ioutil.ReadFile", "io/fs.Glob":
					local = true
				case "net/http.Get", "net/http.Head", "net/http.Post", "(*net/http.Client).Do", "(*net/http.Client).Get",
					"(*net/http.Client).Head", "(*net/http.Client).Post", "net.Dial":
					remote = true
				case "(io/fs.FS).Open":
					fs := map[string]bool{}
					a.settingsIn(c.Value, map[ssa.Value]bool{}, fs)
					local = len(fs) > 0
				}
				if name == "" {
					switch _, n := a.anyField(c.Value); n {
					case "RemoteHandlerFunc", "HTTPHandler", "RemoteURLHandler":
						remote = true
					}
					if nt := namedOf(c.Value.Type()); nt != nil && nt.Obj().Name() == "RemoteURLHandler" {
						remote = true
					}
				}
				// a file system of the rolodex is opened
				if g := StaticCallee(c); g != nil && inRepo(g) && !local && !remote {
					for _, arg := range c.Args {
						for fld := range fromFields(arg) {
							local = local || fld == "Rolodex.localFS" && a.opens(g)
							remote = remote || fld == "Rolodex.remoteFS" && a.opens(g)
						}
					}
				}
				switch {
				case pkg == "arazzo" && remote:
					out = append(out, ioSite{in, "the network", []*permission{permScheme, permHost, permMany}})
				case pkg == "arazzo" && local:
					out = append(out, ioSite{in, "a file", []*permission{permScheme, permMany, permRoots}})
				case local:
					out = append(out, ioSite{in, "a file", []*permission{permLocal}})
				case remote:
					out = append(out, ioSite{in, "the network", []*permission{permRemote}})
				}
				if name == "(*github.com/pb33f/libopenapi/index.Rolodex).Open" || name == "(*github.com/pb33f/libopenapi/index.Rolodex).OpenWithContext" {
					if rv := f.Signature.Recv(); rv == nil || namedOf(derefType(rv.Type())) == nil || namedOf(derefType(rv.Type())).Obj().Name() != "Rolodex" {
						out = append(out, ioSite{in, "another file of the specification", []*permission{permSkip}})
					}
				}
				if name == "(*github.com/pb33f/libopenapi/index.Rolodex).AddLocalFS" {
					out = append(out, ioSite{in, "local files", []*permission{permLocal}})
				}
				if name == "(*github.com/pb33f/libopenapi/index.Rolodex).AddRemoteFS" {
					out = append(out, ioSite{in, "remote files", []*permission{permRemote}})
				}
			}
		}
	}
	return out
}

// opens: the function opens something in a file system it is given.
func (a *confAn) opens(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && strings.HasPrefix(ci.Common().Method.Name(), "Open") {
				return true
			}
		}
	}
	return false
}

func (a *confAn) anyField(v ssa.Value) (string, string) {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return bareName(x.X.Type()), fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return bareName(x.X.Type()), fieldName(x.X.Type(), x.Field)
	}
	return "", ""
}

// fromFields: the fields a value was taken out of.
func fromFields(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			out[bareName(x.X.Type())+"."+fieldName(x.X.Type(), x.Field)] = true
		case *ssa.UnOp:
			walk(x.X)
		case *ssa.Lookup:
			walk(x.X)
		case *ssa.Extract:
			walk(x.Tuple)
		case *ssa.Next:
			walk(x.Iter)
		case *ssa.Range:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				walk(x.Call.Args[0])
			}
		}
	}
	walk(v)
	return out
}

// gated: files and the network are touched only where the configuration says so.
func (a *confAn) gated(r *Reporter) {
	for _, s := range a.ioSites() {
		f := s.in.Parent()
		for _, p := range s.need {
			key := fmt.Sprintf("gated %s %s %s", FnName(f), a.siteName(s.in), p.name)
			where := a.ungated(f, s.in, p, map[*ssa.Function]bool{})
			if where == "" {
				r.OK("gated", key)
			} else {
				r.Bad("gated", key, a.w.InstrPos(s.in), fmt.Sprintf("%s is reached from %s without %s being asked", s.what, where, p.name))
			}
		}
	}
	a.limited(r)
}

func (a *confAn) siteName(in ssa.Instruction) string {
	c := in.(ssa.CallInstruction).Common()
	name := calleeFull(c)
	if name == "" {
		_, name = a.anyField(c.Value)
	}
	if i := strings.LastIndexAny(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if ci, ok := x.(ssa.CallInstruction); ok && calleeFull(ci.Common()) == calleeFull(c) {
				n++
				if x == in {
					return fmt.Sprintf("%s#%d", name, n)
				}
			}
		}
	}
	return name
}

// ungated: an entry from which the instruction is reached with no test of the permission, or "".
func (a *confAn) ungated(f *ssa.Function, in ssa.Instruction, p *permission, seen map[*ssa.Function]bool) string {
	if !a.reaches(f, in.Block(), p) {
		return ""
	}
	if seen[f] {
		return ""
	}
	seen[f] = true
	name := FnName(f)
	if ownBusiness[name+"|"+p.name] != "" {
		return ""
	}
	if f.Parent() != nil {
		// a closure runs where it is called, or where it is handed out
		for _, b := range f.Parent().Blocks {
			for _, x := range b.Instrs {
				if mc, ok := x.(*ssa.MakeClosure); ok && mc.Fn == f {
					if a.keptAway(mc, p, seen) {
						continue
					}
					if w := a.ungated(f.Parent(), x, p, seen); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	if n := a.w.Callgraph().Nodes[f]; n != nil {
		for _, e := range n.In {
			if e.Site == nil || !inRepo(e.Caller.Func) {
				continue
			}
			if w := a.ungated(e.Caller.Func, e.Site, p, seen); w != "" {
				return w
			}
		}
	}
	if askedFor[name] != "" {
		return ""
	}
	if f.Object() != nil && f.Object().Exported() {
		return name
	}
	return ""
}

// keptAway: the closure is put in a field, and all calls of that field are gated.
func (a *confAn) keptAway(mc *ssa.MakeClosure, p *permission, seen map[*ssa.Function]bool) bool {
	var fn ssa.Value = mc
	if mc.Referrers() == nil {
		return false
	}
	for _, u := range *mc.Referrers() {
		if ct, ok := u.(*ssa.ChangeType); ok {
			fn = ct
		}
	}
	for _, u := range *fn.Referrers() {
		st, ok := u.(*ssa.Store)
		if !ok || st.Val != fn {
			continue
		}
		if _, ok := st.Addr.(*ssa.FieldAddr); !ok {
			continue
		}
		n := a.w.Callgraph().Nodes[mc.Fn.(*ssa.Function)]
		if n == nil {
			return false
		}
		for _, e := range n.In {
			if e.Site != nil && inRepo(e.Caller.Func) && a.ungated(e.Caller.Func, e.Site, p, seen) != "" {
				return false
			}
		}
		return true
	}
	return false
}

// reaches: the block is reached from the entry of the function with no test of the permission passed.
func (a *confAn) reaches(f *ssa.Function, to *ssa.BasicBlock, p *permission) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if b == to {
			return true
		}
		pass := -1
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			pass = a.permits(iff.Cond, p, 0)
		}
		for i, s := range b.Succs {
			if i != pass && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(f.Blocks[0])
}

// permits: on which side of the condition the permission was given: 0 when it holds, 1 when not, -1 for neither.
func (a *confAn) permits(c ssa.Value, p *permission, depth int) int {
	yes, no := 0, 1
	switch x := c.(type) {
	case *ssa.Phi:
		if a.busy[x] {
			return -1
		}
		if a.busy == nil {
			a.busy = map[*ssa.Phi]bool{}
		}
		a.busy[x] = true
		defer delete(a.busy, x)
		for want := 0; want < 2 && depth < 4; want++ {
			if a.implies(x, p, want, depth+1, map[ssa.Value]bool{}) {
				return want
			}
		}
		return -1
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if s := a.permits(x.X, p, depth); s >= 0 {
				return 1 - s
			}
			return -1
		}
		if t, n := a.field(x.X); t != "" && p.by[t+"."+n] && p.via == "" {
			if p.not {
				return no
			}
			return yes
		}
	case *ssa.Field:
		if t, n := a.field(x); t != "" && p.by[t+"."+n] && p.via == "" {
			if p.not {
				return no
			}
			return yes
		}
	case *ssa.Call:
		g := StaticCallee(&x.Call)
		if p.via != "" && calleeFull(&x.Call) == "errors.Is" && len(x.Call.Args) == 2 {
			if ca := callOf(x.Call.Args[0]); ca != nil && calleeFull(&ca.Call) == p.via {
				return yes // there is no such file
			}
		}
		if p.not {
			if g != nil && strings.HasPrefix(strings.ToLower(g.Name()), "isexternalref") {
				return no
			}
			if g != nil && inRepo(g) && len(g.Blocks) > 0 && depth < 4 && a.reads(g, p, 2) {
				return a.answers(g, p, depth+1)
			}
			return -1
		}
		if g != nil && inRepo(g) && len(g.Blocks) > 0 && depth < 4 && a.reads(g, p, 2) {
			if s := a.answers(g, p, depth+1); s >= 0 {
				return s
			}
		}
		if g != nil && a.argsOf(&x.Call, p) && (p.via == "" || a.calls(g, p.via, 2) || a.argVia(&x.Call, p.via)) {
			return yes
		}
	case *ssa.BinOp:
		eq, ne := yes, no
		switch x.Op {
		case token.NEQ:
			eq, ne = no, yes
		case token.EQL:
		case token.GTR, token.LSS, token.GEQ, token.LEQ:
			if p.via != "" {
				return -1
			}
			l, rr := a.on(x.X, p), a.on(x.Y, p)
			if l && rr { // what was read under a limit is measured against it
				l, rr = a.plain(x.X, p), a.plain(x.Y, p)
			}
			if l == rr {
				return -1
			}
			greater := x.Op == token.GTR || x.Op == token.GEQ
			if confLen(x.X) && l || confLen(x.Y) && rr {
				// a list of what is allowed: empty is no restriction; anything else permits nothing by itself
				if p == permLocal {
					if greater == l {
						return yes
					}
					return no
				}
				if greater == l {
					return no
				}
				return yes
			}
			// something measured against the setting: not more than it says
			if greater == l {
				return yes
			}
			return no
		default:
			return -1
		}
		v, k := x.X, x.Y
		if _, ok := v.(*ssa.Const); ok {
			v, k = k, v
		}
		kc, ok := k.(*ssa.Const)
		if !ok {
			return -1
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && kc.Value != nil {
			s := a.permits(v, p, depth)
			if s >= 0 && (kc.Value.String() == "true") != (x.Op == token.EQL) {
				s = 1 - s
			}
			return s
		}
		switch {
		case confLen(v):
			if kc.Value != nil && kc.Value.String() == "0" && a.on(v, p) {
				if p == permLocal {
					return ne
				}
				return eq
			}
		case kc.Value == nil: // nil
			if a.typeOf(v.Type()) != "" {
				return eq // no configuration: nothing is said
			}
			if t, n := a.loadOf(v); t != "" && p.by[t+"."+n] {
				return ne
			}
			if isErrorType(v.Type()) {
				if ca := callOf(v); ca != nil && depth < 4 {
					g := StaticCallee(&ca.Call)
					if g != nil && inRepo(g) && a.enforces(g, p, depth+1) {
						return eq
					}
				}
			}
		case kc.Value.String() == `""`:
			if t, n := a.loadOf(v); t != "" && p.by[t+"."+n] && p.via == "" {
				return ne
			}
		case kc.Value.String() == `"file"`:
			if p == permHost {
				return eq // files have no host
			}
		}
	}
	return -1
}

func confLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func callOf(v ssa.Value) *ssa.Call {
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	c, _ := v.(*ssa.Call)
	return c
}

func (a *confAn) loadOf(v ssa.Value) (string, string) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return a.field(u.X)
	}
	return a.field(v)
}

// on: the value is made from a setting of the permission.
func (a *confAn) on(v ssa.Value, p *permission) bool {
	on := map[string]bool{}
	a.settingsIn(v, map[ssa.Value]bool{}, on)
	for k := range fromFields(v) {
		on[k] = true
	}
	for k := range on {
		if p.by[k] {
			return true
		}
	}
	return false
}

// plain: the value is the setting itself.
func (a *confAn) plain(v ssa.Value, p *permission) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return a.plain(x.X, p)
	case *ssa.ChangeType:
		return a.plain(x.X, p)
	case *ssa.Parameter:
		return a.on(x, p)
	}
	t, n := a.loadOf(v)
	return t != "" && p.by[t+"."+n]
}

func (a *confAn) argsOf(c *ssa.CallCommon, p *permission) bool {
	for _, x := range c.Args {
		if a.typeOf(x.Type()) == "" && a.on(x, p) {
			return true
		}
	}
	return false
}

// argVia: an argument was made with the function.
func (a *confAn) argVia(c *ssa.CallCommon, via string) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Call:
			return calleeFull(&x.Call) == via
		}
		return false
	}
	for _, x := range c.Args {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && walk(x) {
			return true
		}
	}
	return false
}

func (a *confAn) calls(g *ssa.Function, name string, depth int) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if calleeFull(ci.Common()) == name {
					return true
				}
				if h := StaticCallee(ci.Common()); h != nil && depth > 0 && inRepo(h) && h != g && a.calls(h, name, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// reads: the function looks at a setting of the permission.
func (a *confAn) reads(g *ssa.Function, p *permission, depth int) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if t, n := a.field(v); t != "" && p.by[t+"."+n] {
					return true
				}
			}
			if c, ok := in.(*ssa.Call); ok && depth > 0 {
				if h := StaticCallee(&c.Call); h != nil && h != g && inRepo(h) && a.reads(h, p, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// answers: with which answer, 0 for true and 1 for false, the function says that the permission was given.
func (a *confAn) answers(g *ssa.Function, p *permission, depth int) int {
	for want := 0; want < 2; want++ {
		n, ok := 0, true
		for _, b := range g.Blocks {
			rt, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isRet || len(rt.Results) == 0 {
				continue
			}
			v := retVal(rt, 0)
			if bs, isB := v.Type().Underlying().(*types.Basic); !isB || bs.Info()&types.IsBoolean == 0 {
				return -1
			}
			n++
			ok = ok && (!a.reaches(g, b, p) || a.implies(v, p, want, depth, map[ssa.Value]bool{}))
		}
		if ok && n > 0 {
			return want
		}
	}
	return -1
}

// implies: when the value is true (want 0) or false (want 1), the permission was given.
func (a *confAn) implies(v ssa.Value, p *permission, want, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && (x.Value.String() == "true") != (want == 0)
	case *ssa.Phi:
		for i, e := range x.Edges {
			from := x.Block().Preds[i]
			if a.implies(e, p, want, depth, seen) || !a.reaches(x.Parent(), from, p) {
				continue
			}
			if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
				if s := a.permits(iff.Cond, p, depth); s >= 0 && from.Succs[s] == x.Block() {
					continue
				}
			}
			return false
		}
		return true
	}
	return a.permits(v, p, depth) == want
}

// retVal: what a function returns, which one with defers leaves in its result.
func retVal(rt *ssa.Return, i int) ssa.Value {
	v := rt.Results[i]
	if u, ok := v.(*ssa.UnOp); ok {
		for _, x := range rt.Block().Instrs {
			if st, ok := x.(*ssa.Store); ok && st.Addr == u.X {
				v = st.Val
			}
		}
	}
	return v
}

// enforces: the function gives no error only after it asked for the permission.
func (a *confAn) enforces(g *ssa.Function, p *permission, depth int) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	rets := 0
	for _, b := range g.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(rt.Results) == 0 {
			continue
		}
		e := retVal(rt, len(rt.Results)-1)
		if !isErrorType(e.Type()) || a.surelyErr(e, b) {
			continue
		}
		rets++
		if a.reaches(g, b, p) && !(func() bool {
			ca := callOf(e)
			return ca != nil && depth < 4 && StaticCallee(&ca.Call) != nil && inRepo(StaticCallee(&ca.Call)) && a.enforces(StaticCallee(&ca.Call), p, depth+1)
		})() {
			return false
		}
	}
	return rets > 0
}

// surelyErr: the error is one.
func (a *confAn) surelyErr(e ssa.Value, b *ssa.BasicBlock) bool {
	if mi, ok := e.(*ssa.MakeInterface); ok {
		_, isConst := mi.X.(*ssa.Const)
		return !isConst
	}
	if ca := callOf(e); ca != nil {
		switch calleeFull(&ca.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	for d := b; d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.X != e || !isNilConst(bo.Y) {
			continue
		}
		if bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d {
			return true
		}
	}
	return false
}

// limited: no more of a source than the configuration says is read or handed on, and a redirect is held to the
// same rules as the source.
func (a *confAn) limited(r *Reporter) {
	for _, f := range a.fns {
		if shortPkg(fnPkg(f)) != "arazzo" {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ca, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name := calleeFull(&ca.Call)
				handler := false
				if name == "" {
					_, fld := a.anyField(ca.Call.Value)
					handler = fld == "HTTPHandler"
				}
				if name == "(*net/http.Client).Do" || name == "(*net/http.Client).Get" || name == "net/http.Get" {
					key := "redirect " + FnName(f) + " " + a.siteName(in)
					bad := ""
					for _, p := range []*permission{permScheme, permHost} {
						if !a.redirects(f, p, 0) && !a.preparedClient(f, &ca.Call, p) {
							bad = p.name
						}
					}
					if bad == "" {
						r.OK("limited", key)
					} else {
						r.Bad("limited", key, a.w.InstrPos(in), "a redirect is followed without asking "+bad)
					}
					continue
				}
				if name != "io.ReadAll" && name != "os.ReadFile" && !handler {
					continue
				}
				n++
				key := fmt.Sprintf("read %s#%d", FnName(f), n)
				if !handler {
					lim := callOf(confBare(ca.Call.Args[0]))
					if name == "os.ReadFile" || lim == nil || calleeFull(&lim.Call) != "io.LimitReader" || !a.on(lim.Call.Args[1], permSize) {
						r.Bad("limited", key, a.w.InstrPos(in), "what is read here is not limited by MaxBodySize")
						continue
					}
				}
				bad := false
				for _, q := range f.Blocks {
					rt, ok := q.Instrs[len(q.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					for i := range rt.Results {
						v := retVal(rt, i)
						if callOf(v) == ca && !isErrorType(v.Type()) && a.reaches(f, q, permSize) {
							bad = true
						}
					}
				}
				if bad {
					r.Bad("limited", key, a.w.InstrPos(in), "what is read here is handed on without its size being compared with MaxBodySize")
				} else {
					r.OK("limited", key)
				}
			}
		}
	}
}

func confBare(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// redirects: the client in the function, or in one that is called there to make or to prepare a client, is given a
// test of redirects that enforces the permission. A client the function is handed is prepared by all of its callers.
func (a *confAn) redirects(f *ssa.Function, p *permission, depth int) bool {
	if depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ca, ok := in.(*ssa.Call); ok {
				if g := StaticCallee(&ca.Call); g != nil && len(g.Blocks) > 0 && g != f && handlesClient(g.Signature) && a.redirects(g, p, depth+1) {
					return true
				}
				continue
			}
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "CheckRedirect" {
				continue
			}
			if g := funcOf(st.Val, 0); g != nil && a.enforces(g, p, 0) {
				return true
			}
		}
	}
	return false
}

// preparedClient: the client is one the function is handed, and all of its callers prepare it.
func (a *confAn) preparedClient(f *ssa.Function, call *ssa.CallCommon, p *permission) bool {
	if len(call.Args) == 0 {
		return false
	}
	if _, ok := call.Args[0].(*ssa.Parameter); !ok {
		return false
	}
	cs := (&nilAn{w: a.w}).callers()[f]
	for _, c := range cs {
		if !a.redirects(c.Parent(), p, 0) {
			return false
		}
	}
	return len(cs) > 0
}

// handlesClient: an http client is among what the function is handed or hands back.
func handlesClient(sig *types.Signature) bool {
	for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
		for i := 0; i < t.Len(); i++ {
			if strings.HasSuffix(t.At(i).Type().String(), "net/http.Client") {
				return true
			}
		}
	}
	return false
}

// funcOf: the function a value is, or is made into by what it comes from.
func funcOf(v ssa.Value, depth int) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcOf(x.X, depth)
	case *ssa.Call:
		g := StaticCallee(&x.Call)
		if g == nil || depth > 2 {
			return nil
		}
		for _, b := range g.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				return funcOf(rt.Results[0], depth+1)
			}
		}
	}
	return nil
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func bareName(t types.Type) string {
	if n := namedOf(derefType(t)); n != nil {
		return n.Obj().Name()
	}
	return ""
}
