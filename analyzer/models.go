package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model is a low-level model type.
type Model struct {
	N      *types.Named
	Pkg    string // base, v2, v3, arazzo, overlay
	Fields []*types.Var
	Hash   *ssa.Function
	Build  *ssa.Function
}

// Name is pkg.Type.
func (m *Model) Name() string { return m.Pkg + "." + m.N.Obj().Name() }

func isLowGeneric(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil {
			return false
		}
		if o.Pkg().Path() == modPath+"/datamodel/low" {
			switch o.Name() {
			case "NodeReference", "ValueReference", "KeyReference":
				return true
			}
		}
		if o.Pkg().Path() == modPath+"/orderedmap" && o.Name() == "Map" {
			return true
		}
	case *types.Slice:
		return isLowGeneric(x.Elem())
	}
	return false
}

// LowModels discovers every low-level model type: a struct in datamodel/low/* whose
// pointer has Hash() uint64.
func (w *World) LowModels() []*Model {
	var out []*Model
	for _, m := range w.AllLow() {
		if m.Hash != nil {
			out = append(out, m)
		}
	}
	return out
}

// AllLow also includes low model structs without a Hash method (they have at least one
// content field and are exported).
func (w *World) AllLow() []*Model {
	if w.lowAll != nil {
		return w.lowAll
	}
	var out []*Model
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath+"/datamodel/low/") {
			continue
		}
		sc := p.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			st, ok := n.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			m := &Model{N: n, Pkg: p.Types.Name()}
			m.Hash = w.Method(n, "Hash")
			m.Build = w.Method(n, "Build")
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() || f.Embedded() {
					continue
				}
				if f.Name() == "KeyNode" || f.Name() == "RootNode" || f.Name() == "Index" {
					continue
				}
				if isLowGeneric(f.Type()) {
					m.Fields = append(m.Fields, f)
				}
			}
			if !tn.Exported() || (m.Hash == nil && len(m.Fields) == 0) {
				continue
			}
			out = append(out, m)
		}
	}
	w.lowAll = out
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
