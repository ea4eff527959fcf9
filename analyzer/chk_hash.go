package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "for every low-level model type and every content field: a value derived from that field (for maps: from its keys and its values) is written to the hash, decided only by that field's own presence, in no loop that can stop early", checkHash)
}

func isHashSinkType(t types.Type) bool {
	return IsType(t, "hash/maphash", "Hash") || IsType(t, "strings", "Builder") || IsType(t, "bytes", "Buffer")
}

func newHashWalker(w *World) *sinkWalker {
	s := newSinkWalker(w)
	s.carries = isHashSinkType
	s.direct = func(f *Family, in ssa.CallInstruction) ([]ssa.Value, bool) {
		cc := in.Common()
		callee := cc.StaticCallee()
		if callee == nil || inRepo(callee) {
			return nil, false
		}
		has := false
		var vals []ssa.Value
		for _, a := range cc.Args {
			if isHashSinkType(stripIface(a).Type()) {
				has = true
			} else {
				vals = append(vals, a)
			}
		}
		if !has || len(vals) == 0 {
			return nil, false
		}
		return vals, true
	}
	return s
}

func stripIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// fieldGateOK: every condition origin is on field fld of root parameter, or on the
// receiver itself (nil test), or on a non-struct parameter of the hash function.
func gatesOnlyOn(gates OrgSet, recv *ssa.Parameter, fld *types.Var) (bool, string) {
	for o := range gates {
		if o.Root != recv {
			continue
		}
		if o.Field == nil || o.Field == fld {
			continue
		}
		return false, o.Field.Name()
	}
	return true, ""
}

func isOrderedMapField(t types.Type) bool {
	s := t.String()
	return strings.Contains(s, "orderedmap.Map[") && !strings.HasPrefix(s, "[]")
}

// hashExempt: content fields deliberately outside the hash.
var hashExempt = map[string]string{
	"base.Contact.Extensions": "extensions of a contact are not part of its identity (see the comment in Contact.Hash)",
	"base.License.Extensions": "as for Contact",
	"v2.PathItem.Ref":         "a $ref is a pointer; the content it resolves to is hashed",
}

func checkHash(w *World, r *Reporter) {
	sw := newHashWalker(w)
	for _, m := range w.LowModels() {
		r.Fn(FnName(m.Hash))
		// follow trivial delegation: Hash() { return s.hash(x) }
		evs := hashEvents(sw, m.Hash)
		recv := m.Hash.Params[0]
		for _, fld := range m.Fields {
			key := m.Name() + "." + fld.Name()
			if _, ok := hashExempt[key]; ok {
				continue
			}
			want := []string{""}
			if isOrderedMapField(fld.Type()) {
				want = []string{"K", "V"}
			}
			for _, kv := range want {
				k := key
				rule := "field-hashed"
				if kv == "K" {
					k += "#keys"
					rule = "map-key-hashed"
				}
				found, why := false, "no value derived from it is written to the hash"
				for _, e := range evs {
					hit := false
					for o := range e.Orgs {
						if o.Root == recv && o.Field == fld && o.Part != "KeyNode" && (kv == "" || o.KV == "" || o.KV == kv) {
							hit = true
						}
					}
					if !hit {
						continue
					}
					if e.Early {
						why = "it is written in a loop that can stop before the last element (" + e.Pos + ")"
						continue
					}
					if ok, other := gatesOnlyOn(e.Gates, recv, fld); !ok {
						why = "whether it is written depends on another field, " + other + " (" + e.Pos + ")"
						continue
					}
					found = true
				}
				if found {
					r.OK(rule, k)
				} else {
					r.Bad(rule, k, w.Pos(m.Hash.Pos()), fmt.Sprintf("%s.Hash does not cover field %s: %s; two objects that differ only there hash alike and are compared as equal", m.Name(), fld.Name(), why))
				}
			}
		}
	}
	for f := range sw.Visited {
		r.Fn(f)
	}
	r.Min("field-hashed", 250)
	r.Min("map-key-hashed", 30)
}

// hashEvents returns the sink events of fn, following delegation to same-receiver methods
// whose result is returned.
func hashEvents(sw *sinkWalker, fn *ssa.Function) []SinkEvent {
	evs := append([]SinkEvent(nil), sw.Events(fn)...)
	f := sw.w.Family(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			callee := c.Call.StaticCallee()
			if callee == nil || !inRepo(callee) || callee.Parent() != nil || len(callee.Blocks) == 0 || callee == fn {
				continue
			}
			if len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(fn.Params[0]) {
				continue
			}
			// only calls whose result is a hash
			if bt, ok := c.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Uint64 {
				continue
			}
			args := f.callArgs(&c.Call)
			gates := f.Gates(b)
			for _, e := range hashEvents(sw, callee) {
				g := gates.clone()
				g.addAll(compose(e.Gates, callee.Params, args))
				evs = append(evs, SinkEvent{Orgs: compose(e.Orgs, callee.Params, args), Gates: g, Pos: e.Pos, Early: e.Early, Impl: e.Impl})
			}
		}
	}
	return evs
}
