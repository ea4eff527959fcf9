// lochk: repository-specific static analyzer for pb33f/libopenapi.
//
// usage: lochk -prop H01 [-repo /repo] [-verif /verif] [-tier quick|thorough] [-v]
//
// The deciding step loads /repo's current source with go/packages, type-checks
// it, builds SSA and applies the rules registered for the property.  Exit 0: all
// obligations discharged (or listed as known findings); exit 1: at least one
// VIOLATION line was printed; exit 2: the check itself could not be decided.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// CheckFunc is one property's decision procedure.
type CheckFunc func(w *World, r *Reporter)

type checkInfo struct {
	id   string
	doc  string
	fn   CheckFunc
	rule string
}

var registry = map[string]*checkInfo{}

func register(id, rule string, fn CheckFunc) {
	registry[id] = &checkInfo{id: id, rule: rule, fn: fn}
}

// Violation is one undischarged obligation.
type Violation struct {
	Rule string
	Key  string
	Pos  string
	Msg  string
}

// Reporter collects obligations for one property.
type Reporter struct {
	w          *World
	prop       string
	oblig      map[string]int // per rule
	discharged map[string]int
	functions  map[string]bool
	samples    []string
	viol       []Violation
	mins       map[string]int
	notes      []string
	seen       map[string]bool
}

func newReporter(w *World, prop string) *Reporter {
	return &Reporter{w: w, prop: prop, oblig: map[string]int{}, discharged: map[string]int{},
		functions: map[string]bool{}, mins: map[string]int{}, seen: map[string]bool{}}
}

// OK records a discharged obligation.
func (r *Reporter) OK(rule, key string) {
	r.oblig[rule]++
	r.discharged[rule]++
	if len(r.samples) < 40 || (r.discharged[rule] <= 3) {
		r.samples = append(r.samples, rule+": "+key)
	}
}

// Bad records a violated obligation.  key must not contain line numbers.
func (r *Reporter) Bad(rule, key, pos, msg string) {
	k := rule + "|" + key
	r.oblig[rule]++
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.viol = append(r.viol, Violation{Rule: rule, Key: key, Pos: pos, Msg: msg})
}

// Min demands that at least n obligations of rule were examined.
func (r *Reporter) Min(rule string, n int) { r.mins[rule] = n }

// Fn notes a function as analysed.
func (r *Reporter) Fn(name string) { r.functions[name] = true }

func (r *Reporter) Note(s string) { r.notes = append(r.notes, s) }

type knownFinding struct {
	prop, rule, key, text string
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []knownFinding
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "known: ") {
			continue // comments and "fixed:" lines suppress nothing
		}
		rest := strings.TrimPrefix(ln, "known: ")
		parts := strings.SplitN(rest, " :: ", 2)
		var k knownFinding
		if len(parts) == 2 {
			k.text = parts[1]
		}
		for _, f := range strings.Fields(parts[0]) {
			kv := strings.SplitN(f, "=", 2)
			if len(kv) != 2 {
				return nil, fmt.Errorf("bad known finding line: %s", ln)
			}
			switch kv[0] {
			case "property":
				k.prop = kv[1]
			case "rule":
				k.rule = kv[1]
			case "key":
				k.key = kv[1]
			}
		}
		if k.prop == "" || k.rule == "" || k.key == "" {
			return nil, fmt.Errorf("bad known finding line: %s", ln)
		}
		out = append(out, k)
	}
	return out, nil
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository root")
	verif := flag.String("verif", "/verif", "framework root")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list properties")
	dump := flag.String("dump", "", "debug dump")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()
	if *list {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, registry[id].rule)
		}
		return
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	start := time.Now()
	w, err := LoadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "lochk: cannot load", *repo, ":", err)
		os.Exit(2)
	}
	if *dump != "" {
		runDump(w, *dump, flag.Args())
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = nil
		for id := range registry {
			props = append(props, id)
		}
		sort.Strings(props)
	}
	known, err := loadKnown(filepath.Join(*verif, "known_findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "lochk:", err)
		os.Exit(2)
	}
	rc := 0
	for _, p := range props {
		ci := registry[p]
		if ci == nil {
			fmt.Fprintln(os.Stderr, "lochk: unknown property", p)
			os.Exit(2)
		}
		w.tier = *tier
		code := runOne(w, ci, known, *verif, *tier, *verbose, !*noev, start)
		if code > rc {
			rc = code
		}
		start = time.Now()
	}
	os.Exit(rc)
}

func runOne(w *World, ci *checkInfo, known []knownFinding, verif, tier string, verbose, evid bool, start time.Time) (code int) {
	r := newReporter(w, ci.id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("LOCHK_PANIC") != "" {
					panic(e)
				}
				r.Bad("internal", "analysis-failure", "-", fmt.Sprintf("the analysis itself failed (undecided): %v", e))
			}
		}()
		ci.fn(w, r)
	}()
	for rule, n := range r.mins {
		if r.oblig[rule] < n {
			r.Bad("instances", rule, "-", fmt.Sprintf("rule %s matched %d instances; at least %d were confirmed by reading, so its anchors no longer resolve", rule, r.oblig[rule], n))
		}
	}
	sort.SliceStable(r.viol, func(i, j int) bool {
		if r.viol[i].Rule != r.viol[j].Rule {
			return r.viol[i].Rule < r.viol[j].Rule
		}
		return r.viol[i].Key < r.viol[j].Key
	})
	kmap := map[string]knownFinding{}
	for _, k := range known {
		if k.prop == ci.id {
			kmap[k.rule+"|"+k.key] = k
		}
	}
	var fresh, old []Violation
	for _, v := range r.viol {
		if _, ok := kmap[v.Rule+"|"+v.Key]; ok {
			old = append(old, v)
		} else {
			fresh = append(fresh, v)
		}
	}
	for _, v := range old {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s %s: %s\n", ci.id, v.Rule, v.Key, v.Pos, v.Msg)
	}
	total, disch := 0, 0
	var rules []string
	for k := range r.oblig {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	perRule := map[string]any{}
	for _, k := range rules {
		total += r.oblig[k]
		disch += r.discharged[k]
		perRule[k] = map[string]int{"obligations": r.oblig[k], "discharged": r.discharged[k]}
	}
	replay := filepath.Join(verif, "evidence", ci.id+".violations.txt")
	if len(fresh) > 0 {
		var sb strings.Builder
		for _, v := range fresh {
			fmt.Fprintf(&sb, "property %s\nrule     %s\ninstance %s\nat       %s\n%s\n\n", ci.id, v.Rule, v.Key, v.Pos, v.Msg)
		}
		if evid {
			_ = os.MkdirAll(filepath.Dir(replay), 0o755)
			_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
		}
		for _, v := range fresh {
			fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Key, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ci.id, replay)
		code = 1
	} else {
		_ = os.Remove(replay)
		fmt.Printf("ok property=%s obligations=%d discharged=%d known=%d functions=%d\n", ci.id, total, disch, len(old), len(r.functions))
	}
	if verbose {
		for _, k := range rules {
			fmt.Printf("  rule %-28s obligations %5d discharged %5d\n", k, r.oblig[k], r.discharged[k])
		}
		for _, n := range r.notes {
			fmt.Println("  note:", n)
		}
	}
	if evid {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		var fns []string
		for f := range r.functions {
			fns = append(fns, f)
		}
		sort.Strings(fns)
		nf := len(fns)
		if len(fns) > 60 {
			fns = fns[:60]
		}
		smp := r.samples
		if len(smp) > 60 {
			smp = smp[:60]
		}
		ev := map[string]any{
			"property": ci.id, "tier": tier, "seed": seed, "level": "other",
			"coverage": map[string]any{
				"explanation":          "Static analysis of the type-checked program and its SSA form (no execution). Rule: " + ci.rule,
				"obligations":          total,
				"discharged":           disch,
				"known_findings":       len(old),
				"rules":                perRule,
				"functions_analysed":   nf,
				"packages_analysed":    len(w.pkgs),
				"ssa_functions_loaded": len(w.fns),
				"sample_functions":     fns,
				"samples":              smp,
				"notes":                r.notes,
			},
			"assumptions": []string{
				"go/packages, go/types and golang.org/x/tools/go/ssa v0.52.0 represent the source faithfully for the linux/amd64 build without optional build tags",
				"reflection and unsafe are modelled only where DESIGN.md says so",
			},
			"wall_s":     time.Since(start).Seconds(),
			"violations": len(fresh),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", ci.id+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "lochk: cannot write evidence:", err)
			return 2
		}
	}
	return code
}
