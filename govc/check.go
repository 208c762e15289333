package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	Property   string `json:"property"`
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Status     string `json:"status"`
}

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Status != "fixed" {
			out = append(out, k)
		}
	}
	return out
}

func hasProp(d map[string]string, id string) bool {
	for _, p := range strings.Fields(d["property"]) {
		if p == id {
			return true
		}
	}
	return false
}

// relsOf finds the packages whose contract files mention the property.
func relsOf(verif, prop string) []string {
	var out []string
	for _, r := range allRels(verif) {
		ents, _ := os.ReadDir(filepath.Join(verif, "contracts", r))
		for _, e := range ents {
			b, _ := os.ReadFile(filepath.Join(verif, "contracts", r, e.Name()))
			hit := false
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//verif:property") && hasProp(map[string]string{"property": strings.TrimPrefix(l, "//verif:property")}, prop) {
					hit = true
				}
			}
			if hit {
				out = append(out, r)
				break
			}
		}
	}
	return out
}

func runCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	budget := 420 * time.Second
	nRun := 400
	if tier == "thorough" {
		budget = 3600 * time.Second
		nRun = 20000
	}
	deadline := t0.Add(budget)
	rdir := filepath.Join(verif, "replay")
	os.MkdirAll(rdir, 0o755)
	viol := 0
	say := func(name string, info map[string]interface{}, confirmed bool) {
		viol++
		f := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", prop, clean(name)))
		b, _ := json.MarshalIndent(info, "", "  ")
		os.WriteFile(f, b, 0o644)
		if confirmed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
		}
	}
	rels := relsOf(verif, prop)
	s, err := NewSuite(repo, verif, rels)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof"}
	finish := func(cov map[string]interface{}, assumptions []string) {
		ev["coverage"] = cov
		ev["assumptions"] = assumptions
		ev["wall_s"] = time.Since(t0).Seconds()
		ev["violations"] = viol
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", "  ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil || len(rels) == 0 {
		msg := "no contract mentions the property"
		if err != nil {
			msg = err.Error()
		}
		fmt.Println("the contracts could not be checked against the current tree:", msg)
		say("load", map[string]interface{}{"property": prop, "failed_obligation": "the code loads and type-checks under its contracts", "verifier_output": msg}, false)
		finish(map[string]interface{}{"obligations": 1, "discharged": 0, "checker_cmd": "govc check", "trusted_base": []string{}, "explanation": msg}, nil)
		return 1
	}

	// worklist: the contracts of the property and every contract they rely on
	var work []*FuncInfo
	inWork := map[*FuncInfo]bool{}
	for _, fi := range s.L.Contract {
		if hasProp(fi.Dirs, prop) {
			switch fi.kind() {
			case "contract", "client", "lemma":
				if s.dropped[s.name(fi)] == "" {
					work = append(work, fi)
					inWork[fi] = true
				}
			}
		}
	}
	sort.Slice(work, func(i, j int) bool { return s.name(work[i]) < s.name(work[j]) })
	var results []*Result
	own := len(work)
	for i := 0; i < len(work); i++ {
		r := s.verify(work[i], tier, deadline, "")
		results = append(results, r)
		fmt.Printf("%-52s %d/%d obligations, %.1fs\n", r.Name, len(r.Obls)-len(r.Failed), len(r.Obls), r.Wall)
		var more []*FuncInfo
		for fi := range r.UsedFi {
			if !inWork[fi] {
				inWork[fi] = true
				more = append(more, fi)
			}
		}
		sort.Slice(more, func(i, j int) bool { return s.name(more[i]) < s.name(more[j]) })
		work = append(work, more...)
	}
	type dropRec struct{ name, msg string }
	var drops []dropRec
	for k, m := range s.dropped {
		d := s.L.DroppedDirs[k]
		if d == nil {
			if fi := s.byName[k]; fi != nil {
				d = fi.Dirs
			}
		}
		if hasProp(d, prop) {
			drops = append(drops, dropRec{k, m})
		}
	}
	sort.Slice(drops, func(i, j int) bool { return drops[i].name < drops[j].name })

	// native replay of the same contracts
	models := map[*FuncInfo][]map[string]string{}
	failing := len(drops) > 0
	var cand []*FuncInfo
	for _, r := range results {
		for _, o := range r.Failed {
			failing = true
			if o.Model != nil {
				m := map[string]string{}
				for k, v := range o.Model {
					m[k] = v
				}
				models[r.Fi] = append(models[r.Fi], m)
			}
		}
		if r.Fi.kind() != "lemma" {
			cand = append(cand, r.Fi)
		}
	}
	for fi, ms := range models {
		for _, m := range ms {
			for i, n := range paramNames(fi) {
				m["$"+strconv.Itoa(i)] = n
			}
		}
	}
	lim := 6 * time.Second
	if failing {
		nRun *= 20
		lim = 40 * time.Second
	}
	if tier == "thorough" {
		lim = 120 * time.Second
	}
	ts := time.Now()
	sr := s.search(cand, models, nRun, seed, lim)
	searchWall := time.Since(ts).Seconds()
	confirmed := map[*FuncInfo]*SearchRes{}
	runs, skipped := 0, 0
	var harnessErrs []string
	for _, r := range sr {
		runs += r.Runs
		skipped += r.Skipped
		if r.Msg != "" {
			confirmed[r.Fi] = r
		}
		if r.Err != "" {
			harnessErrs = append(harnessErrs, r.Name+": "+r.Err)
			fmt.Println("replay harness:", r.Name, short(r.Err, 400))
		}
	}

	kn := loadKnown(verif)
	isKnown := func(contract, obl string) *known {
		for i := range kn {
			if kn[i].Property == prop && kn[i].Contract == contract && kn[i].Obligation == obl {
				return &kn[i]
			}
		}
		return nil
	}
	oblJSON := func(o *Obl) map[string]interface{} {
		return map[string]interface{}{"obligation": o.Name, "kind": o.Kind, "at": o.Pos, "verdict": o.Status, "verifier_output": short(o.Why, 4000), "model": o.Model}
	}
	anyConfirmed := len(confirmed) > 0
	for _, r := range results {
		var bad []*Obl
		for _, o := range r.Failed {
			if k := isKnown(r.Name, o.Name); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				continue
			}
			bad = append(bad, o)
		}
		c := confirmed[r.Fi]
		if c != nil {
			if k := isKnown(r.Name, c.Msg); k != nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				c = nil
			}
		}
		if len(bad) == 0 && c == nil {
			continue
		}
		info := map[string]interface{}{"property": prop, "contract": r.Name, "target": r.Fi.Dirs[r.Fi.kind()]}
		var os []interface{}
		for _, o := range bad {
			os = append(os, oblJSON(o))
			fmt.Printf("  failed obligation: %s [%s] at %s of %s\n", o.Name, o.Kind, o.Pos, r.Name)
		}
		info["failed_obligations"] = os
		info["dropped_invariants"] = r.Dropped
		if c != nil {
			info["failing_input"] = c.Input
			info["observed"] = c.Msg
			info["input_from_solver_model"] = c.FromMod
			info["replay"] = fmt.Sprintf("cd %s && bin/govc fuzz -seed %d -n %d %s", verif, seed, nRun, r.Name)
			fmt.Printf("  failing input of %s: %s -> %s\n", r.Name, short(c.Input, 300), c.Msg)
		}
		say(r.Name, info, c != nil)
	}
	for _, d := range drops {
		fmt.Printf("  contract %s no longer fits the code: %s\n", d.name, d.msg)
		say(d.name, map[string]interface{}{"property": prop, "contract": d.name, "failed_obligation": "the contract type-checks against the code", "verifier_output": d.msg}, false)
	}
	_ = anyConfirmed

	// evidence
	total, dis := 0, 0
	back := map[string]int{}
	kinds := map[string]int{}
	funcs := map[string]bool{}
	trusted := map[string]bool{}
	smt := 0.0
	queries := 0
	bounded := []string{}
	var cts []interface{}
	var samples []string
	for _, r := range results {
		t, d := len(r.Obls), len(r.Obls)-len(r.Failed)
		_, isB := r.Fi.Dirs["bound"]
		if isB {
			bounded = append(bounded, r.Name+" (loops unrolled to "+r.Fi.Dirs["bound"]+" iterations)")
		} else {
			total += t
			dis += d
		}
		for _, o := range r.Obls {
			if o.Status == "proved" {
				back[o.Backend]++
			}
			kinds[o.Kind]++
		}
		for f := range r.Used {
			funcs[f] = true
		}
		for f := range r.Trusted {
			trusted[f] = true
		}
		smt += r.SMT
		queries += r.Queries
		cts = append(cts, map[string]interface{}{"contract": r.Name, "target": r.Fi.Dirs[r.Fi.kind()], "kind": r.Fi.kind(), "obligations": t, "discharged": d, "bounded": isB, "wall_s": r.Wall, "invariants_dropped": len(r.Dropped)})
		for _, o := range r.Obls {
			if len(samples) < 12 && o.Kind == "ensures" {
				samples = append(samples, r.Name+": "+o.Name+" ["+o.Status+", "+o.Backend+"]")
			}
		}
	}
	var fl, tb []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for f := range trusted {
		tb = append(tb, f)
	}
	sort.Strings(tb)
	tb = append(tb,
		"govc: the verification-condition generator in /verif/govc (symbolic execution of the type-checked Go source)",
		"z3 5.3.2, z3 4.8.12, cvc5 1.1.2 as decision procedures; polynomial normal forms in govc",
		"go/parser and go/types of the installed Go toolchain")
	cov := map[string]interface{}{
		"obligations": total, "discharged": dis,
		"checker_cmd":           fmt.Sprintf("bin/govc check -property %s -tier %s", prop, tier),
		"trusted_base":          tb,
		"contracts":             cts,
		"contracts_of_property": own,
		"functions_executed":    fl,
		"backends":              back, "obligation_kinds": kinds,
		"solver_time_s": smt, "solver_queries": queries,
		"bounded_not_counted":    bounded,
		"runtime_contract_runs":  runs,
		"runtime_contract_skips": skipped,
		"runtime_note":           "the same contract functions executed natively on generated inputs; a replay aid, not part of the proof",
		"runtime_wall_s":         searchWall,
		"samples":                samples,
	}
	if len(harnessErrs) > 0 {
		cov["runtime_errors"] = harnessErrs
	}
	finish(cov, []string{
		"float64/float32 arithmetic is treated as real arithmetic (no rounding, overflow, NaN or infinity)",
		"int arithmetic is mathematical (no 64-bit overflow); fixed-width unsigned integers are bit-vectors",
		"slice and pointer parameters of the function under contract do not alias one another unless its contract says so",
		"package variables hold their initial values when a function under contract is entered",
		"termination is proved only where a measure is given",
	})
	if viol > 0 {
		return 1
	}
	fmt.Printf("property %s: %d/%d obligations discharged, %.1fs\n", prop, dis, total, time.Since(t0).Seconds())
	return 0
}

func paramNames(fi *FuncInfo) []string {
	var out []string
	for _, f := range fi.Decl.Type.Params.List {
		for _, n := range f.Names {
			out = append(out, n.Name)
		}
	}
	return out
}
