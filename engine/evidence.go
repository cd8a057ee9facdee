package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function

type Evidence struct {
	Property    string
	Tier        string
	Notes       []string
	Assumptions []string
	Known       []string
	Violations  []interface{}
	Unconfirmed int
	Confirmed   int
	cov         map[string]interface{}
}

func newEvidence(p, t string) *Evidence {
	return &Evidence{Property: p, Tier: t, cov: map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []interface{}{}}}
}

var baseAssumptions = []string{
	"Go semantics as encoded by engine/ (go/ssa of the current tree; 64-bit amd64; bit-vector integers, IEEE floats)",
	"goroutines run to their next blocking point in creation order (no preemption inside a path); map iteration follows insertion order",
	"time.Now is a concrete strictly increasing clock; timers and tickers never fire; harnesses pass explicit times",
	"randomness is an arbitrary byte string; logging has no effect; fmt.Errorf text is not modelled",
}

func (ev *Evidence) fill(e *Engine, rs []*EntryResult, validated int, mism []string, load, explore time.Duration, hs []harness) {
	var states, trans int64
	entries := []interface{}{}
	complete := true
	sampled := []interface{}{}
	for _, r := range rs {
		states += r.Paths
		trans += r.Steps
		for i, sm := range r.Samples {
			if i < 3 {
				sampled = append(sampled, map[string]interface{}{"entry": r.Name, "inputs": trunc(compact(sm.Inputs), 600), "observed": sm.Obs, "reached": sm.Reached})
			}
		}
		complete = complete && r.Complete
		m := map[string]interface{}{"entry": r.Name, "paths": r.Paths, "paths_completed": r.OkPaths, "paths_cut_by_assumption": r.AssumeEnd, "ssa_instructions": r.Steps,
			"assertions_checked": r.Asserts, "reach_witnesses": r.Reached, "exhaustive_within_bound": r.Complete, "unexplored_prefixes": r.Left, "wall_s": r.Wall}
		if len(r.Unsup) > 0 {
			m["unsupported"] = r.Unsup
		}
		if len(r.Notes) > 0 {
			m["reduced_bound"] = r.Notes
		}
		if len(r.ViolCount) > 0 {
			m["violations"] = r.ViolCount
		}
		entries = append(entries, m)
	}
	var bounds []string
	for _, h := range hs {
		b, _ := os.ReadFile(h.file)
		for _, m := range regexp.MustCompile(`(?m)^//vp:(bound|assume|outside) (.*)$`).FindAllStringSubmatch(string(b), -1) {
			if m[1] == "bound" {
				bounds = append(bounds, m[2])
			} else {
				ev.Assumptions = append(ev.Assumptions, m[1]+": "+m[2])
			}
		}
	}
	st := &e.stats
	ev.cov = map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": sampled,
		"meaning":                 "states = symbolic paths (each decided by the solver for every value of its inputs), transitions = SSA instructions executed symbolically, traces = path witnesses replayed natively with identical outcome and observations",
		"functions_encoded":       e.functionsSeen(),
		"entries":                 entries,
		"bounds":                  bounds,
		"exhaustive_within_bound": complete,
		"queries":                 st.Queries, "queries_sat": st.Sat, "queries_unsat": st.Unsat, "queries_unknown": st.Unknown, "queries_fallback_portfolio": st.Fallback, "solver_errors": st.Errors,
		"solver_s":         float64(st.TimeNS) / 1e9,
		"load_s":           load.Seconds(),
		"explore_s":        explore.Seconds(),
		"trace_mismatches": mism,
		"encoding":         "regenerated from the current source by go/packages + go/ssa on this run",
		"solver":           "z3 5.3.2 (incremental), fallback portfolio z3 / cvc5 / cvc5 --solve-bv-as-int=sum",
	}
}

func (ev *Evidence) write(wall time.Duration) {
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	if ev.Violations == nil {
		ev.Violations = []interface{}{}
	}
	ev.cov["unconfirmed_candidates"] = ev.Unconfirmed
	if len(ev.Notes) > 0 {
		ev.cov["notes"] = ev.Notes
	}
	if len(ev.Known) > 0 {
		ev.cov["known_findings"] = ev.Known
	}
	m := map[string]interface{}{
		"property": ev.Property, "tier": ev.Tier, "seed": seed, "level": "model_checking", "coverage": ev.cov,
		"assumptions": append(append([]string{}, baseAssumptions...), ev.Assumptions...), "wall_s": wall.Seconds(), "violations": len(ev.Violations),
	}
	if len(ev.Violations) > 0 {
		ev.cov["violation_list"] = ev.Violations
	}
	b, _ := json.MarshalIndent(m, "", " ")
	d := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, ev.Property+".json"), append(b, '\n'), 0644)
	_ = strings.TrimSpace
}
