package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/eng"
)

// finding is an entry of known_findings.json.
type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"` // exact obligation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
	}
	return k.Findings
}

func match(known []finding, id, harness string, v *eng.Violation) *finding {
	for i := range known {
		k := &known[i]
		if k.Fixed == "" && k.Property == id && k.Harness == harness && k.Msg == v.Msg {
			return k
		}
	}
	return nil
}

type hcov struct {
	Harness      string           `json:"harness"`
	Bounds       string           `json:"bounds"`
	Paths        int64            `json:"paths"`
	Infeasible   int64            `json:"paths_cut_by_assumption"`
	Instr        int64            `json:"ssa_instructions"`
	Decisions    int64            `json:"decisions"`
	Queries      int              `json:"queries"`
	Sat          int              `json:"sat"`
	Unsat        int              `json:"unsat"`
	Unknown      int              `json:"unknown"`
	Fallback     int              `json:"second_solver_queries"`
	Cross        int              `json:"unsat_cross_checked"`
	CrossBad     int              `json:"cross_check_disagreements"`
	Obligations  int64            `json:"obligations_solved"`
	Trivial      int64            `json:"obligations_simplified"`
	SolverS      float64          `json:"solver_s"`
	WallS        float64          `json:"wall_s"`
	Replayed     int              `json:"paths_replayed_natively"`
	Mismatch     int              `json:"replay_mismatches"`
	Unconfirmed  []string         `json:"unconfirmed,omitempty"`
	Inconclusive map[string]int   `json:"inconclusive,omitempty"`
	Unreached    []string         `json:"unreached,omitempty"`
	Reached      map[string]int64 `json:"reached,omitempty"`
}

func report(id string, outs []*outcome, skipped []string, loadT, wall time.Duration, check bool) int {
	var hc []hcov
	var states, trans, replayed int64
	fns, rfns := map[string]bool{}, map[string]bool{}
	var viol []map[string]any
	complete := len(skipped) == 0
	for _, s := range skipped {
		fmt.Println("  not run:", s)
	}
	var queries int
	var solver float64
	known := map[string]bool{}
	rc := 0
	var samples []any
	for _, o := range outs {
		ex := o.ex
		b := o.h.Bounds[tier]
		if b == "" {
			b = o.h.Bounds[0]
		}
		hc = append(hc, hcov{o.h.Name, b, ex.Paths, ex.Pruned, ex.Steps, ex.Decisions, ex.Queries, ex.SatN, ex.UnsatN, ex.UnknownN, ex.Fallback,
			ex.CrossN, ex.CrossBad, ex.Asserts, ex.AssertTriv, ex.SolverTime.Seconds(), ex.Wall.Seconds(), o.validated, len(o.mismatch), o.unconf, ex.Incomplete, o.unreached, ex.Reached})
		states += ex.Paths
		trans += ex.Steps
		replayed += int64(o.validated + len(o.confirmed) + len(o.known))
		queries += ex.Queries
		solver += ex.SolverTime.Seconds()
		if len(ex.Incomplete) > 0 || len(o.unconf) > 0 || len(o.mismatch) > 0 || len(o.unreached) > 0 || ex.CrossBad > 0 {
			complete = false
		}
		for f := range ex.Fns {
			fns[f] = true
		}
		for f := range ex.RepoFns {
			rfns[f] = true
		}
		for i, s := range ex.Samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": o.h.Name, "inputs": s.Inputs, "observed": s.Observed})
			}
		}
		for _, k := range o.known {
			known[k] = true
		}
		for _, v := range o.confirmed {
			rc = 1
			dir := filepath.Join(verifDir, "out", "replays", id)
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", o.h.Name, len(viol)))
			b, _ := json.MarshalIndent(map[string]any{"harness": o.h.Name, "tier": tier, "inputs": v.Inputs, "kind": v.Kind, "msg": v.Msg, "where": v.Where, "observed": v.Observed}, "", " ")
			os.WriteFile(p, b, 0o644)
			viol = append(viol, map[string]any{"harness": o.h.Name, "kind": v.Kind, "msg": v.Msg, "where": v.Where, "replay": p})
			fmt.Printf("  %s: %s: %s at %s\n", o.h.Name, v.Kind, v.Msg, v.Where)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
	}
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if !check {
		return rc
	}
	keys := func(m map[string]bool) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	tn := "quick"
	if tier == 1 {
		tn = "thorough"
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": replayed,
		"samples":                samples,
		"meaning":                "states: symbolic paths completed; transitions: SSA instructions interpreted; traces: paths whose model was replayed on the compiled code with equal observations",
		"complete_within_bounds": complete,
		"harnesses_not_run":      skipped,
		"functions_encoded_repo": keys(rfns), "functions_encoded_total": len(fns),
		"queries": queries, "solver_s": solver, "load_s": loadT.Seconds(),
		"harnesses": hc,
	}
	ev := map[string]any{
		"property": id, "tier": tn, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": wall.Seconds(),
		"assumptions": []string{
			"go/ssa represents the compiled program; amd64 semantics; functions outside the repository that reach the OS or assembly are replaced by /verif/models and eng/intr.go",
			"bounds as listed per harness; nothing is claimed outside them",
		},
	}
	if len(viol) > 0 {
		ev["violations"] = len(viol)
		cov["violations"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	st := "held on everything within the bounds"
	if !complete {
		st = "held on everything explored; the exploration is not complete (see above)"
	}
	if rc != 0 {
		st = "VIOLATED"
	}
	fmt.Printf("%s: %s; %d paths, %d queries, %.1fs\n", id, st, states, queries, wall.Seconds())
	_ = strings.Join
	return rc
}
