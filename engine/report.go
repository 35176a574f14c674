package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func report(prog *Program, results []*result, verif string, t0 time.Time, known *knownSet, rp *replayer) int {
	prop := *flagProp
	var ddQ, ddConf int
	var states, trans, paths, queries, sat, unsat, unk, asserts, wit, witOK, merges, viol int
	var solver float64
	var bounds, incomplete []string
	var samples []any
	closed := map[string]int{}
	covers := map[string]bool{}
	var missing []string
	asrt := map[string]int{}
	var found, knownF []*finding
	for _, r := range results {
		ex := r.ex
		states += ex.nStates + 1
		trans += ex.nSteps
		paths += ex.nPaths
		queries += ex.sol.Queries
		ddQ += ex.sol.bdd.hits
		ddConf += ex.sol.oblN
		if n := len(ex.sol.oblBad); n > 0 {
			incomplete = append(incomplete, fmt.Sprintf("%s: the solver refuted %d verdicts of the decision diagram", r.cs.name, n))
		}
		if ex.closed != "" {
			closed[ex.closed]++
		}
		sat += ex.sol.SatN
		unsat += ex.sol.UnsatN
		unk += ex.sol.UnkN
		merges += ex.nMerges
		asserts += ex.assertQ
		solver += ex.sol.Time.Seconds()
		wit += r.wit
		witOK += r.witOK
		b := fmt.Sprintf("%s maxloop=%d", r.cs.name, r.cs.maxLoop)
		if r.cs.race || r.cs.preempt != 2 {
			b += fmt.Sprintf(" preemptions<=%d", r.cs.preempt)
		}
		b += fmt.Sprintf(" paths=%d %.1fs", ex.nPaths, r.secs)
		if r.done {
			b += " complete"
		} else {
			b += " NOT complete"
			for k, n := range ex.cut {
				incomplete = append(incomplete, fmt.Sprintf("%s: %s (x%d)", r.cs.name, k, n))
			}
		}
		bounds = append(bounds, b)
		for k := range ex.covers {
			covers[k] = true
		}
		for _, k := range r.cs.covers {
			if !ex.covers[k] {
				missing = append(missing, r.cs.name+": "+k)
			}
		}
		if ex.ends["done"]+ex.ends["exit"] == 0 && len(r.found) == 0 {
			missing = append(missing, r.cs.name+": no path completes")
		}
		for k, n := range ex.asserts {
			asrt[k] += n
		}
		samples = append(samples, r.samples...)
		incomplete = append(incomplete, r.witBad...)
		for _, f := range r.found {
			if f.known != "" {
				knownF = append(knownF, f)
			} else {
				found = append(found, f)
			}
		}
	}
	viol = len(found)
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []any{"no completed sequential path was sampled in this run"}
	}
	var fns []string
	for _, fi := range prog.fns {
		if fi.inRepo && fi.hits > 0 {
			fns = append(fns, fmt.Sprintf("%s x%d", strings.ReplaceAll(fi.name, repoPath, "CloudForest"), fi.hits))
		}
	}
	sort.Strings(fns)
	var cv []string
	for k := range covers {
		cv = append(cv, k)
	}
	sort.Strings(cv)
	sort.Strings(incomplete)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nonNil := func(s []string) []string {
		if s == nil {
			return []string{}
		}
		return s
	}
	ev := map[string]any{
		"property": prop, "tier": *flagTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": witOK,
			"traces_tried": wit, "samples": samples, "paths": paths, "merges": merges,
			"assertion_sites_reached": asrt, "assertion_queries": asserts,
			"decision_diagram_verdicts": ddQ, "decision_diagram_verdicts_confirmed_by_solver": ddConf,
			"solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk,
			"solver_seconds": solver, "solver": strings.Join(solverArgv(), " "),
			"every_input_follows_a_checked_path": closed,
			"functions_encoded": nonNil(fns), "bounds": bounds, "incomplete": nonNil(incomplete),
			"covers_reached": nonNil(cv), "covers_missing": nonNil(missing),
			"exhaustive":  len(incomplete) == 0 && len(missing) == 0,
			"explanation": "Bounded symbolic execution of the current source (go/ssa), every path within the bounds; states = symbolic states forked, transitions = SSA instructions executed symbolically; each assertion decided by the SMT solver.",
		},
		"assumptions": assumptions(),
		"wall_s":      time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)

	fmt.Printf("%s %s: %d cases, %d paths, %d states, %d steps, %d solver queries, %d diagram verdicts (%.1fs), %d/%d traces validated, %.1fs\n", prop, *flagTier, len(results), paths, states, trans, queries, ddQ, solver, witOK, wit, time.Since(t0).Seconds())
	for i, s := range incomplete {
		if i < 12 || *flagV {
			if len(s) > 1000 && !*flagV {
				s = s[:1000] + "..."
			}
			fmt.Println("INCONCLUSIVE", s)
		}
	}
	for _, s := range missing {
		fmt.Println("VACUITY not reached:", s)
	}
	seen := map[string]bool{}
	for _, f := range knownF {
		if !seen[f.known] {
			seen[f.known] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.known)
		}
	}
	for _, f := range found {
		fmt.Println("  ", f.text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f.file)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

func assumptions() []string {
	return []string{
		"inputs, random draws, map iteration orders (where a case says maporder) and goroutine schedules (within the preemption bound) are symbolic; everything else is as the harness fixes it",
		"random floats are drawn from {0, 1/4, 1/2, 3/4, 1-2^-53}; random integers range over all values the call allows",
		"library functions replaced by models: fmt formatting, files (in-memory), log (no output; Fatal ends the path), time (constant), strconv on concrete text; math functions are evaluated natively per value",
		"go/ssa's translation and the SMT solver are trusted; sampled paths are replayed natively to validate the encoding",
	}
}
