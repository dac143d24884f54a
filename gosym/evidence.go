package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func writeEvidence(exs []*Explorer, pool *Pool, violations, validated int, mismatched []string, notRepro map[string]int, known []string, replayErr string, wall, loadT time.Duration) {
	fns := map[string]bool{}
	var decisions int64
	harn := map[string]any{}
	bounds := map[string]string{}
	incomplete := map[string]int64{}
	var samples []string
	complete := true
	for _, ex := range exs {
		for f := range ex.fns {
			if strings.Contains(f, "ryanolee/go-chaff") && !strings.Contains(f, "zzverif") {
				fns[f] = true
			}
		}
		decisions += ex.decisions
		for k, v := range ex.bounds {
			bounds[ex.harness+": "+k] = v
		}
		for k, v := range ex.incompl {
			incomplete[k] += v
		}
		for i, s := range ex.samples {
			if i < 2 {
				samples = append(samples, ex.harness+": "+s)
			}
		}
		if ex.timedOut || ex.leftover > 0 || len(ex.incompl) > 0 {
			complete = false
		}
		harn[ex.harness] = map[string]any{"paths": ex.paths, "statements": ex.checks, "explored_completely": !ex.timedOut && ex.leftover == 0 && len(ex.incompl) == 0,
			"unexplored_prefixes": ex.leftover, "queries": ex.queries, "solver_s": round3(ex.solverTime.Seconds())}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, strings.ReplaceAll(f, "github.com/ryanolee/go-chaff", "chaff"))
	}
	sort.Strings(fl)
	if len(samples) > 40 {
		samples = samples[:40]
	}
	if len(samples) == 0 {
		samples = []string{"no path completed"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": *flagProp, "tier": *flagTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": totalPaths(exs), "transitions": decisions, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":        complete,
			"explanation":       "states = symbolic paths explored to their end; transitions = branch decisions along them (each covering all input and random values consistent with the path condition)",
			"harnesses":         harn,
			"functions_encoded": fl,
			"functions_count":   len(fl),
			"queries":           pool.queries, "queries_sat": pool.nsat, "queries_unsat": pool.nunsat, "queries_unknown": pool.nunknown,
			"solver_s":                  round3(pool.solverTime.Seconds()),
			"solver":                    *flagSolver,
			"instructions":              pool.steps,
			"bounds":                    bounds,
			"paths_not_followed":        incomplete,
			"trace_mismatches":          mismatched,
			"candidates_not_reproduced": notRepro,
			"known_findings_seen":       known,
			"replay_error":              replayErr,
			"load_s":                    round3(loadT.Seconds()),
		},
		"assumptions": []string{
			"the bounds listed in coverage.bounds; nothing is claimed outside them",
			"models of the standard library (strings, strconv, encoding/json, math, math/rand, sort, sync, regexp matching) and of funk, faker, time formatting and santhosh-tekuri/jsonschema as described in DESIGN.md",
			"float64 arithmetic is exact rational arithmetic where the operands stay on a dyadic grid of 53 bits, and a monotone rounding relaxation elsewhere; candidates of the relaxation are confirmed on the real code",
			"paths_not_followed lists the paths whose continuation could not be encoded; the verdict does not extend to them",
		},
		"wall_s": round3(wall.Seconds()), "violations": violations,
	}
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	os.WriteFile(filepath.Join(dir, *flagProp+".json"), append(b, '\n'), 0o644)
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }
