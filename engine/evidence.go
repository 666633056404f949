package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type harnessResult struct {
	Harness       string            `json:"harness"`
	What          string            `json:"what"`
	Bounds        string            `json:"bounds"`
	Env           map[string]string `json:"env,omitempty"`
	Paths         int64             `json:"paths"`
	Pruned        int64             `json:"paths_cut_by_assumption"`
	Asserts       int64             `json:"assertions_decided"`
	Folded        int64             `json:"assertions_decided_by_rewriting"`
	Steps         int64             `json:"ssa_instructions"`
	Forks         int64             `json:"forks"`
	Branches      int64             `json:"symbolic_branches"`
	Merges        int64             `json:"functions_summarised"`
	Queries       int               `json:"solver_queries"`
	CacheHits     int               `json:"queries_from_cache"`
	Sat           int               `json:"sat"`
	Unsat         int               `json:"unsat"`
	Unknown       int               `json:"unknown"`
	SolverS       float64           `json:"solver_s"`
	MaxQueryS     float64           `json:"max_query_s"`
	WallS         float64           `json:"wall_s"`
	Complete      bool              `json:"complete_within_bounds"`
	TimedOut      bool              `json:"timed_out"`
	Unsupported   int64             `json:"paths_not_encoded"`
	UnsupWhy      []string          `json:"not_encoded_reasons,omitempty"`
	Unconfirmed   []string          `json:"unconfirmed_candidates,omitempty"`
	Violations    []string          `json:"violations,omitempty"`
	Known         []string          `json:"known_findings,omitempty"`
	Reach         map[string]int64  `json:"witnesses"`
	TraceOK       int               `json:"traces_validated"`
	TraceMismatch int               `json:"traces_mismatched"`
	MismatchWhy   []string          `json:"mismatches,omitempty"`
	CrossChecked  int               `json:"unsat_queries_rechecked_by_second_solver"`
	CrossBad      int               `json:"second_solver_disagreements"`
	Samples       []string          `json:"-"`
}

func (h *harnessResult) fill(ex *Explorer) {
	h.Paths = ex.nPaths.Load()
	h.Pruned = ex.nAssume.Load()
	h.Asserts = ex.nAssert.Load()
	h.Folded = ex.nFolded.Load()
	h.Unsupported = ex.nUnsup.Load()
	h.TimedOut = ex.timedOut.Load()
	s := ex.stats
	h.Steps, h.Forks, h.Branches, h.Merges = s.Steps, s.Forks, s.Branches, s.Merges
	h.Queries, h.CacheHits, h.Sat, h.Unsat, h.Unknown = s.Queries, s.Hits, s.Sat, s.Unsat, s.Unknown
	h.SolverS, h.MaxQueryS = s.SolverS, s.MaxQueryS
	for i, k := range sortedKeys(ex.unsup) {
		if i >= 8 {
			break
		}
		h.UnsupWhy = append(h.UnsupWhy, fmt.Sprintf("%dx %s", ex.unsup[k], k))
	}
	h.Reach = ex.reach
	h.Complete = !h.TimedOut && h.Unsupported == 0 && len(h.Unconfirmed) == 0 && len(h.Violations) == 0
}

// validate replays sampled completed paths natively and compares what the
// harness observed.
func (h *harnessResult) validate(ex *Explorer, bin, dir string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, f := range ex.samples {
		wg.Add(1)
		sem <- struct{}{}
		go func(f *Finding) {
			defer func() { <-sem; wg.Done() }()
			r := nativeReplay(bin, f, dir, 20*time.Second)
			mu.Lock()
			defer mu.Unlock()
			why := ""
			if r.status != "held" {
				why = "native " + r.status + " " + r.msg
			} else if len(r.obs) != len(f.Obs) {
				why = fmt.Sprintf("%d observations, engine had %d", len(r.obs), len(f.Obs))
			} else {
				for i := range r.obs {
					if r.obs[i] != f.Obs[i] {
						why = fmt.Sprintf("%s: native %s, engine %s", r.obs[i].Label, r.obs[i].S, f.Obs[i].S)
						break
					}
				}
			}
			if why == "" {
				h.TraceOK++
			} else {
				h.TraceMismatch++
				if len(h.MismatchWhy) < 5 {
					h.MismatchWhy = append(h.MismatchWhy, why+" ["+showVals(f.Values)+"]")
				}
			}
			if len(h.Samples) < 3 {
				h.Samples = append(h.Samples, f.Harness+": "+showVals(f.Values))
			}
		}(f)
	}
	wg.Wait()
}

// crossCheck gives a sample of the unsat queries to cvc5.
func (h *harnessResult) crossCheck(ex *Explorer) {
	var all []string
	for _, m := range ex.machines {
		for _, q := range m.sol.samples {
			all = append(all, q.text)
		}
	}
	if len(all) > 16 {
		step := len(all) / 16
		var k []string
		for i := 0; i < len(all); i += step + 1 {
			k = append(k, all[i])
		}
		all = k
	}
	if _, err := exec.LookPath("cvc5"); err != nil || len(all) == 0 {
		return
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, q := range all {
		wg.Add(1)
		sem <- struct{}{}
		go func(q string) {
			defer func() { <-sem; wg.Done() }()
			cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=10000")
			cmd.Stdin = strings.NewReader(q)
			b, _ := cmd.Output()
			mu.Lock()
			defer mu.Unlock()
			switch strings.TrimSpace(string(b)) {
			case "unsat":
				h.CrossChecked++
			case "sat":
				h.CrossChecked++
				h.CrossBad++
			}
		}(q)
	}
	wg.Wait()
}

func (h *harnessResult) flags() string {
	s := ""
	if h.TimedOut {
		s += " TIMEOUT"
	}
	if h.Unsupported > 0 {
		s += fmt.Sprintf(" not-encoded=%d", h.Unsupported)
	}
	if len(h.Unconfirmed) > 0 {
		s += fmt.Sprintf(" unconfirmed=%d", len(h.Unconfirmed))
	}
	if h.TraceMismatch > 0 {
		s += fmt.Sprintf(" trace-mismatch=%d", h.TraceMismatch)
	}
	if h.CrossBad > 0 {
		s += fmt.Sprintf(" solver-disagreement=%d", h.CrossBad)
	}
	if h.Complete {
		s += " complete"
	}
	return s
}

func (h *harnessResult) print() {
	b, _ := json.MarshalIndent(h, "  ", " ")
	fmt.Printf("  %s\n", b)
}

type evidence struct {
	prop, tier string
	hs         []*harnessResult
	notes      []string
	functions  []string
}

func newEvidence(prop, tier string) *evidence { return &evidence{prop: prop, tier: tier} }

func (e *evidence) add(h *harnessResult) { e.hs = append(e.hs, h) }

func (e *evidence) write(verif string, assumptions []string, wall float64) error {
	var states, trans, traces, asserts, folded int64
	var queries, hits, unsat, sat int
	var solver float64
	complete := true
	samples := []string{}
	viol := 0
	for _, h := range e.hs {
		states += h.Paths + h.Pruned + h.Forks
		trans += h.Steps
		traces += int64(h.TraceOK)
		asserts += h.Asserts
		folded += h.Folded
		queries += h.Queries
		hits += h.CacheHits
		unsat += h.Unsat
		sat += h.Sat
		solver += h.SolverS
		complete = complete && h.Complete
		samples = append(samples, h.Samples...)
		viol += len(h.Violations)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if len(samples) == 0 {
		samples = []string{"(no completed path sampled)"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states":                          states,
		"transitions":                     trans,
		"traces_validated_against_impl":   traces,
		"samples":                         samples,
		"rule":                            "states = completed paths + paths cut by an assumption + fork points of the symbolic execution; transitions = SSA instructions of the real code and harness executed symbolically; every symbolic branch and assertion is decided for all values within the stated bounds, by the SMT solver or, where term rewriting already makes the condition constant, by rewriting (counted in assertions_decided_by_rewriting)",
		"assertions_decided":              asserts,
		"assertions_decided_by_rewriting": folded,
		"solver_queries":                  queries,
		"queries_answered_from_cache":     hits,
		"unsat":                           unsat,
		"sat":                             sat,
		"solver_time_s":                   round3(solver),
		"solver":                          strings.Join(solverArgv, " "),
		"functions_encoded":               e.functions,
		"complete_within_bounds":          complete,
		"harnesses":                       e.hs,
	}
	if len(e.notes) > 0 {
		cov["notes"] = e.notes
	}
	as := append([]string{}, commonAssumptions...)
	as = append(as, assumptions...)
	out := map[string]any{
		"property":    e.prop,
		"tier":        e.tier,
		"seed":        seed,
		"level":       "model_checking",
		"coverage":    cov,
		"wall_s":      round3(wall),
		"assumptions": as,
		"violations":  viol,
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, e.prop+".json"), append(b, '\n'), 0o644)
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

var commonAssumptions = []string{
	"the Go compiler's SSA (x/tools go/ssa) of the current /repo tree means what the compiled program means; sampled paths are replayed natively and compared",
	"lengths and heap shapes are concrete per path; scalars (runes, bytes, ints, booleans) are symbolic",
	"maps iterate in insertion order; goroutines interleave only at channel and lock operations and at explicit yield points of the harness",
	"library models: unicode predicates and case mapping from the toolchain's own tables, strings.Contains/Index/EqualFold/ToUpper, utf8 encode/decode, fmt verbs d s v X x c q w, sync.Mutex, atomics, os.Getenv",
}
