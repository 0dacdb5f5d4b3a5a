package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type TierCfg struct {
	Params  []map[string]int `json:"params"` // one exploration per element
	Seconds int              `json:"seconds"`
	Preempt int              `json:"preempt"`
}

type EntryCfg struct {
	Entry    string   `json:"entry"`
	Quick    *TierCfg `json:"quick"`
	Thorough *TierCfg `json:"thorough"`
	Sched    bool     `json:"sched"`
	MapOrder bool     `json:"maporder"`
	Confirm  string   `json:"confirm"` // native (default) or engine
	NoNative bool     `json:"no_native_samples"`
	Covers   []string `json:"covers"`
	Bounds   string   `json:"bounds"`
	Steps    int64    `json:"steps"`
}

type CheckCfg struct {
	Title       string      `json:"title"`
	Entries     []*EntryCfg `json:"entries"`
	Assumptions []string    `json:"assumptions"`
	Outside     string      `json:"outside"`
}

type Known struct {
	Property string            `json:"property"`
	Status   string            `json:"status"` // "known"; "fixed" lines are records only
	Entry    string            `json:"entry"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Stack    string            `json:"stack"`
	Values   map[string]uint64 `json:"values"`
	What     string            `json:"what"`
}

func loadKnown(prop string) []Known {
	var r []Known
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func (k *Known) matches(v *Violation) bool {
	if k.Entry != v.Entry || k.Kind != v.Kind || k.Msg != "" && !strings.Contains(v.Msg, k.Msg) || !strings.Contains(v.Stack, k.Stack) {
		return false
	}
	for n, x := range k.Values {
		if v.Values[n] != x {
			return false
		}
	}
	return true
}

type entryReport struct {
	Entry         string         `json:"entry"`
	Params        map[string]int `json:"params"`
	Bounds        string         `json:"bounds,omitempty"`
	Paths         int64          `json:"paths"`
	Completed     int64          `json:"paths_completed"`
	Infeasible    int64          `json:"paths_infeasible"`
	Abandoned     int64          `json:"paths_abandoned"`
	Reasons       map[string]int `json:"abandon_reasons,omitempty"`
	Left          int            `json:"unexplored_items"`
	Exhausted     bool           `json:"exhausted"`
	Asserts       int64          `json:"assertions_evaluated"`
	Queries       int64          `json:"smt_queries"`
	AssertQueries int64          `json:"smt_assertion_queries"`
	AssertUnsat   int64          `json:"smt_assertions_proved"`
	Cached        int64          `json:"smt_answers_reused"`
	Presolved     int64          `json:"feasibility_presolved"`
	Unknown       int64          `json:"smt_unknown"`
	CrossChecked  int64          `json:"cross_checked_cvc5"`
	SolverS       float64        `json:"solver_seconds"`
	WallS         float64        `json:"wall_seconds"`
	Instructions  int64          `json:"instructions_executed"`
	MaxPC         int            `json:"longest_path_condition"`
	Covers        map[string]int `json:"covers,omitempty"`
	MissingCovers []string       `json:"covers_not_reached,omitempty"`
	Validated     int            `json:"paths_validated_natively"`
	Mismatch      []string       `json:"native_mismatches,omitempty"`
	Notes         []string       `json:"notes,omitempty"`
	Unconfirmed   []string       `json:"unconfirmed_counterexamples,omitempty"`
	Known         []string       `json:"known_findings,omitempty"`
	Functions     []string       `json:"-"`
	Samples       []string       `json:"-"`
}

func runCheck(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: vsym check PROPERTY [quick|thorough]")
		return 9
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Println(err)
		return 9
	}
	var cfgs map[string]*CheckCfg
	if err := json.Unmarshal(b, &cfgs); err != nil {
		fmt.Println("checks.json:", err)
		return 9
	}
	cfg := cfgs[prop]
	if cfg == nil {
		fmt.Println("no check for", prop)
		return 9
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "assumptions": cfg.Assumptions, "violations": 0}
	cov := map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}}
	writeEv := func() {
		ev["coverage"] = cov
		ev["wall_s"] = time.Since(t0).Seconds()
		if ev["assumptions"] == nil {
			ev["assumptions"] = []string{}
		}
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(j, '\n'), 0o644)
	}
	pk := map[string]bool{}
	for _, e := range cfg.Entries {
		d, _, _ := strings.Cut(e.Entry, ".")
		pk[d] = true
	}
	p, err := load(sortedKeys(pk)...)
	if err != nil {
		cov["explanation"] = "the harness no longer builds against this tree; nothing was decided: " + err.Error()
		writeEv()
		fmt.Println("NOT-DECIDED:", err)
		return 0
	}
	nat := buildNative(p, sortedKeys(pk), false)
	defer nat.close()
	known := loadKnown(prop)
	cache := newQueryCache()
	var reps []*entryReport
	var mu sync.Mutex
	nviol := 0
	knownHit := map[string]bool{}
	fnBlocks := map[string][2]int{}
	var samples []string
	validated := 0

	report := func(v *Violation) {
		mu.Lock()
		nviol++
		id := nviol
		mu.Unlock()
		dir := filepath.Join(verifDir, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, id))
		j, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(j, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		fmt.Printf("  %s: %s: %s\n  input: %s\n  native: %s\n", v.Entry, v.Kind, v.Msg, fmtValues(v.Values), v.Native)
		for _, l := range strings.Split(strings.TrimSpace(v.Stack), "\n") {
			fmt.Println("   ", l)
		}
	}

	for _, e := range cfg.Entries {
		tc := e.Quick
		if tier == "thorough" && e.Thorough != nil {
			tc = e.Thorough
		}
		if tc == nil {
			continue
		}
		params := tc.Params
		if len(params) == 0 {
			params = []map[string]int{{}}
		}
		fn, err := p.entry(e.Entry)
		if err != nil {
			fmt.Println(err)
			return 9
		}
		for _, pr := range params {
			if nviol > 0 {
				break
			}
			steps := e.Steps
			if steps == 0 {
				steps = 30_000_000
			}
			s := &Session{p: p, entry: fn, name: e.Entry, cache: cache, st: &SolverStats{}, budget: time.Duration(tc.Seconds) * time.Second,
				nsamples: 24, solverLimit: 20 * time.Second, cross: tier == "thorough", verbose: os.Getenv("VSYM_VERBOSE") != "",
				opt: &Options{Sched: e.Sched, Preempt: tc.Preempt, MapOrder: e.MapOrder, MaxSteps: steps, Params: pr}}
			rep := &entryReport{Entry: e.Entry, Params: pr, Bounds: e.Bounds}
			var umu sync.Mutex
			s.onViol = func(v *Violation) bool {
				for i := range known {
					if known[i].matches(v) {
						umu.Lock()
						rep.Known = append(rep.Known, known[i].What)
						umu.Unlock()
						mu.Lock()
						if !knownHit[known[i].What] {
							knownHit[known[i].What] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, known[i].What)
						}
						mu.Unlock()
						return false
					}
				}
				ok, how := confirm(s, e, nat, v)
				v.Native = how
				if !ok {
					umu.Lock()
					rep.Unconfirmed = append(rep.Unconfirmed, fmt.Sprintf("%s: %s [%s] native: %s", v.Kind, v.Msg, fmtValues(v.Values), how))
					umu.Unlock()
					return false
				}
				report(v)
				return true
			}
			s.onAbandon = func(vals map[string]uint64) *Violation {
				if e.Sched || e.NoNative {
					return nil
				}
				r, err := nat.run(e.Entry, vals, pr)
				if err == nil && (r.What == "assert" || r.What == "panic" || r.What == "hang") {
					return &Violation{Kind: r.What, Msg: firstFail(r.Out), Entry: e.Entry, Values: vals, Params: pr, Native: r.What}
				}
				return nil
			}
			s.run(runtime.NumCPU())
			rep.Paths, rep.Completed, rep.Infeasible, rep.Abandoned = s.paths, s.donePaths, s.infeasible, s.abandoned
			rep.Reasons = map[string]int{}
			for k, n := range s.abReasons {
				if len(k) > 300 {
					k = k[:300]
				}
				rep.Reasons[k] += n
			}
			rep.Left = s.leftItems
			rep.Exhausted = s.leftItems == 0 && !s.expired && s.abandoned == 0 && s.st.unknown == 0
			rep.Asserts, rep.Queries, rep.AssertQueries, rep.AssertUnsat = s.asserts, s.st.queries, s.st.assertQueries, s.st.assertUnsat
			rep.Cached, rep.Unknown, rep.CrossChecked, rep.Presolved = s.st.cached, s.st.unknown, s.st.crossChecked, s.st.presolved
			rep.SolverS = time.Duration(atomic.LoadInt64(&s.st.nanos)).Seconds()
			rep.WallS = time.Since(s.start).Seconds()
			rep.Instructions, rep.MaxPC, rep.Covers = s.steps, s.maxPC, s.covers
			for n := range s.notes {
				if len(n) > 400 {
					n = n[:400]
				}
				rep.Notes = append(rep.Notes, n)
			}
			sort.Strings(rep.Notes)
			for _, c := range e.Covers {
				if s.covers[c] == 0 {
					rep.MissingCovers = append(rep.MissingCovers, c)
				}
			}
			for c, m := range s.hits {
				x := fnBlocks[c.name]
				x[0] = max(x[0], len(m))
				x[1] = len(c.blocks)
				fnBlocks[c.name] = x
			}
			// replay a sample of the completed paths natively and compare
			if !e.Sched && !e.NoNative && nviol == 0 {
				var wg sync.WaitGroup
				for _, sm := range s.samples {
					if sm == nil {
						continue
					}
					sm := sm
					wg.Add(1)
					go func() {
						defer wg.Done()
						r, err := nat.run(e.Entry, sm.Values, pr)
						umu.Lock()
						defer umu.Unlock()
						if err != nil {
							rep.Mismatch = append(rep.Mismatch, "native: "+err.Error())
							return
						}
						switch r.What {
						case "ok":
							if strings.Join(r.Obs, "\n") != strings.Join(sm.Obs, "\n") {
								rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("[%s] executor %v native %v", fmtValues(sm.Values), sm.Obs, r.Obs))
							} else {
								rep.Validated++
							}
						case "assert", "panic", "hang":
							v := &Violation{Kind: r.What, Msg: firstFail(r.Out), Entry: e.Entry, Values: sm.Values, Params: pr, Native: r.What}
							for i := range known {
								if known[i].matches(v) {
									return
								}
							}
							// a real failure the executor did not predict
							report(v)
						default:
							rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("[%s] native %s %s", fmtValues(sm.Values), r.What, firstFail(r.Out)))
						}
					}()
				}
				wg.Wait()
			}
			validated += rep.Validated
			for i, sm := range s.samples {
				if sm != nil && i < 6 {
					samples = append(samples, fmt.Sprintf("%s: %s -> %s", e.Entry, fmtValues(sm.Values), strings.Join(sm.Obs, " ")))
				}
			}
			reps = append(reps, rep)
			fmt.Printf("%s %v: %d paths (%d abandoned, %d unexplored), %d assertions, %d SMT queries (%d proved), %.1fs solver, %.1fs wall, %d validated natively%s\n", e.Entry, pr, rep.Paths, rep.Abandoned, rep.Left, rep.Asserts, rep.Queries, rep.AssertUnsat, rep.SolverS, rep.WallS, rep.Validated, warn(rep))
		}
	}
	var paths, steps int64
	exhausted := true
	for _, r := range reps {
		paths += r.Completed
		steps += r.Instructions
		exhausted = exhausted && r.Exhausted
	}
	var fns []string
	for n, x := range fnBlocks {
		fns = append(fns, fmt.Sprintf("%s (%d/%d blocks)", n, x[0], x[1]))
	}
	sort.Strings(fns)
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov["states"] = paths
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhausted
	cov["explanation"] = "states = complete symbolic paths, transitions = SSA instructions executed symbolically; every assertion on every path is an SMT query over all values of the symbolic inputs within the bounds"
	cov["functions_encoded"] = fns
	cov["entries"] = reps
	cov["outside_bounds"] = cfg.Outside
	ev["violations"] = nviol
	writeEv()
	if nviol > 0 {
		return 1
	}
	fmt.Printf("%s held within the bounds (%.1fs)\n", prop, time.Since(t0).Seconds())
	return 0
}

func warn(r *entryReport) string {
	s := ""
	if !r.Exhausted {
		s += " [NOT EXHAUSTED]"
	}
	if len(r.MissingCovers) > 0 {
		s += fmt.Sprintf(" [covers not reached: %v]", r.MissingCovers)
	}
	if len(r.Mismatch) > 0 {
		s += fmt.Sprintf(" [%d native mismatches: %.600s]", len(r.Mismatch), r.Mismatch[0])
	}
	if len(r.Unconfirmed) > 0 {
		s += fmt.Sprintf(" [%d unconfirmed: %.600s]", len(r.Unconfirmed), r.Unconfirmed[0])
	}
	for k, n := range r.Reasons {
		s += fmt.Sprintf(" [abandoned %d: %.200s]", n, k)
	}
	return s
}

func firstFail(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "ASSERT-FAILED ") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || l == "HANG" || strings.HasPrefix(l, "ASSUME") {
			return strings.TrimPrefix(l, "ASSERT-FAILED ")
		}
	}
	if len(out) > 300 {
		out = out[:300]
	}
	return strings.TrimSpace(out)
}

// confirm replays a counterexample: against the native build, or, for
// schedules and injected faults that the native build cannot force, by a
// second deterministic execution of the same path.
func confirm(s *Session, e *EntryCfg, nat *Native, v *Violation) (bool, string) {
	if v.Native != "" {
		return true, v.Native
	}
	if e.Confirm == "engine" || e.Sched {
		w := newWorker(s)
		defer w.solver.close()
		vs := w.replay(v.model)
		for _, x := range vs {
			if x.Kind == v.Kind && x.Msg == v.Msg {
				return true, "replayed in the executor"
			}
		}
		return false, "not reproduced by the executor"
	}
	r, err := nat.run(v.Entry, v.Values, v.Params)
	if err != nil {
		return false, err.Error()
	}
	switch r.What {
	case "assert", "panic", "hang":
		return true, r.What + ": " + firstFail(r.Out)
	}
	return false, r.What + " " + firstFail(r.Out)
}

// replayFile re-runs one recorded counterexample natively.
func replayFile(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 9
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 9
	}
	d, _, _ := strings.Cut(v.Entry, ".")
	p, err := load(d)
	if err != nil {
		fmt.Println(err)
		return 9
	}
	nat := buildNative(p, []string{d}, false)
	defer nat.close()
	r, err := nat.run(v.Entry, v.Values, v.Params)
	fmt.Println(r.What, err)
	fmt.Println(r.Out)
	return 0
}
