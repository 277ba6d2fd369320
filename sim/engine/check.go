package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

func debugLimits() {
	debug.SetMaxStack(1 << 20) // recursion as deep as a text is long shows with small texts
	debug.SetMemoryLimit(3 << 30)
	runtime.GOMAXPROCS(2)
}

func scratch() string {
	base := os.Getenv("SIM_BUILD")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "run-*")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return d
}

func check(p *Prop, tier string, seed uint64, verif string, workers, override int) int {
	start := time.Now()
	n := p.Runs[tier]
	if override > 0 {
		n = override
	}
	fmt.Printf("%s: %s\nseed=%d tier=%s runs=%d workers=%d\n", p.ID, p.Title, seed, tier, n, workers)
	dir := scratch()
	defer os.RemoveAll(dir)
	if p.Setup != nil {
		if err := p.Setup(os.Getenv("SIM_BUILD")); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 3
		}
	}
	res, err := runBatches(p, tier, seed, n, workers, dir, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 3
	}
	total := BatchResult{Counters: map[string]int64{}}
	states := map[uint64]struct{}{}
	var fail *BatchResult
	samples := []string{}
	for i := range res {
		r := &res[i]
		total.Runs += r.Runs
		total.SimNs += r.SimNs
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		for _, h := range r.States {
			states[h] = struct{}{}
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
		if r.Failed >= 0 && (fail == nil || r.Failed < fail.Failed) {
			fail = r
		}
	}
	rc := 0
	nviol := 0
	if fail != nil {
		fmt.Printf("run %d failed: %s\n", fail.Failed, fail.V.Msg)
		if fail.Stack != "" {
			fmt.Println(fail.Stack)
		}
		fmt.Println("minimising ...")
		rf, err := minimise(p, tier, seed, fail.Failed, fail.From, fail.V, dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 3
		}
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-seed%d-run%d.json", p.ID, seed, fail.Failed))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		fmt.Printf("minimised: %s\n", rf.Violation)
		for _, pl := range rf.Plans {
			s := string(pl)
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			fmt.Println("  plan:", s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		rc, nviol = 1, 1
	}
	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"evaluations":          total.Runs,
		"distinct_nontrivial":  len(states),
		"rule":                 p.Rule,
		"samples":              samples,
		"distinct_measure":     p.Measure,
		"runs_per_hour":        int64(float64(total.Runs) / wall * 3600),
		"seeds_per_hour":       int64(float64(total.Runs) / wall * 3600),
		"base_seed":            seed,
		"simulated_time_s":     float64(total.SimNs) / 1e9,
		"events":               total.Counters,
		"components_real":      p.Real,
		"components_simulated": p.Stub,
		"worker_processes":     workers,
	}
	ev := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "wall_s": wall, "violations": nviol}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("runs=%d distinct=%d simulated=%.1fs wall=%.1fs\n", total.Runs, len(states), float64(total.SimNs)/1e9, wall)
	keys := make([]string, 0, len(total.Counters))
	for k := range total.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-40s %d\n", k, total.Counters[k])
	}
	if rc == 0 {
		fmt.Printf("OK property=%s\n", p.ID)
	}
	return rc
}

// determinism runs the same seeds twice with different worker counts and
// compares every run's history hash.
func determinism(p *Prop, tier string, seed uint64, workers, override int) int {
	n := p.Runs[tier]
	if override > 0 {
		n = override
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	if p.Setup != nil {
		if err := p.Setup(os.Getenv("SIM_BUILD")); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return 3
		}
	}
	var ref map[int]uint64
	for round, w := range []int{workers, max(1, workers/3), workers} {
		res, err := runBatches(p, tier, seed, n, w, dir, false)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 3
		}
		h := map[int]uint64{}
		for _, r := range res {
			for i, x := range r.Hashes {
				h[r.From+i] = x
			}
		}
		if ref == nil {
			ref = h
			continue
		}
		for i, x := range ref {
			if h[i] != x {
				fmt.Printf("NONDETERMINISTIC property=%s run=%d round=%d\n", p.ID, i, round)
				return 1
			}
		}
	}
	fmt.Printf("deterministic: property=%s runs=%d x3, workers %d/%d\n", p.ID, len(ref), workers, max(1, workers/3))
	return 0
}
