package engine

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// BatchResult is what a worker process reports.
type BatchResult struct {
	From, To int
	Failed   int // run index, -1 if none
	V        *Violation
	Stack    string
	Hashes   []uint64 // history hash per run (determinism check)
	Counters map[string]int64
	States   []uint64
	Runs     int
	SimNs    int64
	Samples  []string
}

// ReplayFile is the minimised failure.
type ReplayFile struct {
	Property  string            `json:"property"`
	Violation string            `json:"violation"`
	Seed      uint64            `json:"seed"`
	Tier      string            `json:"tier"`
	Run       int               `json:"run"`
	History   string            `json:"history_hash"`
	Note      string            `json:"note,omitempty"`
	Plans     []json.RawMessage `json:"plans"` // executed in order in one fresh process; the last one fails
}

// Commands are further commands of the simulator binary; they return the exit
// status.
var Commands = map[string]func() int{}

// Main is the entry point of the simulator binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|exec|replay|shrink|determinism ...")
		os.Exit(3)
	}
	cmd, args := os.Args[1], os.Args[2:]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first run")
	to := fs.Int("to", 0, "last run + 1")
	out := fs.String("out", "", "output file")
	file := fs.String("file", "", "input file")
	verif := fs.String("verif", "/verif", "where evidence and replays go")
	workers := fs.Int("workers", runtime.NumCPU(), "worker processes")
	runs := fs.Int("runs", 0, "override number of runs")
	fs.Parse(args)
	debugLimits()
	need := func() *Prop {
		p := Lookup(*prop)
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", *prop)
			os.Exit(3)
		}
		return p
	}
	if f := Commands[cmd]; f != nil {
		os.Exit(f())
	}
	go watch()
	switch cmd {
	case "list":
		fmt.Println(strings.Join(IDs(), "\n"))
	case "worker":
		worker(need(), *tier, *seed, *from, *to, *out)
	case "exec":
		os.Exit(execFile(*file, *out, false))
	case "replay":
		os.Exit(replay(*file))
	case "plan":
		p := need()
		b, _ := json.MarshalIndent(PlanFor(p, *seed, *tier, *from), "", " ")
		fmt.Println(string(b))
	case "shrink":
		shrinkWorker(*file, *out)
	case "check":
		os.Exit(check(need(), *tier, *seed, *verif, *workers, *runs))
	case "determinism":
		os.Exit(determinism(need(), *tier, *seed, *workers, *runs))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(3)
	}
}

func worker(p *Prop, tier string, seed uint64, from, to int, out string) {
	res := BatchResult{From: from, To: to, Failed: -1, Counters: map[string]int64{}}
	states := map[uint64]struct{}{}
	prog, err := os.Create(out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for i := from; i < to; i++ {
		prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		plan := PlanFor(p, seed, tier, i)
		o := Execute(p, plan, tier, false, i)
		res.Runs++
		res.Hashes = append(res.Hashes, o.Hash)
		for k, v := range o.Ctx.Counters {
			res.Counters[k] += v
		}
		for h := range o.Ctx.distinct {
			states[h] = struct{}{}
		}
		res.SimNs += o.Ctx.SimNs
		if p.Summary != nil && len(res.Samples) < 1 && i%7 == from%7 {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d (seed %d): %s", i, seed, p.Summary(plan)))
		}
		if o.V != nil {
			res.Failed, res.V, res.Stack = i, o.V, o.Stack
			break
		}
	}
	for h := range states {
		res.States = append(res.States, h)
	}
	writeJSON(out, res)
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "write", path, err)
		os.Exit(3)
	}
}

type execResult struct {
	V        *Violation
	Recorded json.RawMessage
	Hash     uint64
	Which    int
	Stack    string
}

// execFile runs a replay file's plans in order.
func execFile(file, out string, trace bool) int {
	rf, p, plans := loadReplay(file)
	var r execResult
	for i, pl := range plans {
		o := Execute(p, pl, rf.Tier, trace && i == len(plans)-1, rf.Run)
		r.Hash = o.Hash
		if o.Ctx.Recorded != nil {
			r.Recorded = encode(o.Ctx.Recorded)
		}
		if trace && o.Ctx.Trace != nil {
			fmt.Print(o.Ctx.Trace.String())
		}
		if o.V != nil {
			r.V, r.Which, r.Stack = o.V, i, o.Stack
			break
		}
	}
	if out != "" {
		writeJSON(out, r)
		return 0
	}
	if r.V == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation: %s\nhistory hash: %016x\n", r.V.Msg, r.Hash)
	if r.Stack != "" && trace {
		fmt.Println(r.Stack)
	}
	return 1
}

func loadReplay(file string) (*ReplayFile, *Prop, []any) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := Lookup(rf.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		os.Exit(3)
	}
	var plans []any
	for _, raw := range rf.Plans {
		pl, err := decode(p, raw)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		plans = append(plans, pl)
	}
	return &rf, p, plans
}

func replay(file string) int {
	rf, p, _ := loadReplay(file)
	if p.Setup != nil {
		if err := p.Setup(os.Getenv("SIM_BUILD")); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if os.Getenv("SIM_REEXEC") == "" { // in a process of its own: it may crash
		bin, race := p.binary(rf.Run)
		cmd := exec.Command(bin, "replay", "-file", file)
		cmd.Env = append(os.Environ(), "SIM_REEXEC=1")
		if race {
			cmd.Env = append(cmd.Env, raceEnv)
		}
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = os.Stdout, &eb
		err := cmd.Run()
		fmt.Fprint(os.Stderr, eb.String())
		if err == nil {
			return 0
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		if rc := ee.ExitCode(); rc == 1 || rc == 3 {
			return rc
		}
		fmt.Printf("violation: %s\nVIOLATION property=%s replay=%s\n", crashLine(eb.String()), rf.Property, file)
		return 1
	}
	fmt.Printf("replaying %s: %s\n", rf.Property, rf.Violation)
	rc := execFile(file, "", true)
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	}
	return rc
}

const raceExit = 66
const raceEnv = "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=3"

func (rf *ReplayFile) prop() *Prop { return Lookup(rf.Property) }

// binary is the simulator binary that executes a run.
func (p *Prop) binary(run int) (string, bool) {
	if p.RaceEvery > 0 && run/p.Batch%p.RaceEvery == 0 {
		return filepath.Join(os.Getenv("SIM_BUILD"), "sim-race"), true
	}
	if p.RaceEvery > 0 {
		return filepath.Join(os.Getenv("SIM_BUILD"), "sim"), false
	}
	return os.Args[0], false
}

// runPlans executes plans in a fresh process.
func runPlans(p *Prop, tier string, run int, plans []json.RawMessage, dir string, timeout time.Duration) (execResult, error) {
	f, err := os.CreateTemp(dir, "exec-*.json")
	if err != nil {
		return execResult{}, err
	}
	f.Close()
	defer os.Remove(f.Name())
	defer os.Remove(f.Name() + ".out")
	writeJSON(f.Name(), ReplayFile{Property: p.ID, Tier: tier, Run: run, Plans: plans})
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	bin, race := p.binary(run)
	cmd := exec.CommandContext(ctx, bin, "exec", "-file", f.Name(), "-out", f.Name()+".out")
	cmd.Env = os.Environ()
	if race {
		cmd.Env = append(cmd.Env, raceEnv)
	}
	if stall > 0 {
		cmd.Env = append(cmd.Env, "SIM_STALL="+strconv.Itoa(stall))
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	err = cmd.Run()
	if ctx.Err() != nil {
		return execResult{}, fmt.Errorf("timeout")
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			return execResult{}, fmt.Errorf("harness error: %s", eb.String())
		}
		return execResult{V: &Violation{crashLine(eb.String())}, Which: len(plans) - 1}, nil
	}
	var r execResult
	b, err := os.ReadFile(f.Name() + ".out")
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	return r, err
}

// stall is the time limit for a run while a run that does not end is minimised.
var stall int

func hangs(msg string) bool { return strings.Contains(msg, "the run does not end") }

func crashed(msg string) bool {
	return strings.HasPrefix(msg, "process crash") || strings.HasPrefix(msg, "data race")
}

func crashLine(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		return "data race: " + raceSites(s[i:])
	}
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "SIG") {
			return "process crash: " + l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return "process crash: " + strings.TrimSpace(s)
}

// raceSites names the two accesses of a race report.
func raceSites(s string) string {
	var o []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.ToLower(strings.TrimSpace(l))
		for _, k := range []string{"previous write", "previous read", "write", "read"} {
			if strings.HasPrefix(t, k+" at ") && i+2 < len(lines) {
				// the innermost frame of the library, or the innermost at all
				at := i + 1
				for n := i + 1; n+1 < len(lines) && strings.TrimSpace(lines[n]) != ""; n += 2 {
					if strings.Contains(lines[n], "clipperhouse/uax29") {
						at = n
						break
					}
				}
				where := strings.TrimSpace(lines[at+1])
				if n := strings.Index(where, " +0x"); n > 0 {
					where = where[:n]
				}
				if n := strings.LastIndex(where, "/src/"); n >= 0 {
					where = where[n+5:]
				}
				o = append(o, k+" in "+strings.TrimSpace(lines[at])+" at "+where)
				break
			}
		}
		if len(o) == 2 {
			break
		}
	}
	return strings.Join(o, ", ")
}

type shrinkIO struct {
	Plan  json.RawMessage
	Msg   string
	Tried int
}

// shrinkWorker minimises one plan inside one process.
func shrinkWorker(file, out string) {
	rf, p, plans := loadReplay(file)
	plan := plans[0]
	want := Class(rf.Violation)
	deadline := time.Now().Add(40 * time.Second)
	tried := 0
	msg := rf.Violation
	for again := true; again && tried < 4000 && time.Now().Before(deadline); {
		again = false
		for _, cand := range p.Shrink(plan) {
			if tried++; tried > 4000 || !time.Now().Before(deadline) {
				break
			}
			o := Execute(p, cand, rf.Tier, false, rf.Run)
			if o.V != nil && Class(o.V.Msg) == want {
				plan, msg, again = cand, o.V.Msg, true
				// keep the best so far even if a later candidate crashes us
				writeJSON(out, shrinkIO{encode(plan), msg, tried})
				break
			}
		}
	}
	writeJSON(out, shrinkIO{encode(plan), msg, tried})
}

// minimise returns plans that fail in a fresh process, as small as we can.
func minimise(p *Prop, tier string, seed uint64, failed, from int, v *Violation, dir string) (*ReplayFile, error) {
	rf := &ReplayFile{Property: p.ID, Seed: seed, Tier: tier, Run: failed}
	to := 120 * time.Second
	cur := []json.RawMessage{encode(PlanFor(p, seed, tier, failed))}
	r, err := runPlans(p, tier, failed, cur, dir, to)
	if err != nil {
		return nil, err
	}
	if r.V == nil {
		// depends on what ran before it in the same process
		var all []json.RawMessage
		for i := from; i <= failed; i++ {
			all = append(all, encode(PlanFor(p, seed, tier, i)))
		}
		for try := 0; try < 4 && r.V == nil; try++ {
			if r, err = runPlans(p, tier, failed, all, dir, to); err != nil {
				return nil, err
			}
		}
		if r.V == nil {
			if crashed(v.Msg) && !strings.HasPrefix(v.Msg, "data race") {
				return nil, fmt.Errorf("run %d failed (%s) but neither it nor its batch fails when replayed", failed, v.Msg)
			}
			// The run really did break the property; every choice of ours is
			// replayed, so the code under test chooses by itself.
			rf.Violation, rf.Plans = v.Msg, all
			rf.Note = "does not recur in 5 replays: the code under test depends on something outside the simulation (addresses, garbage collection, real time, ...)"
			return rf, nil
		}
		cur = all[:r.Which+1]
		rf.Note = "fails only after the preceding plans ran in the same process"
		deadline := time.Now().Add(60 * time.Second)
		for chunk := len(cur) / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i+chunk < len(cur) && time.Now().Before(deadline); {
				cand := append(append([]json.RawMessage(nil), cur[:i]...), cur[i+chunk:]...)
				rr, err := runPlans(p, tier, failed, cand, dir, to)
				if err == nil && rr.V != nil && rr.Which == len(cand)-1 && Class(rr.V.Msg) == Class(r.V.Msg) {
					cur, r = cand, rr
				} else {
					i += chunk
				}
			}
		}
	}
	if len(r.Recorded) > 0 && string(r.Recorded) != "null" {
		cand := append(append([]json.RawMessage(nil), cur[:len(cur)-1]...), r.Recorded)
		if rr, err := runPlans(p, tier, failed, cand, dir, to); err == nil && rr.V != nil && Class(rr.V.Msg) == Class(r.V.Msg) && rr.Which == len(cand)-1 {
			cur, r = cand, rr
		}
	}
	msg := r.V.Msg
	if hangs(msg) {
		stall = 5
	}
	if p.Shrink != nil {
		done := false
		if len(cur) == 1 && !p.Unbatched && !crashed(msg) {
			in := filepath.Join(dir, "shrink.json")
			writeJSON(in, ReplayFile{Property: p.ID, Tier: tier, Run: failed, Violation: msg, Plans: cur})
			ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
			bin, _ := p.binary(failed)
			exec.CommandContext(ctx, bin, "shrink", "-file", in, "-out", in+".out").Run()
			cancel()
			var s shrinkIO
			if b, err := os.ReadFile(in + ".out"); err == nil && json.Unmarshal(b, &s) == nil && len(s.Plan) > 0 {
				if rr, err := runPlans(p, tier, failed, []json.RawMessage{s.Plan}, dir, to); err == nil && rr.V != nil && Class(rr.V.Msg) == Class(msg) {
					cur, msg, done = []json.RawMessage{s.Plan}, rr.V.Msg, true
					r = rr
				}
			}
		}
		if !done {
			// every candidate in its own process
			deadline := time.Now().Add(60 * time.Second)
			for which := len(cur) - 1; which >= 0; which-- {
				for again := true; again; {
					again = false
					pl, err := decode(p, cur[which])
					if err != nil {
						break
					}
					for _, c := range p.Shrink(pl) {
						if time.Now().After(deadline) {
							break
						}
						cand := append([]json.RawMessage(nil), cur...)
						cand[which] = encode(c)
						rr, err := runPlans(p, tier, failed, cand, dir, to)
						if err == nil && rr.V != nil && Class(rr.V.Msg) == Class(msg) && rr.Which == len(cand)-1 {
							cur, msg, again = cand, rr.V.Msg, true
							r = rr
							break
						}
					}
				}
			}
		}
	}
	if stall > 0 {
		stall = 15
	}
	// the verdict: the minimised history, twice, in fresh processes
	a, err := runPlans(p, tier, failed, cur, dir, to)
	if err != nil {
		return nil, err
	}
	b, err := runPlans(p, tier, failed, cur, dir, to)
	if err != nil {
		return nil, err
	}
	if hangs(v.Msg) && (a.V == nil || !hangs(a.V.Msg)) {
		return nil, fmt.Errorf("run %d did not end in time, but ends when it is replayed", failed)
	}
	if a.V == nil {
		a, b = b, a
	}
	switch {
	case a.V == nil:
		rf.Violation, rf.Plans = msg, cur
		rf.Note += "does not recur at every replay: the code under test depends on something outside the simulation"
		return rf, nil
	case b.V == nil:
		rf.Note += "does not recur at every replay: the code under test depends on something outside the simulation"
	case a.V.Msg != b.V.Msg || a.Hash != b.Hash:
		if !crashed(msg) {
			rf.Note += "two replays fail in different ways: the code under test depends on something outside the simulation"
		}
	}
	rf.Violation = a.V.Msg
	rf.History = fmt.Sprintf("%016x", a.Hash)
	rf.Plans = cur
	return rf, nil
}

func runBatches(p *Prop, tier string, seed uint64, n, workers int, dir string, stopOnFail bool) ([]BatchResult, error) {
	type job struct{ from, to int }
	var jobs []job
	for a := 0; a < n; a += p.Batch {
		jobs = append(jobs, job{a, min(n, a+p.Batch)})
	}
	results := make([]BatchResult, len(jobs))
	var mu sync.Mutex
	next, failed := 0, false
	var firstErr error
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || firstErr != nil || (failed && stopOnFail) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				res, err := oneBatch(p, tier, seed, jobs[i].from, jobs[i].to, dir)
				mu.Lock()
				if err != nil && firstErr == nil {
					firstErr = err
				}
				results[i] = res
				if res.Failed >= 0 && err == nil {
					failed = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	var done []BatchResult
	for _, r := range results {
		if r.Runs > 0 || r.V != nil {
			done = append(done, r)
		}
	}
	return done, firstErr
}

func oneBatch(p *Prop, tier string, seed uint64, from, to int, dir string) (BatchResult, error) {
	out := filepath.Join(dir, fmt.Sprintf("batch-%d.json", from))
	defer os.Remove(out)
	defer os.Remove(out + ".progress")
	lim := 300 * time.Second
	if tier == "thorough" {
		lim = 1800 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	bin, race := p.binary(from)
	cmd := exec.CommandContext(ctx, bin, "worker", "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
		"-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-out", out)
	if race {
		cmd.Env = append(os.Environ(), raceEnv)
	}
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	if ctx.Err() != nil {
		return BatchResult{}, fmt.Errorf("batch %d-%d: watchdog", from, to)
	}
	var res BatchResult
	if err != nil {
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() == 3 {
			return BatchResult{}, fmt.Errorf("batch %d-%d: %v: %s", from, to, err, eb.String())
		}
		b, _ := os.ReadFile(out + ".progress")
		i, perr := strconv.Atoi(strings.TrimSpace(string(b)))
		if perr != nil {
			return BatchResult{}, fmt.Errorf("batch %d-%d died: %v: %s", from, to, err, eb.String())
		}
		return BatchResult{From: from, To: to, Failed: i, V: &Violation{crashLine(eb.String())}, Stack: eb.String(), Runs: i - from + 1}, nil
	}
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	return res, err
}
