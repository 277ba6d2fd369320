// Package engine runs seeded simulations: it draws plans, executes them in
// worker processes, and turns the first failure into a minimised, verified
// replay file.
package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/sim/maporder"
	"verif.local/sim/prng"
	"verif.local/sim/vsim"
)

// Prop is one property and its simulation.
type Prop struct {
	ID        string
	Title     string
	Level     string
	Rule      string
	Runs      map[string]int // per tier
	Batch     int            // runs per process
	New       func() any     // empty plan for unmarshalling
	Gen       func(r *prng.R, tier string, i int) any
	Exec      func(c *Ctx, plan any)
	Shrink    func(plan any) []any
	Summary   func(plan any) string // one line for evidence samples
	Real      []string              // components that ran real code
	Stub      []string              // components that ran a stub
	Measure   string                // what Distinct counts
	Assume    []string
	Unbatched bool // shrink every candidate in its own process
	RaceEvery int  // every n-th batch runs in the binary built with the race detector
	Slow      bool // child processes involved: fewer shrink attempts
	// Setup may prepare files a run needs; it is called once by the parent.
	Setup func(dir string) error
}

var registry = map[string]*Prop{}

func Register(p *Prop) { registry[p.ID] = p }

func Lookup(id string) *Prop { return registry[id] }

func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Violation ends a run.
type Violation struct {
	Msg string `json:"msg"`
}

// Ctx collects what one run did.
type Ctx struct {
	Counters map[string]int64
	distinct map[uint64]struct{}
	trivial  bool
	hash     uint64
	SimNs    int64
	Trace    *strings.Builder // non-nil in replay: the event log
	Tier     string
	BuildDir string
	RunIndex int
	Recorded any // the plan with the decisions that were actually taken
}

func newCtx(tier string) *Ctx {
	return &Ctx{Counters: map[string]int64{}, hash: 14695981039346656037, Tier: tier, BuildDir: os.Getenv("SIM_BUILD")}
}

// Fail reports a violation; it does not return.
func (c *Ctx) Fail(format string, a ...any) { panic(&Violation{fmt.Sprintf(format, a...)}) }

func (c *Ctx) Count(name string, n int64) {
	if n != 0 {
		c.Counters[name] += n
	}
}

// Log adds an event to the run's history.
func (c *Ctx) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.Hash(s)
	if c.Trace != nil {
		c.Trace.WriteString(s)
		c.Trace.WriteByte('\n')
	}
}

// Hash mixes a cheap event into the history hash.
func (c *Ctx) Hash(s string) {
	for i := 0; i < len(s); i++ {
		c.hash = (c.hash ^ uint64(s[i])) * 1099511628211
	}
}

func (c *Ctx) HashInts(v ...int) {
	for _, x := range v {
		c.hash = (c.hash ^ uint64(x)) * 1099511628211
	}
}

// Tracing reports whether event text is wanted.
func (c *Ctx) Tracing() bool { return c.Trace != nil }

// State notes a distinct state or interleaving reached by a non-trivial run.
func (c *Ctx) State(h uint64) {
	if c.distinct == nil {
		c.distinct = map[uint64]struct{}{}
	}
	c.distinct[h] = struct{}{}
}

// Outcome of one execution.
type Outcome struct {
	V     *Violation
	Hash  uint64
	Ctx   *Ctx
	Stack string
}

// Execute runs one plan; every panic of the harness other than a Violation is
// a panic of code under test that the property did not allow, or a bug of ours;
// it is reported with its stack.
func Execute(p *Prop, plan any, tier string, trace bool, idx int) (o Outcome) {
	c := newCtx(tier)
	c.RunIndex = idx
	if trace {
		c.Trace = &strings.Builder{}
	}
	o.Ctx = c
	defer func() {
		vsim.Disarm()
		if r := recover(); r != nil {
			switch v := r.(type) {
			case *Violation:
				o.V = v
			case HarnessError:
				fmt.Fprintln(os.Stderr, "harness error:", string(v))
				os.Exit(3)
			default:
				o.V = &Violation{fmt.Sprintf("panic: %v", r)}
				o.Stack = string(debug.Stack())
			}
			if o.V != nil {
				c.Hash(o.V.Msg)
			}
		}
		o.Hash = c.hash
	}()
	maporder.Reset(uint64(idx) + 1)
	if !p.Slow {
		running.Store(int64(idx))
		began.Store(time.Now().UnixNano())
		defer began.Store(0)
	}
	p.Exec(c, plan)
	return o
}

// began is when the run that is going on began, in real time.
var began atomic.Int64

// running is the run that is going on.
var running atomic.Int64

// Alive tells the watchdog that a long run is getting on.
func Alive() {
	if began.Load() != 0 {
		began.Store(time.Now().UnixNano())
	}
}

// watch ends the process when a run does not end: code under test waits for
// something that the simulation does not see. Runs take milliseconds; one that has
// gone on for half a minute (less while a failure of this kind is minimised) and
// used next to no processor time is waiting. A run that computes is given eight
// times as long, so that the speed and load of the machine decide nothing.
func watch() {
	limit := 30 * time.Second
	if n, err := strconv.Atoi(os.Getenv("SIM_STALL")); err == nil {
		limit = time.Duration(n) * time.Second
	}
	var last int64
	var used time.Duration
	for {
		time.Sleep(time.Second / 2)
		t := began.Load()
		if t != last {
			last, used = t, cpu()
		}
		if t == 0 {
			continue
		}
		e := time.Duration(time.Now().UnixNano() - t)
		if e > limit && cpu()-used < e/10 || e > 8*limit {
			fmt.Fprintln(os.Stderr, "fatal error: the run does not end: the code under test waits for something that never happens")
			os.Exit(2)
		}
		if f := os.Getenv("SIM_SLOW"); f != "" && e > limit/8 { // for development
			if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(w, "run %d goes on for %v\n", running.Load(), e)
				w.Close()
			}
		}
	}
}

// cpu is the processor time this process has used.
func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// HarnessError is a failure of the machinery itself: error exit, no verdict.
type HarnessError string

func Harness(format string, a ...any) { panic(HarnessError(fmt.Sprintf(format, a...))) }

// BaseSeed is the seed of the plans being drawn.
var BaseSeed uint64

// PlanFor draws the plan of run i.
func PlanFor(p *Prop, seed uint64, tier string, i int) any {
	BaseSeed = seed
	r := prng.New(prng.Mix(seed, prng.HashString(p.ID), uint64(i)))
	return p.Gen(r, tier, i)
}

func decode(p *Prop, raw json.RawMessage) (any, error) {
	pl := p.New()
	if err := json.Unmarshal(raw, pl); err != nil {
		return nil, err
	}
	return pl, nil
}

func encode(plan any) json.RawMessage {
	b, err := json.Marshal(plan)
	if err != nil {
		Harness("encode plan: %v", err)
	}
	return b
}

// Class reduces a message to what must stay the same while shrinking: the
// text before the first ':' or, failing that, the whole message.
func Class(msg string) string {
	if i := strings.Index(msg, ":"); i > 0 {
		return msg[:i]
	}
	return msg
}
