// Package vsim is the seam through which the simulator controls execution of
// the code under test.  A build-time overlay inserts a call to Y before every
// statement of that code.  Without a scheduler Y only counts (and stops code
// that exceeds its step budget); with a scheduler installed Y is a preemption
// point of a cooperative scheduler that runs exactly one task at a time.
package vsim

import (
	"fmt"
	"reflect"
	"runtime/debug"
)

// Getg identifies the calling goroutine (asm).
func Getg() uintptr

var (
	left  int64 = 1 << 62 // statements until slow is entered
	base  int64 = 1 << 62
	sched *Sched
)

// BudgetExceeded is the panic value when code under test runs away.
type BudgetExceeded struct{ Steps int64 }

//go:norace
func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("did not finish within %d steps", b.Steps)
}

type aborted struct{}

// Y is called before every instrumented statement.
//
//go:norace
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

//go:norace
func slow() {
	s := sched
	if s == nil {
		panic(BudgetExceeded{base})
	}
	t := s.cur
	if t == nil || Getg() != t.g {
		return // not one of ours
	}
	s.yield(t, false)
}

// Calls into the standard library do not contain yield points. L and B take
// note of a text handed to a function whose work depends on how far it has to
// look, and charge a step per byte when it had to look at all of it; C charges
// a step per byte of a text that is copied or read to its end.

var lastLen int64

//go:norace
func charge(n int64) {
	if sched != nil {
		return // quanta count statements only
	}
	if left -= n; left < 0 {
		left = -1
		slow()
	}
}

// L notes the length of a text.
//
//go:norace
func L[T any](x T) T {
	if sched == nil {
		lastLen = lenOf(x)
	}
	return x
}

// C charges for a text.
//
//go:norace
func C[T any](x T) T {
	if sched == nil {
		charge(lenOf(x))
	}
	return x
}

// S charges for a text about to be converted to a string, unless it is one.
//
//go:norace
func S[T any](x T) T {
	if sched == nil && !isString(x) {
		charge(lenOf(x))
	}
	return x
}

// R charges for a text about to be converted to a slice, unless it is one.
//
//go:norace
func R[T any](x T) T {
	if sched == nil && isString(x) {
		charge(lenOf(x))
	}
	return x
}

func isString(x any) bool {
	if _, ok := x.(string); ok {
		return true
	}
	return reflect.ValueOf(x).Kind() == reflect.String
}

// B charges for the text last noted if nothing was found in it.
//
//go:norace
func B(found bool) bool {
	if sched == nil && !found {
		charge(lastLen)
	}
	return found
}

// I charges for the part of the text last noted before what was found in it.
//
//go:norace
func I(at int) int {
	if sched == nil {
		n := lastLen
		if at >= 0 && int64(at) < n {
			n = int64(at)
		}
		charge(n)
	}
	return at
}

func lenOf(x any) int64 {
	switch v := x.(type) {
	case string:
		return int64(len(v))
	case []byte:
		return int64(len(v))
	case []rune:
		return int64(len(v))
	}
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.String, reflect.Slice:
		return int64(v.Len())
	}
	return 0
}

// Arm sets the step budget for unscheduled execution.
//
//go:norace
func Arm(budget int64) { left, base = budget, budget }

// Disarm removes the budget.
//
//go:norace
func Disarm() { left, base = 1<<62, 1<<62 }

// Used reports the steps since Arm.
//
//go:norace
func Used() int64 {
	if left < 0 {
		return base
	}
	return base - left
}

// Decision: run Task for at most N statements.
type Decision struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

// Forever as a quantum means: until the task blocks or ends.
const Forever = int64(1) << 40

// Decider chooses the next decision among the runnable tasks.
type Decider interface {
	Next(runnable []int, prev int) Decision
}

type task struct {
	id      int
	g       uintptr
	resume  chan bool // false: abort
	blocked bool
	done    bool
	panicV  any
	stack   string
	steps   int64
}

// Sched is one simulated multi-threaded execution.
type Sched struct {
	tasks    []*task
	cur      *task
	back     chan struct{}
	quantum  int64
	Trace    []Decision
	Switches int
	Steps    int64
	Blocks   int
	budget   int64
	Deadlock bool
	Runaway  bool
	hash     uint64
}

// TaskResult tells how a task ended.
type TaskResult struct {
	Panic any
	Stack string
	Steps int64
}

//go:norace
func (s *Sched) yield(t *task, blocked bool) {
	t.blocked = blocked
	raceOff()
	s.back <- struct{}{}
	ok := <-t.resume
	raceOn()
	if !ok {
		panic(aborted{})
	}
}

// Active reports whether the caller is a scheduled task.
//
//go:norace
func Active() bool {
	s := sched
	return s != nil && s.cur != nil && Getg() == s.cur.g
}

// Point is an explicit preemption point (operation boundaries).
//
//go:norace
func Point() {
	if sched != nil {
		Y()
	}
}

// Block gives up the processor because the caller cannot proceed.
//
//go:norace
func Block() {
	s := sched
	s.account()
	left = 0
	s.Blocks++
	s.yield(s.cur, true)
}

// Wake makes blocked tasks runnable again (they re-check their condition).
//
//go:norace
func Wake() {
	s := sched
	if s == nil {
		return
	}
	for _, t := range s.tasks {
		t.blocked = false
	}
}

//go:norace
func (s *Sched) account() {
	used := s.quantum - 1 - left
	if left < 0 {
		used = s.quantum
	}
	s.quantum = 0
	s.Steps += used
	if s.cur != nil {
		s.cur.steps += used
	}
}

// Hash identifies the interleaving that was executed.
//
//go:norace
func (s *Sched) Hash() uint64 { return s.hash }

// run is the body of a task's goroutine.
//
//go:norace
func (s *Sched) run(t *task, b func(), started chan struct{}) {
	t.g = Getg()
	started <- struct{}{}
	defer s.ended(t)
	raceOff()
	ok := <-t.resume
	raceOn()
	if ok {
		b()
	}
}

// ended is deferred by run. What the task did happens before whatever its
// starter does later, but not before what other tasks do.
//
//go:norace
func (s *Sched) ended(t *task) {
	if r := recover(); r != nil {
		if _, ok := r.(aborted); !ok {
			t.panicV, t.stack = r, string(debug.Stack())
		}
	}
	t.done = true
	raceRelease(t)
	raceOff()
	s.back <- struct{}{}
	raceOn()
}

// Run executes the bodies as tasks under the decider. It returns when all
// tasks ended, the step budget ran out, or nothing can run any more.
//
//go:norace
func Run(bodies []func(), dec Decider, budget int64) (*Sched, []TaskResult) {
	s := &Sched{back: make(chan struct{}), budget: budget, hash: 14695981039346656037}
	defer func() { sched = nil; Disarm() }()
	started := make(chan struct{})
	for i, b := range bodies {
		t := &task{id: i, resume: make(chan bool)}
		s.tasks = append(s.tasks, t)
		go s.run(t, b, started)
		<-started
	}
	sched = s
	prev := -1
	runnable := make([]int, 0, len(bodies))
	for {
		runnable = runnable[:0]
		alive := 0
		for _, t := range s.tasks {
			if !t.done {
				alive++
				if !t.blocked {
					runnable = append(runnable, t.id)
				}
			}
		}
		if alive == 0 {
			break
		}
		if len(runnable) == 0 {
			s.Deadlock = true
			break
		}
		if s.Steps > budget {
			s.Runaway = true
			break
		}
		d := dec.Next(runnable, prev)
		if d.N < 1 {
			d.N = 1
		}
		if max := budget - s.Steps + 1; d.N > max {
			d.N = max
		}
		t := s.tasks[d.T]
		if prev >= 0 && prev != d.T {
			s.Switches++
		}
		prev = d.T
		before := s.Steps
		s.cur = t
		s.quantum = d.N
		left = d.N - 1
		s.handOver(t, true)
		if s.quantum > 0 {
			s.account()
		}
		s.cur = nil
		ran := s.Steps - before
		rec := ran
		if t.done || t.blocked {
			rec = Forever // it stopped by itself, not at a preemption point
		}
		s.hash = (s.hash ^ uint64(d.T)) * 1099511628211
		s.hash = (s.hash ^ uint64(ran)) * 1099511628211
		if n := len(s.Trace); n > 0 && s.Trace[n-1].T == d.T {
			if s.Trace[n-1].N += rec; s.Trace[n-1].N > Forever {
				s.Trace[n-1].N = Forever
			}
		} else {
			s.Trace = append(s.Trace, Decision{d.T, rec})
		}
	}
	// unwind whatever is still parked
	for _, t := range s.tasks {
		if !t.done {
			s.cur = t
			left = 1 << 40
			s.handOver(t, false)
		}
	}
	res := make([]TaskResult, len(s.tasks))
	for i, t := range s.tasks {
		res[i] = TaskResult{t.panicV, t.stack, t.steps}
	}
	return s, res
}

// handOver lets a task run until it gives the processor back.
//
//go:norace
func (s *Sched) handOver(t *task, ok bool) {
	raceOff()
	t.resume <- ok
	<-s.back
	raceOn()
	if t.done {
		raceAcquire(t)
	}
}

// Replay is a Decider that follows a recorded list and then runs the
// remaining tasks one after the other without preemption.
type Replay struct {
	List []Decision
	i    int
}

//go:norace
func (r *Replay) Next(runnable []int, prev int) Decision {
	for r.i < len(r.List) {
		d := r.List[r.i]
		r.i++
		for _, t := range runnable {
			if t == d.T {
				return d
			}
		}
	}
	for _, t := range runnable {
		if t == prev {
			return Decision{t, Forever}
		}
	}
	return Decision{runnable[0], Forever}
}
