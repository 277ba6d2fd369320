// Package vsync stands in for package sync in the simulated build: the same
// API, but blocking is known to the simulator's scheduler, and Pool is a
// deterministic stack instead of a per-processor cache.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"

	"verif.local/sim/vsim"
)

type Locker = sync.Locker

func wait(try func() bool) {
	if vsim.Active() {
		vsim.Point()
		for !try() {
			vsim.Block()
		}
		return
	}
	for i := 0; !try(); i++ {
		runtime.Gosched()
		if i > 50_000_000 {
			panic("deadlock: lock is never released")
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock()         { wait(m.mu.TryLock) }
func (m *Mutex) TryLock() bool { vsim.Point(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); vsim.Wake(); vsim.Point() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock()          { wait(m.mu.TryLock) }
func (m *RWMutex) RLock()         { wait(m.mu.TryRLock) }
func (m *RWMutex) TryLock() bool  { vsim.Point(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { vsim.Point(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); vsim.Wake(); vsim.Point() }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); vsim.Wake(); vsim.Point() }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	mu   Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vsim.Point()
	if o.done.Load() {
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	g := OnceFunc(func() { a, b = f() })
	return func() (A, B) { g(); return a, b }
}

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	bad := w.n < 0
	w.mu.Unlock()
	if bad {
		panic("sync: negative WaitGroup counter")
	}
	vsim.Wake()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	wait(func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

// Pool is a LIFO stack: a Get straight after a Put, by any task, returns the
// same object, which is what a real pool may do and tests rarely see.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	vsim.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	vsim.Point()
}

type Map = sync.Map

type Cond struct {
	L   Locker
	mu  sync.Mutex
	gen int
	cnt int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	g := c.gen
	c.mu.Unlock()
	c.L.Unlock()
	wait(func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.gen != g })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() } // spurious wake-ups are legal for callers that loop
func (c *Cond) Broadcast() { c.mu.Lock(); c.gen++; c.mu.Unlock(); vsim.Wake() }
