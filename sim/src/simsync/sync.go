// Package simsync replaces package sync in simulated code. The simulator
// decides who gets a lock; the real primitive underneath is only ever used
// uncontended, for its memory-ordering effect (which the race detector sees).
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"sigs.k8s.io/controller-tools/verifsim/rt"
)

type Locker = sync.Locker

type Pool = sync.Pool

const site = 0

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real   sync.Mutex
	locked bool
	gen    uint32
}

// fresh forgets what an earlier simulated process, killed since, had locked:
// the state of packages that are not reset outlives it.
//
//go:norace
func (m *Mutex) fresh() {
	if g := rt.Gen(); m.gen != g {
		*m = Mutex{gen: g}
	}
}

//go:norace
func (m *RWMutex) fresh() {
	if g := rt.Gen(); m.gen != g {
		*m = RWMutex{gen: g}
	}
}

//go:norace
func (w *WaitGroup) fresh() {
	if g := rt.Gen(); w.gen != g {
		*w = WaitGroup{gen: g}
	}
}

//go:norace
func (m *Mutex) acquire() bool {
	m.fresh()
	rt.Y(site)
	for m.locked {
		if rt.S == nil || rt.Dead() {
			return false
		}
		rt.Block(site, unsafe.Pointer(m))
	}
	m.locked = true
	return true
}

//go:norace
func (m *Mutex) Lock() {
	if rt.Dead() {
		return
	}
	if m.acquire() || rt.S == nil {
		m.real.Lock()
	}
}

//go:norace
func (m *Mutex) TryLock() bool {
	if rt.Dead() {
		return true
	}
	m.fresh()
	rt.Y(site)
	if m.locked {
		return false
	}
	m.locked = true
	m.real.Lock()
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if rt.Dead() {
		return
	}
	m.fresh()
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	m.locked = false
	rt.Wake(unsafe.Pointer(m))
	rt.Y(site)
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	real    sync.RWMutex
	w       bool
	r       int
	waiting int // writers waiting: new readers queue behind them, as in sync
	gen     uint32
}

//go:norace
func (m *RWMutex) Lock() {
	if rt.Dead() {
		return
	}
	m.fresh()
	rt.Y(site)
	m.waiting++
	for m.w || m.r > 0 {
		if rt.S == nil || rt.Dead() {
			return
		}
		rt.Block(site, unsafe.Pointer(m))
	}
	m.waiting--
	m.w = true
	m.real.Lock()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if rt.Dead() {
		return true
	}
	m.fresh()
	rt.Y(site)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if rt.Dead() {
		return
	}
	m.fresh()
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	m.w = false
	rt.Wake(unsafe.Pointer(m))
	rt.Y(site)
}

//go:norace
func (m *RWMutex) RLock() {
	if rt.Dead() {
		return
	}
	m.fresh()
	rt.Y(site)
	for m.w || m.waiting > 0 {
		if rt.S == nil || rt.Dead() {
			return
		}
		rt.Block(site, unsafe.Pointer(m))
	}
	m.r++
	m.real.RLock()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if rt.Dead() {
		return true
	}
	m.fresh()
	rt.Y(site)
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	m.real.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if rt.Dead() {
		return
	}
	m.fresh()
	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	m.r--
	rt.Wake(unsafe.Pointer(m))
	rt.Y(site)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of tasks.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
	gen  uint32
}

//go:norace
func (w *WaitGroup) Add(d int) {
	if rt.Dead() {
		return
	}
	w.fresh()
	rt.Y(site)
	if w.n+d < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.real.Add(d)
	w.n += d
	if w.n == 0 {
		rt.Wake(unsafe.Pointer(w))
	}
	rt.Y(site)
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if rt.Dead() {
		return
	}
	w.fresh()
	rt.Y(site)
	for w.n > 0 {
		if rt.S == nil {
			break
		}
		if rt.Dead() {
			return
		}
		rt.Block(site, unsafe.Pointer(w))
	}
	w.real.Wait()
}

// Go runs f in a task (Go 1.25 API).
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	t := rt.Spawn(site)
	go func() {
		defer rt.TaskEnd(t)
		rt.TaskStart(t)
		defer w.Done()
		f()
	}()
	rt.AfterSpawn(site)
}

// Once runs a function once.
type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.Y(site)
	if o.done.Load() == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer func() {
			if !rt.Dead() {
				o.done.Store(1)
			}
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a condition variable.
type Cond struct {
	L   Locker
	gen int
	wk  int
	run uint32
}

//go:norace
func (c *Cond) fresh() {
	if g := rt.Gen(); c.run != g {
		c.gen, c.wk, c.run = 0, 0, g
	}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	if rt.Dead() {
		return
	}
	c.fresh()
	c.gen++
	me := c.gen
	c.L.Unlock()
	for c.wk < me && rt.S != nil && !rt.Dead() {
		rt.Block(site, unsafe.Pointer(c))
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	c.fresh()
	if c.wk < c.gen {
		c.wk++
	}
	rt.Wake(unsafe.Pointer(c))
	rt.Y(site)
}

//go:norace
func (c *Cond) Broadcast() {
	c.fresh()
	c.wk = c.gen
	rt.Wake(unsafe.Pointer(c))
	rt.Y(site)
}
