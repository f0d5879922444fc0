// Package sync stands in for the standard package in instrumented code: what
// may block lets other threads of package sched run instead. Only one thread
// runs at a time, so nothing here needs to be atomic.
package sync

import (
	real "sync"

	"verif/sched"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	sched.Y()
	for m.locked {
		sched.Block()
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	sched.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	sched.Y()
}

type RWMutex struct {
	w Mutex
	r int
}

func (m *RWMutex) Lock() {
	m.w.Lock()
	for m.r > 0 {
		sched.Block()
	}
}

func (m *RWMutex) TryLock() bool {
	if m.r > 0 {
		return false
	}
	return m.w.TryLock()
}

func (m *RWMutex) Unlock() { m.w.Unlock() }

func (m *RWMutex) RLock() {
	sched.Y()
	for m.w.locked {
		sched.Block()
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	sched.Y()
	if m.w.locked {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	sched.Y()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sched.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Pool hands out what was put in last.
type Pool struct {
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	sched.Y()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.free = append(p.free, x)
	}
	sched.Y()
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(n int) { w.n += n; sched.Y() }
func (w *WaitGroup) Done()     { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for w.n > 0 {
		sched.Block()
	}
}

// Map does not block.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Y(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Y(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Y(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { sched.Y(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { sched.Y(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Range(f func(k, v any) bool)      { sched.Y(); m.m.Range(f) }
func (m *Map) Clear()                           { sched.Y(); m.m.Clear() }

type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := c.gen
	c.L.Unlock()
	for c.gen == g {
		sched.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.gen++; sched.Y() }
func (c *Cond) Broadcast() { c.gen++; sched.Y() }
