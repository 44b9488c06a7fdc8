// Package simsync stands in for package sync in the code under test: the same
// semantics, but blocking is done by the simulator, so that a task parked
// inside a critical section does not block the others for real, and
// sync.Pool loses its randomness.
package simsync

import (
	"radosim/rt"
	"sync"
	"sync/atomic"
	"unsafe"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ m sync.Mutex }

func (m *Mutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }
func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		rt.Block(m.key())
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); rt.Wake(m.key()) }

// RWMutex: as in package sync, a waiting writer keeps new readers out.
type RWMutex struct {
	m       sync.RWMutex
	pending int
}

func (m *RWMutex) key() uintptr { return uintptr(unsafe.Pointer(m)) }

//go:norace
func (m *RWMutex) wait(d int) bool { m.pending += d; return m.pending > 0 }

func (m *RWMutex) Lock() {
	m.wait(1)
	for !m.m.TryLock() {
		rt.Block(m.key())
	}
	m.wait(-1)
}
func (m *RWMutex) RLock() {
	for m.wait(0) || !m.m.TryRLock() {
		rt.Block(m.key())
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); rt.Wake(m.key()) }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); rt.Wake(m.key()) }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Pool hands out the most recently returned item, always.
type Pool struct {
	New   func() any
	m     sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}
