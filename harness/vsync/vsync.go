//go:build race

// Package vsync stands in for sync: each acquiring operation is a scheduling point, and
// waiting is done by the controlled scheduler. The real primitives do the work, so the
// race detector sees their ordering.
package vsync

import (
	"sync"
	"unsafe"

	"verifmc/sched"
)

type (
	Locker    = sync.Locker
	Cond      = sync.Cond
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	sched.Point()
	for !m.mu.TryLock() {
		if !sched.Block(unsafe.Pointer(m)) {
			m.mu.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { sched.Point(); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); sched.Wake(unsafe.Pointer(m)) }

// RWMutex: as in sync, a waiting writer keeps new readers out.
type RWMutex struct {
	mu      sync.RWMutex
	waiting int // writers, seen by the scheduler only
}

//go:norace
func (m *RWMutex) wait(d int) { m.waiting += d }

//go:norace
func (m *RWMutex) writers() bool { return m.waiting > 0 }

func (m *RWMutex) Lock() {
	sched.Point()
	if m.mu.TryLock() {
		return
	}
	if !sched.Controlled() {
		m.mu.Lock()
		return
	}
	m.wait(1)
	for !m.mu.TryLock() {
		if !sched.Block(unsafe.Pointer(m)) {
			m.wait(-1)
			m.mu.Lock()
			return
		}
	}
	m.wait(-1)
}
func (m *RWMutex) RLock() {
	sched.Point()
	if !sched.Controlled() {
		m.mu.RLock()
		return
	}
	for m.writers() || !m.mu.TryRLock() {
		if !sched.Block(unsafe.Pointer(m)) {
			m.mu.RLock()
			return
		}
	}
}
func (m *RWMutex) TryLock() bool  { sched.Point(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { sched.Point(); return m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); sched.Wake(unsafe.Pointer(m)) }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); sched.Wake(unsafe.Pointer(m)) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once as in sync: the flag is read without the lock first.
type Once struct {
	fast sync.Map // set once; gives the reader the ordering sync.Once gives
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sched.Point()
	if _, ok := o.fast.Load(0); ok {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; o.fast.Store(0, true) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	v := OnceValue(func() int { f(); return 0 })
	return func() { v() }
}

func OnceValue[T any](f func() T) func() T {
	v := OnceValues(func() (T, int) { return f(), 0 })
	return func() T { r, _ := v(); return r }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var (
		once  Once
		valid bool
		p     any
		a     A
		b     B
	)
	return func() (A, B) {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			a, b = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return a, b
	}
}

// Pool keeps everything, last in first out.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	sched.Point()
	p.mu.Lock()
	if k := len(p.items); k > 0 {
		x := p.items[k-1]
		p.items = p.items[:k-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sched.Point()
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, v any) bool  { sched.Point(); return m.m.CompareAndSwap(k, o, v) }
func (m *Map) CompareAndDelete(k, o any) bool   { sched.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { sched.Point(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	sched.Point()
	m.m.Range(func(k, v any) bool { sched.Point(); return f(k, v) })
}
