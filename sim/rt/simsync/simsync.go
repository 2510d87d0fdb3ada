// Package simsync is the sync package under the simulator's scheduler. Who gets a lock
// is decided by cooperative state (norace); the real primitive underneath is taken
// uncontended and gives the race detector the happens-before edges of the real one.
package simsync

import (
	"sync"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	real sync.Mutex
}

//go:norace
func (m *Mutex) try() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) clear() bool {
	h := m.held
	m.held = false
	return h
}

func (m *Mutex) Lock() {
	for !m.try() {
		simrt.WaitChange()
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if !m.try() {
		return false
	}
	m.real.Lock()
	return true
}

func (m *Mutex) Unlock() {
	m.real.Unlock()
	m.clear()
	simrt.Changed()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w    bool
	r    int
	real sync.RWMutex
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

//go:norace
func (m *RWMutex) relW() { m.w = false }

//go:norace
func (m *RWMutex) relR() { m.r-- }

func (m *RWMutex) Lock() {
	for !m.tryW() {
		simrt.WaitChange()
	}
	m.real.Lock()
}
func (m *RWMutex) TryLock() bool {
	if !m.tryW() {
		return false
	}
	m.real.Lock()
	return true
}
func (m *RWMutex) Unlock() {
	m.real.Unlock()
	m.relW()
	simrt.Changed()
}
func (m *RWMutex) RLock() {
	for !m.tryR() {
		simrt.WaitChange()
	}
	m.real.RLock()
}
func (m *RWMutex) TryRLock() bool {
	if !m.tryR() {
		return false
	}
	m.real.RLock()
	return true
}
func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	m.relR()
	simrt.Changed()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n    int
	real sync.Mutex
}

//go:norace
func (g *WaitGroup) add(d int) int { g.n += d; return g.n }

//go:norace
func (g *WaitGroup) zero() bool { return g.n == 0 }

func (g *WaitGroup) edge() { g.real.Lock(); g.real.Unlock() } //nolint:staticcheck // happens-before edge

func (g *WaitGroup) Add(d int) {
	g.edge()
	if g.add(d) < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Changed()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	for !g.zero() {
		simrt.WaitChange()
	}
	g.edge()
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() { defer g.Done(); f() })
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	gen int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) get() int { return c.gen }

//go:norace
func (c *Cond) bump() { c.gen++ }

func (c *Cond) Wait() {
	g := c.get()
	c.L.Unlock()
	for c.get() == g {
		simrt.WaitChange()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.bump(); simrt.Changed() }
func (c *Cond) Broadcast() { c.bump(); simrt.Changed() }

// Pool is sync.Pool: whether a Get reuses an item is the simulator's choice.
type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
	allPools.Store(p, true)
}

var allPools sync.Map // pools that have items

// DropPools empties all pools, as garbage collections do in the end.
func DropPools() {
	allPools.Range(func(k, _ any) bool {
		p, _ := k.(*Pool)
		allPools.Delete(k)
		p.items = nil
		return true
	})
}

func (p *Pool) Get() any {
	p.m.Lock()
	n := len(p.items)
	if n > 0 {
		w := simrt.Cur()
		if w == nil || w.Choose("pool", 2) == 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			p.m.Unlock()
			return x
		}
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Map is sync.Map.
type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	keys := make([]any, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	m.mu.Unlock()
	simrt.ShuffleKeys(keys)
	for _, k := range keys {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
