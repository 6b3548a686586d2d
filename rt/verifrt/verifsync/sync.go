// Package verifsync stands in for package sync in instrumented code: same API, but a task that would
// block gives way to the simulated scheduler, which decides who runs next.
package verifsync

import (
	"sync"
	"sync/atomic"

	"@MODULE@/verifrt"
)

// Locker is [sync.Locker].
type Locker = sync.Locker

// Mutex replaces [sync.Mutex].
type Mutex struct{ mu sync.Mutex }

// Lock acquires m.
func (m *Mutex) Lock() {
	verifrt.Yield(-1)
	for !m.mu.TryLock() {
		if !verifrt.Block() {
			m.mu.Lock()
			return
		}
	}
}

// TryLock is [sync.Mutex.TryLock].
func (m *Mutex) TryLock() bool { verifrt.Yield(-2); return m.mu.TryLock() }

// Unlock releases m.
func (m *Mutex) Unlock() { m.mu.Unlock(); verifrt.Yield(-3) }

// RWMutex replaces [sync.RWMutex]. As there, a writer that waits keeps out readers that come later, so
// that a caller who asks for a lock it already holds for reading may wait forever.
type RWMutex struct {
	mu      sync.RWMutex
	writers atomic.Int32 // who wait
}

// Lock acquires m for writing.
func (m *RWMutex) Lock() {
	verifrt.Yield(-4)
	if m.mu.TryLock() {
		return
	}
	m.writers.Add(1)
	defer m.writers.Add(-1)
	for !m.mu.TryLock() {
		if !verifrt.Block() {
			m.mu.Lock()
			return
		}
	}
}

// RLock acquires m for reading.
func (m *RWMutex) RLock() {
	verifrt.Yield(-5)
	for !m.tryRLock() {
		if !verifrt.Block() {
			m.mu.RLock()
			return
		}
	}
}

func (m *RWMutex) tryRLock() bool { return m.writers.Load() == 0 && m.mu.TryRLock() }

// TryLock is [sync.RWMutex.TryLock].
func (m *RWMutex) TryLock() bool { verifrt.Yield(-4); return m.mu.TryLock() }

// TryRLock is [sync.RWMutex.TryRLock].
func (m *RWMutex) TryRLock() bool { verifrt.Yield(-5); return m.tryRLock() }

// Unlock releases m.
func (m *RWMutex) Unlock() { m.mu.Unlock(); verifrt.Yield(-6) }

// RUnlock releases m.
func (m *RWMutex) RUnlock() { m.mu.RUnlock(); verifrt.Yield(-7) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is [sync.RWMutex.RLocker].
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces [sync.WaitGroup].
type WaitGroup struct {
	mu sync.Mutex
	n  int
	wg sync.WaitGroup
}

// Add is [sync.WaitGroup.Add].
func (w *WaitGroup) Add(d int) {
	verifrt.Yield(-8)
	w.mu.Lock()
	w.n += d
	w.mu.Unlock()
	w.wg.Add(d)
}

// Done is [sync.WaitGroup.Done].
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is [sync.WaitGroup.Wait].
func (w *WaitGroup) Wait() {
	verifrt.Yield(-9)
	for {
		w.mu.Lock()
		n := w.n
		w.mu.Unlock()
		if n == 0 {
			return
		}
		if !verifrt.Block() {
			w.wg.Wait()
			return
		}
	}
}

// Go is [sync.WaitGroup.Go].
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	verifrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces [sync.Once].
type Once struct {
	mu   Mutex
	done bool
}

// Do is [sync.Once.Do].
func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is [sync.OnceFunc].
func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }

// OnceValue is [sync.OnceValue].
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is [sync.OnceValues].
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool replaces [sync.Pool]: last in, first out, which makes reuse as likely as it can be.
type Pool struct {
	New func() any

	mu    sync.Mutex
	items []any
}

// Get is [sync.Pool.Get].
func (p *Pool) Get() any {
	verifrt.Yield(-10)
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put is [sync.Pool.Put].
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	verifrt.Yield(-11)
}

// Cond replaces [sync.Cond].
type Cond struct {
	L Locker

	mu      sync.Mutex
	gen     int // of broadcasts
	waiters int // of this generation
	wake    int // how many of them may go on
	real    *sync.Cond
}

// NewCond is [sync.NewCond].
func NewCond(l Locker) *Cond { c := &Cond{L: l}; c.real = sync.NewCond(&c.mu); return c }

// Wait is [sync.Cond.Wait].
func (c *Cond) Wait() {
	c.mu.Lock()
	g := c.gen
	c.waiters++
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		if c.gen != g || c.wake > 0 {
			if c.gen == g {
				c.wake--
				c.waiters--
			}
			c.mu.Unlock()
			break
		}
		c.mu.Unlock()
		if !verifrt.Block() {
			c.mu.Lock()
			for c.gen == g && c.wake == 0 {
				c.real.Wait()
			}
			if c.gen == g {
				c.wake--
				c.waiters--
			}
			c.mu.Unlock()
			break
		}
	}
	c.L.Lock()
}

// Signal is [sync.Cond.Signal].
func (c *Cond) Signal() {
	c.mu.Lock()
	if c.wake < c.waiters {
		c.wake++
		c.real.Signal()
	}
	c.mu.Unlock()
}

// Broadcast is [sync.Cond.Broadcast].
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.gen++
	c.wake, c.waiters = 0, 0
	c.real.Broadcast()
	c.mu.Unlock()
}

// Map replaces [sync.Map]; operations are atomic, Range visits in the simulator's order.
type Map struct {
	mu sync.Mutex
	m  map[any]any
}

// Load is [sync.Map.Load].
func (m *Map) Load(k any) (any, bool) {
	verifrt.Yield(-12)
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Store is [sync.Map.Store].
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap is [sync.Map.Swap].
func (m *Map) Swap(k, v any) (any, bool) {
	verifrt.Yield(-13)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.init()
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}

// LoadOrStore is [sync.Map.LoadOrStore].
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	verifrt.Yield(-14)
	m.mu.Lock()
	defer m.mu.Unlock()
	m.init()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.m[k] = v
	return v, false
}

// LoadAndDelete is [sync.Map.LoadAndDelete].
func (m *Map) LoadAndDelete(k any) (any, bool) {
	verifrt.Yield(-15)
	m.mu.Lock()
	defer m.mu.Unlock()
	old, ok := m.m[k]
	delete(m.m, k)
	return old, ok
}

// Delete is [sync.Map.Delete].
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// CompareAndSwap is [sync.Map.CompareAndSwap].
func (m *Map) CompareAndSwap(k, old, v any) bool {
	verifrt.Yield(-16)
	m.mu.Lock()
	defer m.mu.Unlock()
	if cur, ok := m.m[k]; ok && cur == old {
		m.m[k] = v
		return true
	}
	return false
}

// CompareAndDelete is [sync.Map.CompareAndDelete].
func (m *Map) CompareAndDelete(k, old any) bool {
	verifrt.Yield(-17)
	m.mu.Lock()
	defer m.mu.Unlock()
	if cur, ok := m.m[k]; ok && cur == old {
		delete(m.m, k)
		return true
	}
	return false
}

// Clear is [sync.Map.Clear].
func (m *Map) Clear() { m.mu.Lock(); m.m = nil; m.mu.Unlock() }

// Range is [sync.Map.Range].
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	snapshot := map[any]any{}
	for k, v := range m.m {
		snapshot[k] = v
	}
	m.mu.Unlock()
	for _, e := range verifrt.Entries(snapshot) {
		if !f(e.K, e.V()) {
			return
		}
	}
}
