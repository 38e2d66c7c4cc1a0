// Package simsync stands in for package sync in the rewritten library. Blocking
// operations are scheduled by the simulator, Pool is deterministic, and the real
// primitives below still give the race detector its happens-before edges.
package simsync

import (
	"sync"

	"github.com/golang/freetype/verifsim/simrt"
)

type Locker = sync.Locker

type Mutex struct {
	held bool
	mu   sync.Mutex
}

type mutexFree struct{ m *Mutex }

//go:norace
func (c mutexFree) Ready() bool { return !c.m.held }

//go:norace
func (m *Mutex) set(v bool) { m.held = v }

func (m *Mutex) Lock() {
	simrt.H()
	simrt.Block(mutexFree{m})
	m.set(true)
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	simrt.H()
	if !(mutexFree{m}).Ready() {
		return false
	}
	m.set(true)
	m.mu.Lock()
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.set(false)
	simrt.H()
}

type RWMutex struct {
	w  bool
	r  int
	mu sync.RWMutex
}

type rwFree struct{ m *RWMutex }
type rwNoWriter struct{ m *RWMutex }

//go:norace
func (c rwFree) Ready() bool { return !c.m.w && c.m.r == 0 }

//go:norace
func (c rwNoWriter) Ready() bool { return !c.m.w }

//go:norace
func (m *RWMutex) set(w bool, dr int) { m.w = w; m.r += dr }

func (m *RWMutex) Lock() {
	simrt.H()
	simrt.Block(rwFree{m})
	m.set(true, 0)
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !(rwFree{m}).Ready() {
		return false
	}
	m.set(true, 0)
	m.mu.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.set(false, 0)
	simrt.H()
}

func (m *RWMutex) RLock() {
	simrt.H()
	simrt.Block(rwNoWriter{m})
	m.set(false, 1)
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !(rwNoWriter{m}).Ready() {
		return false
	}
	m.set(false, 1)
	m.mu.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.set(false, -1)
	simrt.H()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

type wgZero struct{ w *WaitGroup }

//go:norace
func (c wgZero) Ready() bool { return c.w.n <= 0 }

//go:norace
func (w *WaitGroup) add(d int) { w.n += d }

func (w *WaitGroup) Add(d int) { w.wg.Add(d); w.add(d) }
func (w *WaitGroup) Done()     { w.Add(-1); simrt.H() }
func (w *WaitGroup) Wait()     { simrt.H(); simrt.Block(wgZero{w}); w.wg.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

// Pool hands out the item put back last, unless the environment says otherwise.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	simrt.H()
	p.mu.Lock()
	var x any
	if n := len(p.items); n > 0 {
		if k := simrt.PoolPick(n); k < n {
			x = p.items[k]
			p.items[k] = p.items[n-1]
			p.items[n-1] = nil
			p.items = p.items[:n-1]
		}
	}
	p.mu.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	if Track && len(p.items) == 1 {
		pools.mu.Lock()
		pools.p = append(pools.p, p)
		pools.mu.Unlock()
	}
	p.mu.Unlock()
	simrt.H()
}

// Track makes Collect know pools. It is for one caller only, as it orders their
// steps.
var Track bool

// pools has those with items.
var pools struct {
	mu sync.Mutex
	p  []*Pool
}

// Collect empties all pools, as a collection of memory may.
func Collect() {
	pools.mu.Lock()
	ps := pools.p
	pools.p = nil
	pools.mu.Unlock()
	for _, p := range ps {
		p.mu.Lock()
		p.items = nil
		p.mu.Unlock()
	}
}

// Map is a plain map behind a lock, ranged over in insertion order.
type Map struct {
	mu   sync.Mutex
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.H()
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	simrt.H()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.H()
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.H()
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.H()
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	if v, ok := m.Load(k); ok && v == old {
		m.Delete(k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.mu.Lock()
	m.m, m.keys = nil, nil
	m.mu.Unlock()
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	keys := append([]any(nil), m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L   Locker
	gen int
	sig int
}

type condGo struct {
	c *Cond
	g int
}

//go:norace
func (g condGo) Ready() bool { return g.c.gen > g.g || g.c.sig > 0 }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) state() int { return c.gen }

//go:norace
func (c *Cond) take(g int) {
	if c.gen <= g && c.sig > 0 {
		c.sig--
	}
}

//go:norace
func (c *Cond) bump(all bool) {
	if all {
		c.gen++
	} else {
		c.sig++
	}
}

func (c *Cond) Wait() {
	g := c.state()
	c.L.Unlock()
	simrt.Block(condGo{c, g})
	c.take(g)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.bump(false) }
func (c *Cond) Broadcast() { c.bump(true) }
