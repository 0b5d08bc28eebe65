// Package vsync replaces sync under the controlled scheduler.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	mu     sync.Mutex
	locked bool
}

//go:norace
func (m *Mutex) free() bool { return !m.locked }

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	if !rt.On() {
		m.mu.Lock()
		return
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KLock, m.free) {
		return
	}

	m.locked = true
	m.mu.Lock()
}

// TryLock tries.
//
//go:norace
func (m *Mutex) TryLock() bool {
	if !rt.On() {
		return m.mu.TryLock()
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KWrite, nil) || m.locked {
		return false
	}

	m.locked = true
	m.mu.Lock()

	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if !rt.On() {
		m.mu.Unlock()
		return
	}

	if rt.Killed() {
		return
	}

	rt.Note(unsafe.Pointer(m), rt.KUnlock)

	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}

	m.locked = false
	m.mu.Unlock()
	rt.After()
}

// RWMutex replaces sync.RWMutex (writer preference is not modelled).
type RWMutex struct {
	mu sync.RWMutex
	w  bool
	r  int
}

//go:norace
func (m *RWMutex) free() bool { return !m.w && m.r == 0 }

//go:norace
func (m *RWMutex) noWriter() bool { return !m.w }

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	if !rt.On() {
		m.mu.Lock()
		return
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KLock, m.free) {
		return
	}

	m.w = true
	m.mu.Lock()
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	if !rt.On() {
		m.mu.Unlock()
		return
	}

	if rt.Killed() {
		return
	}

	rt.Note(unsafe.Pointer(m), rt.KUnlock)

	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}

	m.w = false
	m.mu.Unlock()
	rt.After()
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	if !rt.On() {
		m.mu.RLock()
		return
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KRead, m.noWriter) {
		return
	}

	m.r++
	m.mu.RLock()
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if !rt.On() {
		m.mu.RUnlock()
		return
	}

	if rt.Killed() {
		return
	}

	rt.Note(unsafe.Pointer(m), rt.KUnlock)

	if m.r == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}

	m.r--
	m.mu.RUnlock()
	rt.After()
}

// TryLock tries.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	if !rt.On() {
		return m.mu.TryLock()
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KWrite, nil) || m.w || m.r > 0 {
		return false
	}

	m.w = true
	m.mu.Lock()

	return true
}

// TryRLock tries.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	if !rt.On() {
		return m.mu.TryRLock()
	}

	if !rt.Point(unsafe.Pointer(m), 0, rt.KWrite, nil) || m.w {
		return false
	}

	m.r++
	m.mu.RLock()

	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(d int) {
	if !rt.On() {
		w.wg.Add(d)
		return
	}

	if !rt.Point(unsafe.Pointer(w), 0, rt.KAdd, nil) {
		return
	}

	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}

	w.wg.Add(d)
}

//go:norace
func (w *WaitGroup) zero() bool { return w.n == 0 }

// Done decrements.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
//
//go:norace
func (w *WaitGroup) Wait() {
	if !rt.On() {
		w.wg.Wait()
		return
	}

	if !rt.Point(unsafe.Pointer(w), 0, rt.KRead, w.zero) {
		return
	}

	w.wg.Wait()
}

// Go runs f in a thread.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f once.
//
//go:norace
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		v T
	)

	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o Once
		a T1
		b T2
	)

	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	wait []*signal

	once sync.Once
	c    *sync.Cond // free mode
}

type signal struct{ set bool }

//go:norace
func (s *signal) isSet() bool { return s.set }

// NewCond makes a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	c.once.Do(func() { c.c = sync.NewCond(c.L) })
	return c.c
}

// Wait waits.
//
//go:norace
func (c *Cond) Wait() {
	if !rt.On() {
		c.real().Wait()
		return
	}

	s := &signal{}
	c.wait = append(c.wait, s)

	c.L.Unlock()

	if rt.Point(unsafe.Pointer(c), 0, rt.KWrite, s.isSet) {
		rt.Acquire(unsafe.Pointer(c))
		c.L.Lock()
	}
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	if !rt.On() {
		c.real().Signal()
		return
	}

	if !rt.Point(unsafe.Pointer(c), 0, rt.KWrite, nil) {
		return
	}

	rt.Release(unsafe.Pointer(c))

	if len(c.wait) > 0 {
		c.wait[0].set = true
		c.wait = c.wait[1:]
	}
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	if !rt.On() {
		c.real().Broadcast()
		return
	}

	if !rt.Point(unsafe.Pointer(c), 0, rt.KWrite, nil) {
		return
	}

	rt.Release(unsafe.Pointer(c))

	for _, s := range c.wait {
		s.set = true
	}

	c.wait = nil
}

// Pool replaces sync.Pool: a deterministic LIFO, the most reuse-happy pool possible.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []*poolItem
}

type poolItem struct{ v any }

// Get takes an item.
//
//go:norace
func (p *Pool) Get() any {
	if !rt.Point(unsafe.Pointer(p), 0, rt.KWrite, nil) {
		return p.New()
	}

	if !rt.On() {
		p.mu.Lock()
		defer p.mu.Unlock()
	}

	if n := len(p.items); n > 0 {
		it := p.items[n-1]
		p.items = p.items[:n-1]
		rt.Acquire(unsafe.Pointer(it))

		return it.v
	}

	if p.New == nil {
		return nil
	}

	return p.New()
}

// Put returns an item.
//
//go:norace
func (p *Pool) Put(v any) {
	if v == nil || !rt.Point(unsafe.Pointer(p), 0, rt.KWrite, nil) {
		return
	}

	if !rt.On() {
		p.mu.Lock()
		defer p.mu.Unlock()
	}

	it := &poolItem{v}
	rt.Release(unsafe.Pointer(it))
	p.items = append(p.items, it)

	if rt.On() {
		rt.After()
	}
}

// Map replaces sync.Map.
type Map struct{ m sync.Map }

func (m *Map) pt(k any, kind rt.Kind) bool {
	sub := uint64(0)
	if k != nil {
		sub = rt.Hash(k)
	}

	return rt.Point(unsafe.Pointer(m), sub, kind, nil)
}

// Load loads.
func (m *Map) Load(key any) (any, bool) {
	m.pt(key, rt.KRead)
	return m.m.Load(key)
}

// Store stores.
func (m *Map) Store(key, value any) {
	m.pt(key, rt.KWrite)
	m.m.Store(key, value)
	rt.After()
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.pt(key, rt.KWrite)
	return m.m.LoadOrStore(key, value)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.pt(key, rt.KWrite)
	return m.m.LoadAndDelete(key)
}

// Delete deletes.
func (m *Map) Delete(key any) {
	m.pt(key, rt.KWrite)
	m.m.Delete(key)
}

// Swap swaps.
func (m *Map) Swap(key, value any) (any, bool) {
	m.pt(key, rt.KWrite)
	return m.m.Swap(key, value)
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.pt(key, rt.KWrite)
	return m.m.CompareAndSwap(key, old, new)
}

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(key, old any) bool {
	m.pt(key, rt.KWrite)
	return m.m.CompareAndDelete(key, old)
}

// Clear clears.
func (m *Map) Clear() {
	m.pt(nil, rt.KWrite)
	m.m.Clear()
}

// Range ranges: one snapshot, ordered by the run.
func (m *Map) Range(f func(key, value any) bool) {
	m.pt(nil, rt.KRead)

	var ks []any

	m.m.Range(func(k, _ any) bool {
		ks = append(ks, k)
		return true
	})

	orderAny(ks)

	for _, k := range ks {
		m.pt(k, rt.KRead)

		v, ok := m.m.Load(k)
		if !ok {
			continue
		}

		if !f(k, v) {
			return
		}
	}
}

func orderAny(ks []any) {
	rt.OrderKeys(ks)
}
