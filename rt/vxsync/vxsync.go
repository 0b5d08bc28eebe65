// Package vxsync replaces the concurrent map of puzpuzpuz/xsync under the controlled scheduler.
package vxsync

import (
	"unsafe"

	"github.com/puzpuzpuz/xsync/v3"
	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// MapOf replaces xsync.MapOf.
type MapOf[K comparable, V any] struct {
	m *xsync.MapOf[K, V]
}

// NewMapOf makes a map.
func NewMapOf[K comparable, V any](_ ...func(*xsync.MapConfig)) *MapOf[K, V] {
	return &MapOf[K, V]{m: xsync.NewMapOf[K, V]()}
}

// NewMapOfPresized makes a map.
func NewMapOfPresized[K comparable, V any](_ int) *MapOf[K, V] {
	return NewMapOf[K, V]()
}

func (m *MapOf[K, V]) pt(k K, kind rt.Kind) {
	if rt.On() {
		rt.Point(unsafe.Pointer(m), rt.Hash(any(k)), kind, nil)
	}
}

func (m *MapOf[K, V]) all(kind rt.Kind) {
	rt.Point(unsafe.Pointer(m), 0, kind, nil)
}

// Load loads.
func (m *MapOf[K, V]) Load(k K) (V, bool) {
	m.pt(k, rt.KRead)
	return m.m.Load(k)
}

// Store stores.
func (m *MapOf[K, V]) Store(k K, v V) {
	m.pt(k, rt.KWrite)
	m.m.Store(k, v)
	rt.After()
}

// LoadOrStore loads or stores.
func (m *MapOf[K, V]) LoadOrStore(k K, v V) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.LoadOrStore(k, v)
}

// LoadAndStore swaps.
func (m *MapOf[K, V]) LoadAndStore(k K, v V) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.LoadAndStore(k, v)
}

// LoadOrCompute loads or computes.
func (m *MapOf[K, V]) LoadOrCompute(k K, f func() V) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.LoadOrCompute(k, f)
}

// LoadOrTryCompute loads or computes.
func (m *MapOf[K, V]) LoadOrTryCompute(k K, f func() (V, bool)) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.LoadOrTryCompute(k, f)
}

// Compute computes.
func (m *MapOf[K, V]) Compute(k K, f func(V, bool) (V, bool)) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.Compute(k, f)
}

// LoadAndDelete deletes.
func (m *MapOf[K, V]) LoadAndDelete(k K) (V, bool) {
	m.pt(k, rt.KWrite)
	return m.m.LoadAndDelete(k)
}

// Delete deletes.
func (m *MapOf[K, V]) Delete(k K) {
	m.pt(k, rt.KWrite)
	m.m.Delete(k)
}

// Clear clears.
func (m *MapOf[K, V]) Clear() {
	m.all(rt.KWrite)
	m.m.Clear()
}

// Size counts.
func (m *MapOf[K, V]) Size() int {
	m.all(rt.KRead)
	return m.m.Size()
}

// Range ranges: a snapshot of keys, in an order the run decides.
func (m *MapOf[K, V]) Range(f func(K, V) bool) {
	m.all(rt.KRead)

	ks := make([]K, 0, 16)

	m.m.Range(func(k K, _ V) bool {
		ks = append(ks, k)
		return true
	})

	rt.OrderKeys(ks)

	for _, k := range ks {
		v, ok := m.m.Load(k)
		if !ok {
			continue
		}

		if !f(k, v) {
			return
		}
	}
}
