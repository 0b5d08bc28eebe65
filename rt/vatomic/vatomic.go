// Code generated by gen.py; DO NOT EDIT.

// Package vatomic replaces sync/atomic under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

func pt(p unsafe.Pointer, k rt.Kind) { rt.Point(p, 0, k, nil) }

func AddInt32(p *int32, d int32) int32 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.AddInt32(p, d)
}
func AddInt32D(p *int32, d int32)  { pt(unsafe.Pointer(p), rt.KAdd); atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32     { pt(unsafe.Pointer(p), rt.KRead); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { pt(unsafe.Pointer(p), rt.KWrite); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.SwapInt32(p, v)
}
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.CompareAndSwapInt32(p, o, v)
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Int32) Store(v int32)      { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Int32) Add(d int32) int32  { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }
func (x *Int32) AddD(d int32)       { pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }
func (x *Int32) Swap(v int32) int32 { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

func AddInt64(p *int64, d int64) int64 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.AddInt64(p, d)
}
func AddInt64D(p *int64, d int64)  { pt(unsafe.Pointer(p), rt.KAdd); atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64     { pt(unsafe.Pointer(p), rt.KRead); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { pt(unsafe.Pointer(p), rt.KWrite); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.SwapInt64(p, v)
}
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.CompareAndSwapInt64(p, o, v)
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Int64) Store(v int64)      { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Int64) Add(d int64) int64  { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }
func (x *Int64) AddD(d int64)       { pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }
func (x *Int64) Swap(v int64) int64 { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

func AddUint32(p *uint32, d uint32) uint32 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.AddUint32(p, d)
}
func AddUint32D(p *uint32, d uint32)  { pt(unsafe.Pointer(p), rt.KAdd); atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32     { pt(unsafe.Pointer(p), rt.KRead); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { pt(unsafe.Pointer(p), rt.KWrite); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.SwapUint32(p, v)
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.CompareAndSwapUint32(p, o, v)
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32  { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }
func (x *Uint32) AddD(d uint32)        { pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32 { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

func AddUint64(p *uint64, d uint64) uint64 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.AddUint64(p, d)
}
func AddUint64D(p *uint64, d uint64)  { pt(unsafe.Pointer(p), rt.KAdd); atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64     { pt(unsafe.Pointer(p), rt.KRead); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { pt(unsafe.Pointer(p), rt.KWrite); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.SwapUint64(p, v)
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.CompareAndSwapUint64(p, o, v)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64  { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }
func (x *Uint64) AddD(d uint64)        { pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64 { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.AddUintptr(p, d)
}
func AddUintptrD(p *uintptr, d uintptr)  { pt(unsafe.Pointer(p), rt.KAdd); atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr     { pt(unsafe.Pointer(p), rt.KRead); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p), rt.KWrite); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	pt(unsafe.Pointer(p), rt.KWrite)
	return atomic.CompareAndSwapUintptr(p, o, v)
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }
func (x *Uintptr) AddD(d uintptr)         { pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Bool) Store(v bool)     { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any      { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Value) Store(v any)    { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool {
	pt(unsafe.Pointer(x), rt.KWrite)
	return x.v.CompareAndSwap(o, v)
}
