# Generates vatomic.go.
out = ['''// Code generated by gen.py; DO NOT EDIT.

// Package vatomic replaces sync/atomic under the controlled scheduler.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

func pt(p unsafe.Pointer, k rt.Kind) { rt.Point(p, 0, k, nil) }
''']
for n, t in [("Int32","int32"),("Int64","int64"),("Uint32","uint32"),("Uint64","uint64"),("Uintptr","uintptr")]:
    out.append(f'''
func Add{n}(p *{t}, d {t}) {t} {{ pt(unsafe.Pointer(p), rt.KWrite); return atomic.Add{n}(p, d) }}
func Add{n}D(p *{t}, d {t}) {{ pt(unsafe.Pointer(p), rt.KAdd); atomic.Add{n}(p, d) }}
func Load{n}(p *{t}) {t} {{ pt(unsafe.Pointer(p), rt.KRead); return atomic.Load{n}(p) }}
func Store{n}(p *{t}, v {t}) {{ pt(unsafe.Pointer(p), rt.KWrite); atomic.Store{n}(p, v) }}
func Swap{n}(p *{t}, v {t}) {t} {{ pt(unsafe.Pointer(p), rt.KWrite); return atomic.Swap{n}(p, v) }}
func CompareAndSwap{n}(p *{t}, o, v {t}) bool {{ pt(unsafe.Pointer(p), rt.KWrite); return atomic.CompareAndSwap{n}(p, o, v) }}

// {n} replaces atomic.{n}.
type {n} struct{{ v atomic.{n} }}

func (x *{n}) Load() {t} {{ pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }}
func (x *{n}) Store(v {t}) {{ pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }}
func (x *{n}) Add(d {t}) {t} {{ pt(unsafe.Pointer(x), rt.KWrite); return x.v.Add(d) }}
func (x *{n}) AddD(d {t}) {{ pt(unsafe.Pointer(x), rt.KAdd); x.v.Add(d) }}
func (x *{n}) Swap(v {t}) {t} {{ pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }}
func (x *{n}) CompareAndSwap(o, v {t}) bool {{ pt(unsafe.Pointer(x), rt.KWrite); return x.v.CompareAndSwap(o, v) }}
''')
out.append('''
// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Bool) Store(v bool) { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { pt(unsafe.Pointer(x), rt.KWrite); return x.v.CompareAndSwap(o, v) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Pointer[T]) Store(v *T) { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { pt(unsafe.Pointer(x), rt.KWrite); return x.v.CompareAndSwap(o, v) }

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any { pt(unsafe.Pointer(x), rt.KRead); return x.v.Load() }
func (x *Value) Store(v any) { pt(unsafe.Pointer(x), rt.KWrite); x.v.Store(v) }
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x), rt.KWrite); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { pt(unsafe.Pointer(x), rt.KWrite); return x.v.CompareAndSwap(o, v) }
''')
open('vatomic.go','w').write('\n'.join(out))
