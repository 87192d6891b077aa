// Package vatomic stands in for package sync/atomic in the instrumented
// library: the same operations with scheduling points around them.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifsim/rt"
)

func y() { rt.Y(-20) }

func AddInt32(p *int32, d int32) int32  { y(); v := atomic.AddInt32(p, d); y(); return v }
func LoadInt32(p *int32) int32          { y(); v := atomic.LoadInt32(p); y(); return v }
func StoreInt32(p *int32, v int32)      { y(); atomic.StoreInt32(p, v); y() }
func SwapInt32(p *int32, v int32) int32 { y(); o := atomic.SwapInt32(p, v); y(); return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y()
	r := atomic.CompareAndSwapInt32(p, o, n)
	y()
	return r
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func AddInt64(p *int64, d int64) int64  { y(); v := atomic.AddInt64(p, d); y(); return v }
func LoadInt64(p *int64) int64          { y(); v := atomic.LoadInt64(p); y(); return v }
func StoreInt64(p *int64, v int64)      { y(); atomic.StoreInt64(p, v); y() }
func SwapInt64(p *int64, v int64) int64 { y(); o := atomic.SwapInt64(p, v); y(); return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y()
	r := atomic.CompareAndSwapInt64(p, o, n)
	y()
	return r
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func AddUint32(p *uint32, d uint32) uint32  { y(); v := atomic.AddUint32(p, d); y(); return v }
func LoadUint32(p *uint32) uint32           { y(); v := atomic.LoadUint32(p); y(); return v }
func StoreUint32(p *uint32, v uint32)       { y(); atomic.StoreUint32(p, v); y() }
func SwapUint32(p *uint32, v uint32) uint32 { y(); o := atomic.SwapUint32(p, v); y(); return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y()
	r := atomic.CompareAndSwapUint32(p, o, n)
	y()
	return r
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func AddUint64(p *uint64, d uint64) uint64  { y(); v := atomic.AddUint64(p, d); y(); return v }
func LoadUint64(p *uint64) uint64           { y(); v := atomic.LoadUint64(p); y(); return v }
func StoreUint64(p *uint64, v uint64)       { y(); atomic.StoreUint64(p, v); y() }
func SwapUint64(p *uint64, v uint64) uint64 { y(); o := atomic.SwapUint64(p, v); y(); return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y()
	r := atomic.CompareAndSwapUint64(p, o, n)
	y()
	return r
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { y(); v := atomic.AddUintptr(p, d); y(); return v }
func LoadUintptr(p *uintptr) uintptr            { y(); v := atomic.LoadUintptr(p); y(); return v }
func StoreUintptr(p *uintptr, v uintptr)        { y(); atomic.StoreUintptr(p, v); y() }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y(); o := atomic.SwapUintptr(p, v); y(); return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y()
	r := atomic.CompareAndSwapUintptr(p, o, n)
	y()
	return r
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { y(); v := atomic.LoadPointer(p); y(); return v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { y(); atomic.StorePointer(p, v); y() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	o := atomic.SwapPointer(p, v)
	y()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y()
	r := atomic.CompareAndSwapPointer(p, o, n)
	y()
	return r
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { y(); v := x.v.Load(); y(); return v }
func (x *Bool) Store(v bool)                  { y(); x.v.Store(v); y() }
func (x *Bool) Swap(v bool) bool              { y(); o := x.v.Swap(v); y(); return o }
func (x *Bool) CompareAndSwap(o, n bool) bool { y(); r := x.v.CompareAndSwap(o, n); y(); return r }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { y(); v := x.v.Load(); y(); return v }
func (x *Pointer[T]) Store(v *T)                  { y(); x.v.Store(v); y() }
func (x *Pointer[T]) Swap(v *T) *T                { y(); o := x.v.Swap(v); y(); return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { y(); r := x.v.CompareAndSwap(o, n); y(); return r }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); v := x.v.Load(); y(); return v }
func (x *Value) Store(v any)                  { y(); x.v.Store(v); y() }
func (x *Value) Swap(v any) any               { y(); o := x.v.Swap(v); y(); return o }
func (x *Value) CompareAndSwap(o, n any) bool { y(); r := x.v.CompareAndSwap(o, n); y(); return r }
