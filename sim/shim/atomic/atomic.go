// Package atomic replaces sync/atomic in the instrumented library: the real
// operations, each preceded by a scheduling point.
package atomic

import (
	ra "sync/atomic"
	"unsafe"

	"verifsim/simrt"
)

// Int32 is atomic.Int32.
type Int32 struct{ v ra.Int32 }

func (x *Int32) Load() int32 {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Int32) Store(n int32)      { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Int32) Swap(n int32) int32 { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Int32) Add(d int32) int32  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Int32) And(d int32) int32  { simrt.Yield(); r := x.v.And(d); simrt.Yield(); return r }
func (x *Int32) Or(d int32) int32   { simrt.Yield(); r := x.v.Or(d); simrt.Yield(); return r }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
func LoadInt32(p *int32) int32 {
	simrt.Yield()
	r := ra.LoadInt32(p)
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func StoreInt32(p *int32, n int32) { simrt.Yield(); ra.StoreInt32(p, n); simrt.Yield() }
func AddInt32(p *int32, d int32) int32 {
	simrt.Yield()
	r := ra.AddInt32(p, d)
	simrt.Yield()
	return r
}
func SwapInt32(p *int32, n int32) int32 {
	simrt.Yield()
	r := ra.SwapInt32(p, n)
	simrt.Yield()
	return r
}
func AndInt32(p *int32, n int32) int32 { simrt.Yield(); return ra.AndInt32(p, n) }
func OrInt32(p *int32, n int32) int32  { simrt.Yield(); return ra.OrInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	simrt.Yield()
	r := ra.CompareAndSwapInt32(p, o, n)
	simrt.Yield()
	return r
}

// Int64 is atomic.Int64.
type Int64 struct{ v ra.Int64 }

func (x *Int64) Load() int64 {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Int64) Store(n int64)      { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Int64) Swap(n int64) int64 { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Int64) Add(d int64) int64  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Int64) And(d int64) int64  { simrt.Yield(); r := x.v.And(d); simrt.Yield(); return r }
func (x *Int64) Or(d int64) int64   { simrt.Yield(); r := x.v.Or(d); simrt.Yield(); return r }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
func LoadInt64(p *int64) int64 {
	simrt.Yield()
	r := ra.LoadInt64(p)
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func StoreInt64(p *int64, n int64) { simrt.Yield(); ra.StoreInt64(p, n); simrt.Yield() }
func AddInt64(p *int64, d int64) int64 {
	simrt.Yield()
	r := ra.AddInt64(p, d)
	simrt.Yield()
	return r
}
func SwapInt64(p *int64, n int64) int64 {
	simrt.Yield()
	r := ra.SwapInt64(p, n)
	simrt.Yield()
	return r
}
func AndInt64(p *int64, n int64) int64 { simrt.Yield(); return ra.AndInt64(p, n) }
func OrInt64(p *int64, n int64) int64  { simrt.Yield(); return ra.OrInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	simrt.Yield()
	r := ra.CompareAndSwapInt64(p, o, n)
	simrt.Yield()
	return r
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v ra.Uint32 }

func (x *Uint32) Load() uint32 {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Uint32) Store(n uint32)       { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Uint32) Swap(n uint32) uint32 { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Uint32) Add(d uint32) uint32  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uint32) And(d uint32) uint32  { simrt.Yield(); r := x.v.And(d); simrt.Yield(); return r }
func (x *Uint32) Or(d uint32) uint32   { simrt.Yield(); r := x.v.Or(d); simrt.Yield(); return r }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
func LoadUint32(p *uint32) uint32 {
	simrt.Yield()
	r := ra.LoadUint32(p)
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func StoreUint32(p *uint32, n uint32) { simrt.Yield(); ra.StoreUint32(p, n); simrt.Yield() }
func AddUint32(p *uint32, d uint32) uint32 {
	simrt.Yield()
	r := ra.AddUint32(p, d)
	simrt.Yield()
	return r
}
func SwapUint32(p *uint32, n uint32) uint32 {
	simrt.Yield()
	r := ra.SwapUint32(p, n)
	simrt.Yield()
	return r
}
func AndUint32(p *uint32, n uint32) uint32 { simrt.Yield(); return ra.AndUint32(p, n) }
func OrUint32(p *uint32, n uint32) uint32  { simrt.Yield(); return ra.OrUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	simrt.Yield()
	r := ra.CompareAndSwapUint32(p, o, n)
	simrt.Yield()
	return r
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v ra.Uint64 }

func (x *Uint64) Load() uint64 {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Uint64) Store(n uint64)       { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Uint64) Swap(n uint64) uint64 { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Uint64) Add(d uint64) uint64  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uint64) And(d uint64) uint64  { simrt.Yield(); r := x.v.And(d); simrt.Yield(); return r }
func (x *Uint64) Or(d uint64) uint64   { simrt.Yield(); r := x.v.Or(d); simrt.Yield(); return r }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
func LoadUint64(p *uint64) uint64 {
	simrt.Yield()
	r := ra.LoadUint64(p)
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func StoreUint64(p *uint64, n uint64) { simrt.Yield(); ra.StoreUint64(p, n); simrt.Yield() }
func AddUint64(p *uint64, d uint64) uint64 {
	simrt.Yield()
	r := ra.AddUint64(p, d)
	simrt.Yield()
	return r
}
func SwapUint64(p *uint64, n uint64) uint64 {
	simrt.Yield()
	r := ra.SwapUint64(p, n)
	simrt.Yield()
	return r
}
func AndUint64(p *uint64, n uint64) uint64 { simrt.Yield(); return ra.AndUint64(p, n) }
func OrUint64(p *uint64, n uint64) uint64  { simrt.Yield(); return ra.OrUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	simrt.Yield()
	r := ra.CompareAndSwapUint64(p, o, n)
	simrt.Yield()
	return r
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v ra.Uintptr }

func (x *Uintptr) Load() uintptr {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Uintptr) Store(n uintptr)        { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Uintptr) Swap(n uintptr) uintptr { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Uintptr) Add(d uintptr) uintptr  { simrt.Yield(); r := x.v.Add(d); simrt.Yield(); return r }
func (x *Uintptr) And(d uintptr) uintptr  { simrt.Yield(); r := x.v.And(d); simrt.Yield(); return r }
func (x *Uintptr) Or(d uintptr) uintptr   { simrt.Yield(); r := x.v.Or(d); simrt.Yield(); return r }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}
func LoadUintptr(p *uintptr) uintptr {
	simrt.Yield()
	r := ra.LoadUintptr(p)
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func StoreUintptr(p *uintptr, n uintptr) { simrt.Yield(); ra.StoreUintptr(p, n); simrt.Yield() }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	simrt.Yield()
	r := ra.AddUintptr(p, d)
	simrt.Yield()
	return r
}
func SwapUintptr(p *uintptr, n uintptr) uintptr {
	simrt.Yield()
	r := ra.SwapUintptr(p, n)
	simrt.Yield()
	return r
}
func AndUintptr(p *uintptr, n uintptr) uintptr { simrt.Yield(); return ra.AndUintptr(p, n) }
func OrUintptr(p *uintptr, n uintptr) uintptr  { simrt.Yield(); return ra.OrUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	simrt.Yield()
	r := ra.CompareAndSwapUintptr(p, o, n)
	simrt.Yield()
	return r
}

// Bool is atomic.Bool.
type Bool struct{ v ra.Bool }

func (x *Bool) Load() bool {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Bool) Store(n bool)     { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Bool) Swap(n bool) bool { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v ra.Pointer[T] }

func (x *Pointer[T]) Load() *T {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Pointer[T]) Store(n *T)   { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Pointer[T]) Swap(n *T) *T { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

// Value is atomic.Value.
type Value struct{ v ra.Value }

func (x *Value) Load() any {
	simrt.Yield()
	r := x.v.Load()
	simrt.StallPoint(simrt.PointLoaded)
	return r
}
func (x *Value) Store(n any)    { simrt.Yield(); x.v.Store(n); simrt.Yield() }
func (x *Value) Swap(n any) any { simrt.Yield(); r := x.v.Swap(n); simrt.Yield(); return r }
func (x *Value) CompareAndSwap(o, n any) bool {
	simrt.Yield()
	r := x.v.CompareAndSwap(o, n)
	simrt.Yield()
	return r
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { simrt.Yield(); return ra.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) {
	simrt.Yield()
	ra.StorePointer(p, n)
	simrt.Yield()
}
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	simrt.Yield()
	r := ra.SwapPointer(p, n)
	simrt.Yield()
	return r
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	simrt.Yield()
	r := ra.CompareAndSwapPointer(p, o, n)
	simrt.Yield()
	return r
}
