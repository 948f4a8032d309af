// Package simatomic replaces sync/atomic: each operation is a yield point and a
// happens-before edge.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verifsim/rt"
)

func edge(p unsafe.Pointer) {
	rt.Y(-40)
	rt.Acquire(p)
	rt.Release(p)
}

func LoadInt32(p *int32) int32          { edge(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { edge(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { edge(unsafe.Pointer(p)); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { edge(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int32) Store(v int32)      { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int32) Add(v int32) int32  { edge(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32 { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { edge(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { edge(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { edge(unsafe.Pointer(p)); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { edge(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Int64) Store(v int64)      { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Int64) Add(v int64) int64  { edge(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64 { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { edge(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { edge(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { edge(unsafe.Pointer(p)); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { edge(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32  { edge(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32 { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { edge(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { edge(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { edge(unsafe.Pointer(p)); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { edge(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64  { edge(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64 { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr     { edge(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { edge(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr {
	edge(unsafe.Pointer(p))
	return atomic.AddUintptr(p, v)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	edge(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr  { edge(unsafe.Pointer(x)); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	edge(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	edge(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	edge(unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	edge(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Bool) Store(v bool)     { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}              { edge(unsafe.Pointer(x)); return x.v.Load() }
func (x *Value) Store(v interface{})            { edge(unsafe.Pointer(x)); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { edge(unsafe.Pointer(x)); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	edge(unsafe.Pointer(x))
	return x.v.CompareAndSwap(o, n)
}
