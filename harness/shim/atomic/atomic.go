//go:build go1.21

// Package atomic is sync/atomic with a scheduling point before every operation.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/VolantMQ/vlapi/zzverif/shim/sched"
)

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { sched.Yield(); return x.v.Load() }
func (x *Value) Store(v any)                  { sched.Yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { sched.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { sched.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { sched.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { sched.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { sched.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { sched.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { sched.Yield(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { sched.Yield(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sched.Yield()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	sched.Yield()
	return atomic.CompareAndSwapPointer(a, o, n)
}

func LoadInt32(a *int32) int32          { sched.Yield(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)      { sched.Yield(); atomic.StoreInt32(a, v) }
func AddInt32(a *int32, v int32) int32  { sched.Yield(); return atomic.AddInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { sched.Yield(); return atomic.SwapInt32(a, v) }
func AndInt32(a *int32, v int32) int32  { sched.Yield(); return atomic.AndInt32(a, v) }
func OrInt32(a *int32, v int32) int32   { sched.Yield(); return atomic.OrInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt32(a, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { sched.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { sched.Yield(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { sched.Yield(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { sched.Yield(); return x.v.Swap(v) }
func (x *Int32) And(v int32) int32              { sched.Yield(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { sched.Yield(); return x.v.Or(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(a *int64) int64          { sched.Yield(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)      { sched.Yield(); atomic.StoreInt64(a, v) }
func AddInt64(a *int64, v int64) int64  { sched.Yield(); return atomic.AddInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { sched.Yield(); return atomic.SwapInt64(a, v) }
func AndInt64(a *int64, v int64) int64  { sched.Yield(); return atomic.AndInt64(a, v) }
func OrInt64(a *int64, v int64) int64   { sched.Yield(); return atomic.OrInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	sched.Yield()
	return atomic.CompareAndSwapInt64(a, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { sched.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { sched.Yield(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { sched.Yield(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { sched.Yield(); return x.v.Swap(v) }
func (x *Int64) And(v int64) int64              { sched.Yield(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { sched.Yield(); return x.v.Or(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(a *uint32) uint32           { sched.Yield(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { sched.Yield(); atomic.StoreUint32(a, v) }
func AddUint32(a *uint32, v uint32) uint32  { sched.Yield(); return atomic.AddUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { sched.Yield(); return atomic.SwapUint32(a, v) }
func AndUint32(a *uint32, v uint32) uint32  { sched.Yield(); return atomic.AndUint32(a, v) }
func OrUint32(a *uint32, v uint32) uint32   { sched.Yield(); return atomic.OrUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint32(a, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { sched.Yield(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { sched.Yield(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { sched.Yield(); return x.v.Swap(v) }
func (x *Uint32) And(v uint32) uint32             { sched.Yield(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { sched.Yield(); return x.v.Or(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(a *uint64) uint64           { sched.Yield(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { sched.Yield(); atomic.StoreUint64(a, v) }
func AddUint64(a *uint64, v uint64) uint64  { sched.Yield(); return atomic.AddUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { sched.Yield(); return atomic.SwapUint64(a, v) }
func AndUint64(a *uint64, v uint64) uint64  { sched.Yield(); return atomic.AndUint64(a, v) }
func OrUint64(a *uint64, v uint64) uint64   { sched.Yield(); return atomic.OrUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	sched.Yield()
	return atomic.CompareAndSwapUint64(a, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { sched.Yield(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { sched.Yield(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { sched.Yield(); return x.v.Swap(v) }
func (x *Uint64) And(v uint64) uint64             { sched.Yield(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { sched.Yield(); return x.v.Or(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(a *uintptr) uintptr            { sched.Yield(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { sched.Yield(); atomic.StoreUintptr(a, v) }
func AddUintptr(a *uintptr, v uintptr) uintptr  { sched.Yield(); return atomic.AddUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { sched.Yield(); return atomic.SwapUintptr(a, v) }
func AndUintptr(a *uintptr, v uintptr) uintptr  { sched.Yield(); return atomic.AndUintptr(a, v) }
func OrUintptr(a *uintptr, v uintptr) uintptr   { sched.Yield(); return atomic.OrUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	sched.Yield()
	return atomic.CompareAndSwapUintptr(a, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { sched.Yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { sched.Yield(); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { sched.Yield(); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { sched.Yield(); return x.v.Swap(v) }
func (x *Uintptr) And(v uintptr) uintptr            { sched.Yield(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { sched.Yield(); return x.v.Or(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { sched.Yield(); return x.v.CompareAndSwap(o, n) }
