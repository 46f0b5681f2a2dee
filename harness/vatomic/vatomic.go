// Package vatomic has the API of package sync/atomic with a scheduling point before every operation, and after every one that may
// publish something.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/h/sched"
)

func pt() {
	if t := sched.Current(); t != nil {
		t.Point()
	}
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32        { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)      { pt(); defer pt(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { pt(); defer pt(); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32  { pt(); defer pt(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32  { pt(); defer pt(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32   { pt(); defer pt(); return x.v.Or(m) }
func (x *Int32) CompareAndSwap(old, new int32) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadInt32(p *int32) int32          { pt(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pt(); defer pt(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pt(); defer pt(); return atomic.SwapInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { pt(); defer pt(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32  { pt(); defer pt(); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32   { pt(); defer pt(); return atomic.OrInt32(p, d) }
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapInt32(p, old, new)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64        { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)      { pt(); defer pt(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { pt(); defer pt(); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64  { pt(); defer pt(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64  { pt(); defer pt(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64   { pt(); defer pt(); return x.v.Or(m) }
func (x *Int64) CompareAndSwap(old, new int64) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadInt64(p *int64) int64          { pt(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pt(); defer pt(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pt(); defer pt(); return atomic.SwapInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { pt(); defer pt(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64  { pt(); defer pt(); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64   { pt(); defer pt(); return atomic.OrInt64(p, d) }
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapInt64(p, old, new)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32         { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { pt(); defer pt(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { pt(); defer pt(); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32  { pt(); defer pt(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32  { pt(); defer pt(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32   { pt(); defer pt(); return x.v.Or(m) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadUint32(p *uint32) uint32           { pt(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); defer pt(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); defer pt(); return atomic.SwapUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { pt(); defer pt(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32  { pt(); defer pt(); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32   { pt(); defer pt(); return atomic.OrUint32(p, d) }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapUint32(p, old, new)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64         { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { pt(); defer pt(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { pt(); defer pt(); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64  { pt(); defer pt(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64  { pt(); defer pt(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64   { pt(); defer pt(); return x.v.Or(m) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadUint64(p *uint64) uint64           { pt(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); defer pt(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); defer pt(); return atomic.SwapUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { pt(); defer pt(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64  { pt(); defer pt(); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64   { pt(); defer pt(); return atomic.OrUint64(p, d) }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapUint64(p, old, new)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pt(); defer pt(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { pt(); defer pt(); return x.v.Swap(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { pt(); defer pt(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr  { pt(); defer pt(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr   { pt(); defer pt(); return x.v.Or(m) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadUintptr(p *uintptr) uintptr            { pt(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); defer pt(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); defer pt(); return atomic.SwapUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(); defer pt(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr  { pt(); defer pt(); return atomic.AndUintptr(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr   { pt(); defer pt(); return atomic.OrUintptr(p, d) }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapUintptr(p, old, new)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool       { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)     { pt(); defer pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { pt(); defer pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(old, new bool) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { pt(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { pt(); defer pt(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { pt(); defer pt(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any      { pt(); return x.v.Load() }
func (x *Value) Store(v any)    { pt(); defer pt(); x.v.Store(v) }
func (x *Value) Swap(v any) any { pt(); defer pt(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(old, new any) bool {
	pt()
	defer pt()
	return x.v.CompareAndSwap(old, new)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); defer pt(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	defer pt()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	pt()
	defer pt()
	return atomic.CompareAndSwapPointer(p, old, new)
}
