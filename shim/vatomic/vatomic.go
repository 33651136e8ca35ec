// Package vatomic stands in for sync/atomic: a scheduling point before every
// operation, which is then performed by the real package (race annotations
// included).
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/jimsnab/kafka-mock-go/internal/zzverif/vs"
)

func pt(p unsafe.Pointer) { vs.Point(vs.KAtomic, uintptr(p), 2) }

type Bool struct{ v atomic.Bool }

func (b *Bool) Load() bool                    { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Bool) Store(x bool)                  { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Bool) Swap(x bool) bool              { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Bool) CompareAndSwap(o, n bool) bool { pt(unsafe.Pointer(b)); return b.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (b *Value) Load() any                    { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Value) Store(x any)                  { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Value) Swap(x any) any               { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Value) CompareAndSwap(o, n any) bool { pt(unsafe.Pointer(b)); return b.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (b *Pointer[T]) Load() *T     { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Pointer[T]) Store(x *T)   { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Pointer[T]) Swap(x *T) *T { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

type Int32 struct{ v atomic.Int32 }

func (b *Int32) Load() int32        { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Int32) Store(x int32)      { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Int32) Swap(x int32) int32 { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Int32) Add(x int32) int32  { pt(unsafe.Pointer(b)); return b.v.Add(x) }
func (b *Int32) And(x int32) int32  { pt(unsafe.Pointer(b)); return b.v.And(x) }
func (b *Int32) Or(x int32) int32   { pt(unsafe.Pointer(b)); return b.v.Or(x) }
func (b *Int32) CompareAndSwap(o, n int32) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

func LoadInt32(p *int32) int32          { pt(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { pt(unsafe.Pointer(p)); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { pt(unsafe.Pointer(p)); return atomic.SwapInt32(p, x) }
func AddInt32(p *int32, x int32) int32  { pt(unsafe.Pointer(p)); return atomic.AddInt32(p, x) }
func AndInt32(p *int32, x int32) int32  { pt(unsafe.Pointer(p)); return atomic.AndInt32(p, x) }
func OrInt32(p *int32, x int32) int32   { pt(unsafe.Pointer(p)); return atomic.OrInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (b *Int64) Load() int64        { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Int64) Store(x int64)      { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Int64) Swap(x int64) int64 { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Int64) Add(x int64) int64  { pt(unsafe.Pointer(b)); return b.v.Add(x) }
func (b *Int64) And(x int64) int64  { pt(unsafe.Pointer(b)); return b.v.And(x) }
func (b *Int64) Or(x int64) int64   { pt(unsafe.Pointer(b)); return b.v.Or(x) }
func (b *Int64) CompareAndSwap(o, n int64) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

func LoadInt64(p *int64) int64          { pt(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { pt(unsafe.Pointer(p)); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { pt(unsafe.Pointer(p)); return atomic.SwapInt64(p, x) }
func AddInt64(p *int64, x int64) int64  { pt(unsafe.Pointer(p)); return atomic.AddInt64(p, x) }
func AndInt64(p *int64, x int64) int64  { pt(unsafe.Pointer(p)); return atomic.AndInt64(p, x) }
func OrInt64(p *int64, x int64) int64   { pt(unsafe.Pointer(p)); return atomic.OrInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (b *Uint32) Load() uint32         { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Uint32) Store(x uint32)       { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Uint32) Swap(x uint32) uint32 { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Uint32) Add(x uint32) uint32  { pt(unsafe.Pointer(b)); return b.v.Add(x) }
func (b *Uint32) And(x uint32) uint32  { pt(unsafe.Pointer(b)); return b.v.And(x) }
func (b *Uint32) Or(x uint32) uint32   { pt(unsafe.Pointer(b)); return b.v.Or(x) }
func (b *Uint32) CompareAndSwap(o, n uint32) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

func LoadUint32(p *uint32) uint32           { pt(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { pt(unsafe.Pointer(p)); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { pt(unsafe.Pointer(p)); return atomic.SwapUint32(p, x) }
func AddUint32(p *uint32, x uint32) uint32  { pt(unsafe.Pointer(p)); return atomic.AddUint32(p, x) }
func AndUint32(p *uint32, x uint32) uint32  { pt(unsafe.Pointer(p)); return atomic.AndUint32(p, x) }
func OrUint32(p *uint32, x uint32) uint32   { pt(unsafe.Pointer(p)); return atomic.OrUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (b *Uint64) Load() uint64         { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Uint64) Store(x uint64)       { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Uint64) Swap(x uint64) uint64 { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Uint64) Add(x uint64) uint64  { pt(unsafe.Pointer(b)); return b.v.Add(x) }
func (b *Uint64) And(x uint64) uint64  { pt(unsafe.Pointer(b)); return b.v.And(x) }
func (b *Uint64) Or(x uint64) uint64   { pt(unsafe.Pointer(b)); return b.v.Or(x) }
func (b *Uint64) CompareAndSwap(o, n uint64) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

func LoadUint64(p *uint64) uint64           { pt(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { pt(unsafe.Pointer(p)); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { pt(unsafe.Pointer(p)); return atomic.SwapUint64(p, x) }
func AddUint64(p *uint64, x uint64) uint64  { pt(unsafe.Pointer(p)); return atomic.AddUint64(p, x) }
func AndUint64(p *uint64, x uint64) uint64  { pt(unsafe.Pointer(p)); return atomic.AndUint64(p, x) }
func OrUint64(p *uint64, x uint64) uint64   { pt(unsafe.Pointer(p)); return atomic.OrUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (b *Uintptr) Load() uintptr          { pt(unsafe.Pointer(b)); return b.v.Load() }
func (b *Uintptr) Store(x uintptr)        { pt(unsafe.Pointer(b)); b.v.Store(x) }
func (b *Uintptr) Swap(x uintptr) uintptr { pt(unsafe.Pointer(b)); return b.v.Swap(x) }
func (b *Uintptr) Add(x uintptr) uintptr  { pt(unsafe.Pointer(b)); return b.v.Add(x) }
func (b *Uintptr) And(x uintptr) uintptr  { pt(unsafe.Pointer(b)); return b.v.And(x) }
func (b *Uintptr) Or(x uintptr) uintptr   { pt(unsafe.Pointer(b)); return b.v.Or(x) }
func (b *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt(unsafe.Pointer(b))
	return b.v.CompareAndSwap(o, n)
}

func LoadUintptr(p *uintptr) uintptr     { pt(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr) { pt(unsafe.Pointer(p)); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	pt(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, x)
}
func AddUintptr(p *uintptr, x uintptr) uintptr { pt(unsafe.Pointer(p)); return atomic.AddUintptr(p, x) }
func AndUintptr(p *uintptr, x uintptr) uintptr { pt(unsafe.Pointer(p)); return atomic.AndUintptr(p, x) }
func OrUintptr(p *uintptr, x uintptr) uintptr  { pt(unsafe.Pointer(p)); return atomic.OrUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) {
	pt(unsafe.Pointer(p))
	atomic.StorePointer(p, x)
}
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	return atomic.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}
