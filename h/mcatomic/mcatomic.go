// Package mcatomic stands in for package sync/atomic in instrumented code: every operation is a scheduling point.
package mcatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
)

func point() {
	if mcrt.Active() && !mcrt.Dying() {
		mcrt.Point("atomic")
	}
}

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 { point(); return atomic.AddInt32(p, d) }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { point(); return atomic.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { point(); atomic.StoreInt32(p, v) }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { point(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	point()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// Int32 is an atomic int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { point(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { point(); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { point(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { point(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { point(); return x.v.Add(d) }

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 { point(); return atomic.AddInt64(p, d) }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { point(); return atomic.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { point(); atomic.StoreInt64(p, v) }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { point(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	point()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// Int64 is an atomic int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { point(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { point(); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { point(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { point(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { point(); return x.v.Add(d) }

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 { point(); return atomic.AddUint32(p, d) }

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { point(); return atomic.LoadUint32(p) }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { point(); atomic.StoreUint32(p, v) }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 { point(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	point()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// Uint32 is an atomic uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { point(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { point(); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { point(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { point(); return x.v.Add(d) }

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 { point(); return atomic.AddUint64(p, d) }

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { point(); return atomic.LoadUint64(p) }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { point(); atomic.StoreUint64(p, v) }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 { point(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// Uint64 is an atomic uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { point(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { point(); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { point(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { point(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { point(); return x.v.Add(d) }

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr { point(); return atomic.AddUintptr(p, d) }

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { point(); return atomic.LoadUintptr(p) }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { point(); atomic.StoreUintptr(p, v) }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr { point(); return atomic.SwapUintptr(p, v) }

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// Uintptr is an atomic uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { point(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { point(); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { point(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { point(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { point(); return x.v.Add(d) }

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { point(); return atomic.LoadPointer(p) }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { point(); atomic.StorePointer(p, v) }

// SwapPointer swaps.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	point()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer compares and swaps.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	point()
	return atomic.CompareAndSwapPointer(p, o, n)
}

// Bool is an atomic bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { point(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { point(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { point(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { point(); return x.v.CompareAndSwap(o, n) }

// Value is an atomic value.
type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { point(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { point(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { point(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { point(); return x.v.CompareAndSwap(o, n) }

// Pointer is an atomic pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { point(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { point(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { point(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { point(); return x.v.CompareAndSwap(o, n) }
