// Package vatomic replaces package sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/vsched"
)

var o vsched.Obj

func pt() {
	if vsched.Active() {
		o.Point()
	}
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32                    { pt(); return a.v.Load() }
func (a *Int32) Store(v int32)                  { pt(); a.v.Store(v) }
func (a *Int32) Add(v int32) int32              { pt(); return a.v.Add(v) }
func (a *Int32) Swap(v int32) int32             { pt(); return a.v.Swap(v) }
func (a *Int32) And(v int32) int32              { pt(); return a.v.And(v) }
func (a *Int32) Or(v int32) int32               { pt(); return a.v.Or(v) }
func (a *Int32) CompareAndSwap(x, y int32) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadInt32(p *int32) int32                      { pt(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32              { pt(); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, x, y int32) bool { pt(); return atomic.CompareAndSwapInt32(p, x, y) }

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64                    { pt(); return a.v.Load() }
func (a *Int64) Store(v int64)                  { pt(); a.v.Store(v) }
func (a *Int64) Add(v int64) int64              { pt(); return a.v.Add(v) }
func (a *Int64) Swap(v int64) int64             { pt(); return a.v.Swap(v) }
func (a *Int64) And(v int64) int64              { pt(); return a.v.And(v) }
func (a *Int64) Or(v int64) int64               { pt(); return a.v.Or(v) }
func (a *Int64) CompareAndSwap(x, y int64) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadInt64(p *int64) int64                      { pt(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64              { pt(); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, x, y int64) bool { pt(); return atomic.CompareAndSwapInt64(p, x, y) }

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32                    { pt(); return a.v.Load() }
func (a *Uint32) Store(v uint32)                  { pt(); a.v.Store(v) }
func (a *Uint32) Add(v uint32) uint32             { pt(); return a.v.Add(v) }
func (a *Uint32) Swap(v uint32) uint32            { pt(); return a.v.Swap(v) }
func (a *Uint32) And(v uint32) uint32             { pt(); return a.v.And(v) }
func (a *Uint32) Or(v uint32) uint32              { pt(); return a.v.Or(v) }
func (a *Uint32) CompareAndSwap(x, y uint32) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadUint32(p *uint32) uint32           { pt(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { pt(); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, x, y uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(p, x, y)
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64                    { pt(); return a.v.Load() }
func (a *Uint64) Store(v uint64)                  { pt(); a.v.Store(v) }
func (a *Uint64) Add(v uint64) uint64             { pt(); return a.v.Add(v) }
func (a *Uint64) Swap(v uint64) uint64            { pt(); return a.v.Swap(v) }
func (a *Uint64) And(v uint64) uint64             { pt(); return a.v.And(v) }
func (a *Uint64) Or(v uint64) uint64              { pt(); return a.v.Or(v) }
func (a *Uint64) CompareAndSwap(x, y uint64) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadUint64(p *uint64) uint64           { pt(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { pt(); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, x, y uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(p, x, y)
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr                    { pt(); return a.v.Load() }
func (a *Uintptr) Store(v uintptr)                  { pt(); a.v.Store(v) }
func (a *Uintptr) Add(v uintptr) uintptr            { pt(); return a.v.Add(v) }
func (a *Uintptr) Swap(v uintptr) uintptr           { pt(); return a.v.Swap(v) }
func (a *Uintptr) And(v uintptr) uintptr            { pt(); return a.v.And(v) }
func (a *Uintptr) Or(v uintptr) uintptr             { pt(); return a.v.Or(v) }
func (a *Uintptr) CompareAndSwap(x, y uintptr) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { pt(); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, x, y uintptr) bool {
	pt()
	return atomic.CompareAndSwapUintptr(p, x, y)
}

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool                    { pt(); return a.v.Load() }
func (a *Bool) Store(v bool)                  { pt(); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool              { pt(); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(x, y bool) bool { pt(); return a.v.CompareAndSwap(x, y) }

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (a *Value) Load() any                    { pt(); return a.v.Load() }
func (a *Value) Store(v any)                  { pt(); a.v.Store(v) }
func (a *Value) Swap(v any) any               { pt(); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(x, y any) bool { pt(); return a.v.CompareAndSwap(x, y) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T                    { pt(); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)                  { pt(); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T                { pt(); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(x, y *T) bool { pt(); return a.v.CompareAndSwap(x, y) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); atomic.StorePointer(p, v) }
