// Package vatomic replaces sync/atomic in instrumented code. It stays race instrumented:
// the detector sees the real atomic operations.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verifmc/rt"
)

func pt(s string) { rt.Point(s, nil) }

func LoadInt32(p *int32) int32          { pt("atomic.Load"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pt("atomic.Store"); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { pt("atomic.Add"); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { pt("atomic.Swap"); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AndInt32(p *int32, m int32) int32 { pt("atomic.And"); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { pt("atomic.Or"); return atomic.OrInt32(p, m) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pt("atomic.Load"); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { pt("atomic.Add"); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }
func (x *Int32) And(m int32) int32              { pt("atomic.And"); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { pt("atomic.Or"); return x.v.Or(m) }

func LoadInt64(p *int64) int64          { pt("atomic.Load"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pt("atomic.Store"); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { pt("atomic.Add"); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { pt("atomic.Swap"); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AndInt64(p *int64, m int64) int64 { pt("atomic.And"); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { pt("atomic.Or"); return atomic.OrInt64(p, m) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt("atomic.Load"); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { pt("atomic.Add"); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }
func (x *Int64) And(m int64) int64              { pt("atomic.And"); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { pt("atomic.Or"); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { pt("atomic.Load"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt("atomic.Store"); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { pt("atomic.Add"); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { pt("atomic.Swap"); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AndUint32(p *uint32, m uint32) uint32 { pt("atomic.And"); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { pt("atomic.Or"); return atomic.OrUint32(p, m) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt("atomic.Load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { pt("atomic.Add"); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) And(m uint32) uint32             { pt("atomic.And"); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { pt("atomic.Or"); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { pt("atomic.Load"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt("atomic.Store"); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { pt("atomic.Add"); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { pt("atomic.Swap"); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AndUint64(p *uint64, m uint64) uint64 { pt("atomic.And"); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { pt("atomic.Or"); return atomic.OrUint64(p, m) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt("atomic.Load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { pt("atomic.Add"); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) And(m uint64) uint64             { pt("atomic.And"); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { pt("atomic.Or"); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { pt("atomic.Load"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt("atomic.Store"); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt("atomic.Add"); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt("atomic.Swap"); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { pt("atomic.And"); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { pt("atomic.Or"); return atomic.OrUintptr(p, m) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr          { pt("atomic.Load"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { pt("atomic.Store"); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { pt("atomic.Add"); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	pt("atomic.CAS")
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) And(m uintptr) uintptr { pt("atomic.And"); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr  { pt("atomic.Or"); return x.v.Or(m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt("atomic.Load"); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt("atomic.Store"); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt("atomic.Swap")
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt("atomic.CAS")
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { pt("atomic.Load"); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { pt("atomic.Load"); return x.v.Load() }
func (x *Value) Store(v any)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt("atomic.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pt("atomic.Store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pt("atomic.Swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt("atomic.CAS"); return x.v.CompareAndSwap(o, n) }
