// Package xatomic replaces sync/atomic inside the simulator.
package xatomic

import (
	"unsafe"

	"verifsim/simrt"
)

func sp() {
	if s := simrt.Enter(); s != nil {
		s.SyncPoint("atomic")
	}
}

func LoadInt32(p *int32) int32          { sp(); return *p }
func StoreInt32(p *int32, v int32)      { sp(); *p = v; sp() }
func AddInt32(p *int32, d int32) int32  { sp(); *p += d; v := *p; sp(); return v }
func SwapInt32(p *int32, v int32) int32 { sp(); o := *p; *p = v; sp(); return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func LoadInt64(p *int64) int64          { sp(); return *p }
func StoreInt64(p *int64, v int64)      { sp(); *p = v; sp() }
func AddInt64(p *int64, d int64) int64  { sp(); *p += d; v := *p; sp(); return v }
func SwapInt64(p *int64, v int64) int64 { sp(); o := *p; *p = v; sp(); return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func LoadUint32(p *uint32) uint32           { sp(); return *p }
func StoreUint32(p *uint32, v uint32)       { sp(); *p = v; sp() }
func AddUint32(p *uint32, d uint32) uint32  { sp(); *p += d; v := *p; sp(); return v }
func SwapUint32(p *uint32, v uint32) uint32 { sp(); o := *p; *p = v; sp(); return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func LoadUint64(p *uint64) uint64           { sp(); return *p }
func StoreUint64(p *uint64, v uint64)       { sp(); *p = v; sp() }
func AddUint64(p *uint64, d uint64) uint64  { sp(); *p += d; v := *p; sp(); return v }
func SwapUint64(p *uint64, v uint64) uint64 { sp(); o := *p; *p = v; sp(); return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

func LoadUintptr(p *uintptr) uintptr            { sp(); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { sp(); *p = v; sp() }
func AddUintptr(p *uintptr, d uintptr) uintptr  { sp(); *p += d; v := *p; sp(); return v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sp(); o := *p; *p = v; sp(); return o }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sp(); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { sp(); *p = v; sp() }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	sp()
	o := *p
	*p = v
	sp()
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	sp()
	if *p != o {
		return false
	}
	*p = v
	sp()
	return true
}

type Bool struct{ v bool }

func (x *Bool) Load() bool       { sp(); return x.v }
func (x *Bool) Store(v bool)     { sp(); x.v = v; sp() }
func (x *Bool) Swap(v bool) bool { sp(); o := x.v; x.v = v; sp(); return o }
func (x *Bool) CompareAndSwap(o, v bool) bool {
	sp()
	if x.v != o {
		return false
	}
	x.v = v
	sp()
	return true
}

type Value struct{ v any }

func (x *Value) Load() any      { sp(); return x.v }
func (x *Value) Store(v any)    { sp(); x.v = v; sp() }
func (x *Value) Swap(v any) any { sp(); o := x.v; x.v = v; sp(); return o }
func (x *Value) CompareAndSwap(o, v any) bool {
	sp()
	if x.v != o {
		return false
	}
	x.v = v
	sp()
	return true
}

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T     { sp(); return x.v }
func (x *Pointer[T]) Store(v *T)   { sp(); x.v = v; sp() }
func (x *Pointer[T]) Swap(v *T) *T { sp(); o := x.v; x.v = v; sp(); return o }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	sp()
	if x.v != o {
		return false
	}
	x.v = v
	sp()
	return true
}
