// Package vatomic stands in for package sync/atomic.
package vatomic

import (
	"unsafe"

	"verif/mc/gomc"
)

// The object behind a plain variable used atomically is kept per execution.
func objOf(p unsafe.Pointer) *gomc.Obj {
	return gomc.Local(p, func() any { return new(gomc.Obj) }).(*gomc.Obj)
}

func pt(p unsafe.Pointer, site string) {
	if gomc.InExec() {
		gomc.Point(objOf(p), site)
	}
}

func rd(p unsafe.Pointer, site string, changes func() bool) {
	if gomc.InExec() {
		gomc.PointIf(objOf(p), site, changes)
	}
}

type Int32 struct {
	v int32
	o gomc.Obj
}

func (a *Int32) Load() int32        { gomc.PointIf(&a.o, "Int32.Load", nil); return a.v }
func (a *Int32) Store(v int32)      { gomc.Point(&a.o, "Int32.Store"); a.v = v }
func (a *Int32) Add(d int32) int32  { gomc.Point(&a.o, "Int32.Add"); a.v += d; return a.v }
func (a *Int32) Swap(v int32) int32 { gomc.Point(&a.o, "Int32.Swap"); o := a.v; a.v = v; return o }
func (a *Int32) And(v int32) int32  { gomc.Point(&a.o, "Int32.And"); o := a.v; a.v &= v; return o }
func (a *Int32) Or(v int32) int32   { gomc.Point(&a.o, "Int32.Or"); o := a.v; a.v |= v; return o }
func (a *Int32) CompareAndSwap(old, new int32) bool {
	gomc.PointIf(&a.o, "Int32.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadInt32(p *int32) int32         { rd(unsafe.Pointer(p), "LoadInt32", nil); return *p }
func StoreInt32(p *int32, v int32)     { pt(unsafe.Pointer(p), "StoreInt32"); *p = v }
func AddInt32(p *int32, d int32) int32 { pt(unsafe.Pointer(p), "AddInt32"); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 {
	pt(unsafe.Pointer(p), "SwapInt32")
	o := *p
	*p = v
	return o
}
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	rd(unsafe.Pointer(p), "CompareAndSwapInt32", func() bool { return *p == old })
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Int64 struct {
	v int64
	o gomc.Obj
}

func (a *Int64) Load() int64        { gomc.PointIf(&a.o, "Int64.Load", nil); return a.v }
func (a *Int64) Store(v int64)      { gomc.Point(&a.o, "Int64.Store"); a.v = v }
func (a *Int64) Add(d int64) int64  { gomc.Point(&a.o, "Int64.Add"); a.v += d; return a.v }
func (a *Int64) Swap(v int64) int64 { gomc.Point(&a.o, "Int64.Swap"); o := a.v; a.v = v; return o }
func (a *Int64) And(v int64) int64  { gomc.Point(&a.o, "Int64.And"); o := a.v; a.v &= v; return o }
func (a *Int64) Or(v int64) int64   { gomc.Point(&a.o, "Int64.Or"); o := a.v; a.v |= v; return o }
func (a *Int64) CompareAndSwap(old, new int64) bool {
	gomc.PointIf(&a.o, "Int64.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadInt64(p *int64) int64         { rd(unsafe.Pointer(p), "LoadInt64", nil); return *p }
func StoreInt64(p *int64, v int64)     { pt(unsafe.Pointer(p), "StoreInt64"); *p = v }
func AddInt64(p *int64, d int64) int64 { pt(unsafe.Pointer(p), "AddInt64"); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 {
	pt(unsafe.Pointer(p), "SwapInt64")
	o := *p
	*p = v
	return o
}
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	rd(unsafe.Pointer(p), "CompareAndSwapInt64", func() bool { return *p == old })
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uint32 struct {
	v uint32
	o gomc.Obj
}

func (a *Uint32) Load() uint32         { gomc.PointIf(&a.o, "Uint32.Load", nil); return a.v }
func (a *Uint32) Store(v uint32)       { gomc.Point(&a.o, "Uint32.Store"); a.v = v }
func (a *Uint32) Add(d uint32) uint32  { gomc.Point(&a.o, "Uint32.Add"); a.v += d; return a.v }
func (a *Uint32) Swap(v uint32) uint32 { gomc.Point(&a.o, "Uint32.Swap"); o := a.v; a.v = v; return o }
func (a *Uint32) And(v uint32) uint32  { gomc.Point(&a.o, "Uint32.And"); o := a.v; a.v &= v; return o }
func (a *Uint32) Or(v uint32) uint32   { gomc.Point(&a.o, "Uint32.Or"); o := a.v; a.v |= v; return o }
func (a *Uint32) CompareAndSwap(old, new uint32) bool {
	gomc.PointIf(&a.o, "Uint32.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32          { rd(unsafe.Pointer(p), "LoadUint32", nil); return *p }
func StoreUint32(p *uint32, v uint32)      { pt(unsafe.Pointer(p), "StoreUint32"); *p = v }
func AddUint32(p *uint32, d uint32) uint32 { pt(unsafe.Pointer(p), "AddUint32"); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p), "SwapUint32")
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	rd(unsafe.Pointer(p), "CompareAndSwapUint32", func() bool { return *p == old })
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uint64 struct {
	v uint64
	o gomc.Obj
}

func (a *Uint64) Load() uint64         { gomc.PointIf(&a.o, "Uint64.Load", nil); return a.v }
func (a *Uint64) Store(v uint64)       { gomc.Point(&a.o, "Uint64.Store"); a.v = v }
func (a *Uint64) Add(d uint64) uint64  { gomc.Point(&a.o, "Uint64.Add"); a.v += d; return a.v }
func (a *Uint64) Swap(v uint64) uint64 { gomc.Point(&a.o, "Uint64.Swap"); o := a.v; a.v = v; return o }
func (a *Uint64) And(v uint64) uint64  { gomc.Point(&a.o, "Uint64.And"); o := a.v; a.v &= v; return o }
func (a *Uint64) Or(v uint64) uint64   { gomc.Point(&a.o, "Uint64.Or"); o := a.v; a.v |= v; return o }
func (a *Uint64) CompareAndSwap(old, new uint64) bool {
	gomc.PointIf(&a.o, "Uint64.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64          { rd(unsafe.Pointer(p), "LoadUint64", nil); return *p }
func StoreUint64(p *uint64, v uint64)      { pt(unsafe.Pointer(p), "StoreUint64"); *p = v }
func AddUint64(p *uint64, d uint64) uint64 { pt(unsafe.Pointer(p), "AddUint64"); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p), "SwapUint64")
	o := *p
	*p = v
	return o
}
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	rd(unsafe.Pointer(p), "CompareAndSwapUint64", func() bool { return *p == old })
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Uintptr struct {
	v uintptr
	o gomc.Obj
}

func (a *Uintptr) Load() uintptr         { gomc.PointIf(&a.o, "Uintptr.Load", nil); return a.v }
func (a *Uintptr) Store(v uintptr)       { gomc.Point(&a.o, "Uintptr.Store"); a.v = v }
func (a *Uintptr) Add(d uintptr) uintptr { gomc.Point(&a.o, "Uintptr.Add"); a.v += d; return a.v }
func (a *Uintptr) Swap(v uintptr) uintptr {
	gomc.Point(&a.o, "Uintptr.Swap")
	o := a.v
	a.v = v
	return o
}
func (a *Uintptr) And(v uintptr) uintptr {
	gomc.Point(&a.o, "Uintptr.And")
	o := a.v
	a.v &= v
	return o
}
func (a *Uintptr) Or(v uintptr) uintptr { gomc.Point(&a.o, "Uintptr.Or"); o := a.v; a.v |= v; return o }
func (a *Uintptr) CompareAndSwap(old, new uintptr) bool {
	gomc.PointIf(&a.o, "Uintptr.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr     { rd(unsafe.Pointer(p), "LoadUintptr", nil); return *p }
func StoreUintptr(p *uintptr, v uintptr) { pt(unsafe.Pointer(p), "StoreUintptr"); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p), "AddUintptr")
	*p += d
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p), "SwapUintptr")
	o := *p
	*p = v
	return o
}
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	rd(unsafe.Pointer(p), "CompareAndSwapUintptr", func() bool { return *p == old })
	if *p == old {
		*p = new
		return true
	}
	return false
}

type Bool struct {
	v bool
	o gomc.Obj
}

func (a *Bool) Load() bool       { gomc.PointIf(&a.o, "Bool.Load", nil); return a.v }
func (a *Bool) Store(v bool)     { gomc.Point(&a.o, "Bool.Store"); a.v = v }
func (a *Bool) Swap(v bool) bool { gomc.Point(&a.o, "Bool.Swap"); o := a.v; a.v = v; return o }
func (a *Bool) CompareAndSwap(old, new bool) bool {
	gomc.PointIf(&a.o, "Bool.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

type Value struct {
	v any
	o gomc.Obj
}

func (a *Value) Load() any      { gomc.PointIf(&a.o, "Value.Load", nil); return a.v }
func (a *Value) Store(v any)    { gomc.Point(&a.o, "Value.Store"); a.v = v }
func (a *Value) Swap(v any) any { gomc.Point(&a.o, "Value.Swap"); o := a.v; a.v = v; return o }
func (a *Value) CompareAndSwap(old, new any) bool {
	gomc.PointIf(&a.o, "Value.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}

type Pointer[T any] struct {
	v *T
	o gomc.Obj
}

func (a *Pointer[T]) Load() *T     { gomc.PointIf(&a.o, "Pointer.Load", nil); return a.v }
func (a *Pointer[T]) Store(v *T)   { gomc.Point(&a.o, "Pointer.Store"); a.v = v }
func (a *Pointer[T]) Swap(v *T) *T { gomc.Point(&a.o, "Pointer.Swap"); o := a.v; a.v = v; return o }
func (a *Pointer[T]) CompareAndSwap(old, new *T) bool {
	gomc.PointIf(&a.o, "Pointer.CompareAndSwap", func() bool { return a.v == old })
	if a.v == old {
		a.v = new
		return true
	}
	return false
}
