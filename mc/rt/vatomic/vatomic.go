// Package vatomic stands in for sync/atomic under the controlled scheduler. (generated by gen.py)
package vatomic

import (
	"unsafe"

	"github.com/DanLavine/willow/verifmc/vs"
)

func rd(o *vs.Obj) {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("atomic load"))
	o.Read(0x20)
}

func wr(o *vs.Obj) {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("atomic write"))
	o.Write(0x21)
}

func addr[T any](p *T) *vs.Obj {
	if vs.Dead() {
		return nil
	}
	return vs.AddrObj(unsafe.Pointer(p))
}

type Bool struct {
	o vs.Obj
	v bool
}

func (b *Bool) Load() bool       { rd(&b.o); return b.v }
func (b *Bool) Store(v bool)     { wr(&b.o); b.v = v }
func (b *Bool) Swap(v bool) bool { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Bool) CompareAndSwap(o, n bool) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	o vs.Obj
	v *T
}

func (b *Pointer[T]) Load() *T     { rd(&b.o); return b.v }
func (b *Pointer[T]) Store(v *T)   { wr(&b.o); b.v = v }
func (b *Pointer[T]) Swap(v *T) *T { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Value struct {
	o vs.Obj
	v any
}

func (b *Value) Load() any      { rd(&b.o); return b.v }
func (b *Value) Store(v any)    { wr(&b.o); b.v = v }
func (b *Value) Swap(v any) any { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Value) CompareAndSwap(o, n any) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Int32 struct {
	o vs.Obj
	v int32
}

func (b *Int32) Load() int32        { rd(&b.o); return b.v }
func (b *Int32) Store(v int32)      { wr(&b.o); b.v = v }
func (b *Int32) Swap(v int32) int32 { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Int32) Add(d int32) int32  { wr(&b.o); b.v += d; return b.v }
func (b *Int32) And(d int32) int32  { wr(&b.o); o := b.v; b.v &= d; return o }
func (b *Int32) Or(d int32) int32   { wr(&b.o); o := b.v; b.v |= d; return o }
func (b *Int32) CompareAndSwap(o, n int32) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32          { rd(addr(p)); return *p }
func StoreInt32(p *int32, v int32)      { wr(addr(p)); *p = v }
func SwapInt32(p *int32, v int32) int32 { wr(addr(p)); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { wr(addr(p)); *p += d; return *p }
func AndInt32(p *int32, d int32) int32  { wr(addr(p)); o := *p; *p &= d; return o }
func OrInt32(p *int32, d int32) int32   { wr(addr(p)); o := *p; *p |= d; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(addr(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Int64 struct {
	o vs.Obj
	v int64
}

func (b *Int64) Load() int64        { rd(&b.o); return b.v }
func (b *Int64) Store(v int64)      { wr(&b.o); b.v = v }
func (b *Int64) Swap(v int64) int64 { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Int64) Add(d int64) int64  { wr(&b.o); b.v += d; return b.v }
func (b *Int64) And(d int64) int64  { wr(&b.o); o := b.v; b.v &= d; return o }
func (b *Int64) Or(d int64) int64   { wr(&b.o); o := b.v; b.v |= d; return o }
func (b *Int64) CompareAndSwap(o, n int64) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

func LoadInt64(p *int64) int64          { rd(addr(p)); return *p }
func StoreInt64(p *int64, v int64)      { wr(addr(p)); *p = v }
func SwapInt64(p *int64, v int64) int64 { wr(addr(p)); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { wr(addr(p)); *p += d; return *p }
func AndInt64(p *int64, d int64) int64  { wr(addr(p)); o := *p; *p &= d; return o }
func OrInt64(p *int64, d int64) int64   { wr(addr(p)); o := *p; *p |= d; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(addr(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint32 struct {
	o vs.Obj
	v uint32
}

func (b *Uint32) Load() uint32         { rd(&b.o); return b.v }
func (b *Uint32) Store(v uint32)       { wr(&b.o); b.v = v }
func (b *Uint32) Swap(v uint32) uint32 { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Uint32) Add(d uint32) uint32  { wr(&b.o); b.v += d; return b.v }
func (b *Uint32) And(d uint32) uint32  { wr(&b.o); o := b.v; b.v &= d; return o }
func (b *Uint32) Or(d uint32) uint32   { wr(&b.o); o := b.v; b.v |= d; return o }
func (b *Uint32) CompareAndSwap(o, n uint32) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32           { rd(addr(p)); return *p }
func StoreUint32(p *uint32, v uint32)       { wr(addr(p)); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { wr(addr(p)); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { wr(addr(p)); *p += d; return *p }
func AndUint32(p *uint32, d uint32) uint32  { wr(addr(p)); o := *p; *p &= d; return o }
func OrUint32(p *uint32, d uint32) uint32   { wr(addr(p)); o := *p; *p |= d; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(addr(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uint64 struct {
	o vs.Obj
	v uint64
}

func (b *Uint64) Load() uint64         { rd(&b.o); return b.v }
func (b *Uint64) Store(v uint64)       { wr(&b.o); b.v = v }
func (b *Uint64) Swap(v uint64) uint64 { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Uint64) Add(d uint64) uint64  { wr(&b.o); b.v += d; return b.v }
func (b *Uint64) And(d uint64) uint64  { wr(&b.o); o := b.v; b.v &= d; return o }
func (b *Uint64) Or(d uint64) uint64   { wr(&b.o); o := b.v; b.v |= d; return o }
func (b *Uint64) CompareAndSwap(o, n uint64) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64           { rd(addr(p)); return *p }
func StoreUint64(p *uint64, v uint64)       { wr(addr(p)); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { wr(addr(p)); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { wr(addr(p)); *p += d; return *p }
func AndUint64(p *uint64, d uint64) uint64  { wr(addr(p)); o := *p; *p &= d; return o }
func OrUint64(p *uint64, d uint64) uint64   { wr(addr(p)); o := *p; *p |= d; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(addr(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}

type Uintptr struct {
	o vs.Obj
	v uintptr
}

func (b *Uintptr) Load() uintptr          { rd(&b.o); return b.v }
func (b *Uintptr) Store(v uintptr)        { wr(&b.o); b.v = v }
func (b *Uintptr) Swap(v uintptr) uintptr { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Uintptr) Add(d uintptr) uintptr  { wr(&b.o); b.v += d; return b.v }
func (b *Uintptr) And(d uintptr) uintptr  { wr(&b.o); o := b.v; b.v &= d; return o }
func (b *Uintptr) Or(d uintptr) uintptr   { wr(&b.o); o := b.v; b.v |= d; return o }
func (b *Uintptr) CompareAndSwap(o, n uintptr) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

func LoadUintptr(p *uintptr) uintptr            { rd(addr(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { wr(addr(p)); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { wr(addr(p)); o := *p; *p = v; return o }
func AddUintptr(p *uintptr, d uintptr) uintptr  { wr(addr(p)); *p += d; return *p }
func AndUintptr(p *uintptr, d uintptr) uintptr  { wr(addr(p)); o := *p; *p &= d; return o }
func OrUintptr(p *uintptr, d uintptr) uintptr   { wr(addr(p)); o := *p; *p |= d; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(addr(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
