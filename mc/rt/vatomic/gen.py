out=['''// Package vatomic stands in for sync/atomic under the controlled scheduler. (generated by gen.py)
package vatomic

import (
	"unsafe"

	"github.com/DanLavine/willow/verifmc/vs"
)

func rd(o *vs.Obj) {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("atomic load"))
	o.Read(0x20)
}

func wr(o *vs.Obj) {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("atomic write"))
	o.Write(0x21)
}

func addr[T any](p *T) *vs.Obj {
	if vs.Dead() {
		return nil
	}
	return vs.AddrObj(unsafe.Pointer(p))
}

type Bool struct {
	o vs.Obj
	v bool
}

func (b *Bool) Load() bool       { rd(&b.o); return b.v }
func (b *Bool) Store(v bool)     { wr(&b.o); b.v = v }
func (b *Bool) Swap(v bool) bool { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Bool) CompareAndSwap(o, n bool) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	o vs.Obj
	v *T
}

func (b *Pointer[T]) Load() *T       { rd(&b.o); return b.v }
func (b *Pointer[T]) Store(v *T)     { wr(&b.o); b.v = v }
func (b *Pointer[T]) Swap(v *T) *T   { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}

type Value struct {
	o vs.Obj
	v any
}

func (b *Value) Load() any       { rd(&b.o); return b.v }
func (b *Value) Store(v any)     { wr(&b.o); b.v = v }
func (b *Value) Swap(v any) any  { wr(&b.o); o := b.v; b.v = v; return o }
func (b *Value) CompareAndSwap(o, n any) bool {
	wr(&b.o)
	if b.v == o {
		b.v = n
		return true
	}
	return false
}
''']
for N,t in [('Int32','int32'),('Int64','int64'),('Uint32','uint32'),('Uint64','uint64'),('Uintptr','uintptr')]:
    out.append(f'''
type {N} struct {{
	o vs.Obj
	v {t}
}}

func (b *{N}) Load() {t}         {{ rd(&b.o); return b.v }}
func (b *{N}) Store(v {t})       {{ wr(&b.o); b.v = v }}
func (b *{N}) Swap(v {t}) {t}    {{ wr(&b.o); o := b.v; b.v = v; return o }}
func (b *{N}) Add(d {t}) {t}     {{ wr(&b.o); b.v += d; return b.v }}
func (b *{N}) And(d {t}) {t}     {{ wr(&b.o); o := b.v; b.v &= d; return o }}
func (b *{N}) Or(d {t}) {t}      {{ wr(&b.o); o := b.v; b.v |= d; return o }}
func (b *{N}) CompareAndSwap(o, n {t}) bool {{
	wr(&b.o)
	if b.v == o {{
		b.v = n
		return true
	}}
	return false
}}

func Load{N}(p *{t}) {t}         {{ rd(addr(p)); return *p }}
func Store{N}(p *{t}, v {t})     {{ wr(addr(p)); *p = v }}
func Swap{N}(p *{t}, v {t}) {t}  {{ wr(addr(p)); o := *p; *p = v; return o }}
func Add{N}(p *{t}, d {t}) {t}   {{ wr(addr(p)); *p += d; return *p }}
func And{N}(p *{t}, d {t}) {t}   {{ wr(addr(p)); o := *p; *p &= d; return o }}
func Or{N}(p *{t}, d {t}) {t}    {{ wr(addr(p)); o := *p; *p |= d; return o }}
func CompareAndSwap{N}(p *{t}, o, n {t}) bool {{
	wr(addr(p))
	if *p == o {{
		*p = n
		return true
	}}
	return false
}}
''')
open('vatomic.go','w').write(''.join(out))
