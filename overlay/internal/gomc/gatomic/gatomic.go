// Package gatomic is the controlled stand-in for package sync/atomic.
package gatomic

import (
	"vsa/internal/gomc/rt"
)

func rd(o *rt.Object, tok *byte) bool {
	ok := rt.Point(rt.KRead, o, false, nil)
	rt.RaceAcq(tok)
	return ok
}
func wr(o *rt.Object, tok *byte) bool {
	ok := rt.Point(rt.KWrite, o, true, nil)
	rt.RaceAcq(tok)
	rt.RaceRel(tok)
	return ok
}

// Bool models atomic.Bool.
type Bool struct {
	o   rt.Object
	v   bool
	tok byte
}

func (x *Bool) Load() bool { rd(&x.o, &x.tok); return x.v }
func (x *Bool) Store(v bool) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Bool) Swap(v bool) bool {
	old := x.v
	if wr(&x.o, &x.tok) {
		old = x.v
		x.v = v
	}
	return old
}
func (x *Bool) CompareAndSwap(old, new bool) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}

// Pointer models atomic.Pointer.
type Pointer[T any] struct {
	o   rt.Object
	v   *T
	tok byte
}

func (x *Pointer[T]) Load() *T { rd(&x.o, &x.tok); return x.v }
func (x *Pointer[T]) Store(v *T) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Pointer[T]) Swap(v *T) *T {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}

// Value models atomic.Value.
type Value struct {
	o   rt.Object
	v   any
	tok byte
}

func (x *Value) Load() any { rd(&x.o, &x.tok); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Value) Swap(v any) any {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Value) CompareAndSwap(old, new any) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}

// Int32 models atomic.Int32.
type Int32 struct {
	o   rt.Object
	v   int32
	tok byte
}

func (x *Int32) Load() int32 { rd(&x.o, &x.tok); return x.v }
func (x *Int32) Store(v int32) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Int32) Add(d int32) int32 {
	if wr(&x.o, &x.tok) {
		x.v += d
	}
	return x.v
}
func (x *Int32) Swap(v int32) int32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Int32) CompareAndSwap(old, new int32) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}
func (x *Int32) And(m int32) int32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v &= m
	return old
}
func (x *Int32) Or(m int32) int32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v |= m
	return old
}

// Int64 models atomic.Int64.
type Int64 struct {
	o   rt.Object
	v   int64
	tok byte
}

func (x *Int64) Load() int64 { rd(&x.o, &x.tok); return x.v }
func (x *Int64) Store(v int64) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Int64) Add(d int64) int64 {
	if wr(&x.o, &x.tok) {
		x.v += d
	}
	return x.v
}
func (x *Int64) Swap(v int64) int64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Int64) CompareAndSwap(old, new int64) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}
func (x *Int64) And(m int64) int64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v &= m
	return old
}
func (x *Int64) Or(m int64) int64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v |= m
	return old
}

// Uint32 models atomic.Uint32.
type Uint32 struct {
	o   rt.Object
	v   uint32
	tok byte
}

func (x *Uint32) Load() uint32 { rd(&x.o, &x.tok); return x.v }
func (x *Uint32) Store(v uint32) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Uint32) Add(d uint32) uint32 {
	if wr(&x.o, &x.tok) {
		x.v += d
	}
	return x.v
}
func (x *Uint32) Swap(v uint32) uint32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}
func (x *Uint32) And(m uint32) uint32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v &= m
	return old
}
func (x *Uint32) Or(m uint32) uint32 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v |= m
	return old
}

// Uint64 models atomic.Uint64.
type Uint64 struct {
	o   rt.Object
	v   uint64
	tok byte
}

func (x *Uint64) Load() uint64 { rd(&x.o, &x.tok); return x.v }
func (x *Uint64) Store(v uint64) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Uint64) Add(d uint64) uint64 {
	if wr(&x.o, &x.tok) {
		x.v += d
	}
	return x.v
}
func (x *Uint64) Swap(v uint64) uint64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}
func (x *Uint64) And(m uint64) uint64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v &= m
	return old
}
func (x *Uint64) Or(m uint64) uint64 {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v |= m
	return old
}

// Uintptr models atomic.Uintptr.
type Uintptr struct {
	o   rt.Object
	v   uintptr
	tok byte
}

func (x *Uintptr) Load() uintptr { rd(&x.o, &x.tok); return x.v }
func (x *Uintptr) Store(v uintptr) {
	if wr(&x.o, &x.tok) {
		x.v = v
	}
}
func (x *Uintptr) Add(d uintptr) uintptr {
	if wr(&x.o, &x.tok) {
		x.v += d
	}
	return x.v
}
func (x *Uintptr) Swap(v uintptr) uintptr {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v = v
	return old
}
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	if !wr(&x.o, &x.tok) || x.v != old {
		return false
	}
	x.v = new
	return true
}
func (x *Uintptr) And(m uintptr) uintptr {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v &= m
	return old
}
func (x *Uintptr) Or(m uintptr) uintptr {
	if !wr(&x.o, &x.tok) {
		return x.v
	}
	old := x.v
	x.v |= m
	return old
}
