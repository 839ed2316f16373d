// Package graw is the controlled stand-in for the functions of package sync/atomic.
// In the race twin it is the one package of the engine that the race detector sees,
// so that plain accesses by the code under test race with its atomic ones.
package graw

import (
	"sync/atomic"
	"unsafe"

	"vsa/internal/gomc/rt"
)

func rd(o *rt.Object, tok *byte) bool {
	ok := rt.Point(rt.KRead, o, false, nil)
	rt.RaceAcq(tok)
	return ok
}
func wr(o *rt.Object, tok *byte) bool {
	ok := rt.Point(rt.KWrite, o, true, nil)
	rt.RaceAcq(tok)
	rt.RaceRel(tok)
	return ok
}
func LoadInt32(p *int32) int32 { rd(rt.AddrObj(unsafe.Pointer(p))); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreInt32(p, v)
	}
}
func AddInt32(p *int32, d int32) int32 {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreInt32(p, atomic.LoadInt32(p)+d)
	}
	return atomic.LoadInt32(p)
}
func SwapInt32(p *int32, v int32) int32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt32(p)
	}
	old := atomic.LoadInt32(p)
	atomic.StoreInt32(p, v)
	return old
}
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadInt32(p) != old {
		return false
	}
	atomic.StoreInt32(p, new)
	return true
}
func AndInt32(p *int32, m int32) int32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt32(p)
	}
	old := atomic.LoadInt32(p)
	atomic.StoreInt32(p, atomic.LoadInt32(p)&m)
	return old
}
func OrInt32(p *int32, m int32) int32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt32(p)
	}
	old := atomic.LoadInt32(p)
	atomic.StoreInt32(p, atomic.LoadInt32(p)|m)
	return old
}

func LoadInt64(p *int64) int64 { rd(rt.AddrObj(unsafe.Pointer(p))); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreInt64(p, v)
	}
}
func AddInt64(p *int64, d int64) int64 {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreInt64(p, atomic.LoadInt64(p)+d)
	}
	return atomic.LoadInt64(p)
}
func SwapInt64(p *int64, v int64) int64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt64(p)
	}
	old := atomic.LoadInt64(p)
	atomic.StoreInt64(p, v)
	return old
}
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadInt64(p) != old {
		return false
	}
	atomic.StoreInt64(p, new)
	return true
}
func AndInt64(p *int64, m int64) int64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt64(p)
	}
	old := atomic.LoadInt64(p)
	atomic.StoreInt64(p, atomic.LoadInt64(p)&m)
	return old
}
func OrInt64(p *int64, m int64) int64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadInt64(p)
	}
	old := atomic.LoadInt64(p)
	atomic.StoreInt64(p, atomic.LoadInt64(p)|m)
	return old
}

func LoadUint32(p *uint32) uint32 { rd(rt.AddrObj(unsafe.Pointer(p))); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUint32(p, v)
	}
}
func AddUint32(p *uint32, d uint32) uint32 {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUint32(p, atomic.LoadUint32(p)+d)
	}
	return atomic.LoadUint32(p)
}
func SwapUint32(p *uint32, v uint32) uint32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint32(p)
	}
	old := atomic.LoadUint32(p)
	atomic.StoreUint32(p, v)
	return old
}
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadUint32(p) != old {
		return false
	}
	atomic.StoreUint32(p, new)
	return true
}
func AndUint32(p *uint32, m uint32) uint32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint32(p)
	}
	old := atomic.LoadUint32(p)
	atomic.StoreUint32(p, atomic.LoadUint32(p)&m)
	return old
}
func OrUint32(p *uint32, m uint32) uint32 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint32(p)
	}
	old := atomic.LoadUint32(p)
	atomic.StoreUint32(p, atomic.LoadUint32(p)|m)
	return old
}

func LoadUint64(p *uint64) uint64 { rd(rt.AddrObj(unsafe.Pointer(p))); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUint64(p, v)
	}
}
func AddUint64(p *uint64, d uint64) uint64 {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUint64(p, atomic.LoadUint64(p)+d)
	}
	return atomic.LoadUint64(p)
}
func SwapUint64(p *uint64, v uint64) uint64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint64(p)
	}
	old := atomic.LoadUint64(p)
	atomic.StoreUint64(p, v)
	return old
}
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadUint64(p) != old {
		return false
	}
	atomic.StoreUint64(p, new)
	return true
}
func AndUint64(p *uint64, m uint64) uint64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint64(p)
	}
	old := atomic.LoadUint64(p)
	atomic.StoreUint64(p, atomic.LoadUint64(p)&m)
	return old
}
func OrUint64(p *uint64, m uint64) uint64 {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUint64(p)
	}
	old := atomic.LoadUint64(p)
	atomic.StoreUint64(p, atomic.LoadUint64(p)|m)
	return old
}

func LoadUintptr(p *uintptr) uintptr { rd(rt.AddrObj(unsafe.Pointer(p))); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUintptr(p, v)
	}
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StoreUintptr(p, atomic.LoadUintptr(p)+d)
	}
	return atomic.LoadUintptr(p)
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUintptr(p)
	}
	old := atomic.LoadUintptr(p)
	atomic.StoreUintptr(p, v)
	return old
}
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadUintptr(p) != old {
		return false
	}
	atomic.StoreUintptr(p, new)
	return true
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUintptr(p)
	}
	old := atomic.LoadUintptr(p)
	atomic.StoreUintptr(p, atomic.LoadUintptr(p)&m)
	return old
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadUintptr(p)
	}
	old := atomic.LoadUintptr(p)
	atomic.StoreUintptr(p, atomic.LoadUintptr(p)|m)
	return old
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(rt.AddrObj(unsafe.Pointer(p)))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	if wr(rt.AddrObj(unsafe.Pointer(p))) {
		atomic.StorePointer(p, v)
	}
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) {
		return atomic.LoadPointer(p)
	}
	old := atomic.LoadPointer(p)
	atomic.StorePointer(p, v)
	return old
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	if !wr(rt.AddrObj(unsafe.Pointer(p))) || atomic.LoadPointer(p) != old {
		return false
	}
	atomic.StorePointer(p, new)
	return true
}
