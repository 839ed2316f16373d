// Package gsync is the controlled stand-in for package sync.
package gsync

import (
	"fmt"
	"sync"
	"vsa/internal/gomc/rt"
)

type Locker = sync.Locker

// tryUsed is set at link time when some lock is probed without blocking;
// releasing a lock is then a scheduling point.
var tryUsed string

func unlock(o *rt.Object, write bool) bool {
	if tryUsed != "" {
		return rt.Point(rt.KUnlock, o, write, nil)
	}
	return rt.Silent(rt.KUnlock, o, write)
}

// Mutex models sync.Mutex.
type Mutex struct {
	o      rt.Object
	locked bool
	tok    byte
}

func (m *Mutex) fresh() {
	if rt.Active() && m.o.Fresh() {
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, true, func() bool { return !m.locked }) {
		return
	}
	m.locked = true
	rt.RaceAcq(&m.tok)
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, true, nil) {
		return false
	}
	if m.locked {
		return false
	}
	m.locked = true
	rt.RaceAcq(&m.tok)
	return true
}

func (m *Mutex) Unlock() {
	m.fresh()
	if !unlock(&m.o, true) {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	rt.RaceRel(&m.tok)
	m.locked = false
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	o       rt.Object
	w       bool
	readers int
	tok     byte // released by writers
	rtok    byte // released by readers
}

func (m *RWMutex) fresh() {
	if rt.Active() && m.o.Fresh() {
		m.w, m.readers = false, 0
	}
}
func (m *RWMutex) Lock() {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, true, func() bool { return !m.w && m.readers == 0 }) {
		return
	}
	m.w = true
	rt.RaceAcq(&m.tok)
	rt.RaceAcq(&m.rtok)
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, true, nil) {
		return false
	}
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.RaceAcq(&m.tok)
	rt.RaceAcq(&m.rtok)
	return true
}
func (m *RWMutex) Unlock() {
	m.fresh()
	if !unlock(&m.o, true) {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRel(&m.tok)
	m.w = false
}
func (m *RWMutex) RLock() {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, false, func() bool { return !m.w }) {
		return
	}
	m.readers++
	rt.RaceAcq(&m.tok)
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if !rt.Point(rt.KLock, &m.o, true, nil) {
		return false
	}
	if m.w {
		return false
	}
	m.readers++
	rt.RaceAcq(&m.tok)
	return true
}
func (m *RWMutex) RUnlock() {
	m.fresh()
	if !unlock(&m.o, false) {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceRel(&m.rtok)
	m.readers--
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	o   rt.Object
	n   int
	tok byte
}

func (w *WaitGroup) fresh() {
	if rt.Active() && w.o.Fresh() {
		w.n = 0
	}
}
func (w *WaitGroup) Add(d int) {
	w.fresh()
	if d < 0 && w.n+d >= 0 {
		if !rt.Silent(rt.KWrite, &w.o, true) {
			return
		}
	} else if !rt.Point(rt.KWrite, &w.o, true, nil) {
		return
	}
	if d < 0 {
		rt.RaceRel(&w.tok)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	w.fresh()
	if !rt.Point(rt.KWait, &w.o, true, func() bool { return w.n == 0 }) {
		return
	}
	rt.RaceAcq(&w.tok)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Once models sync.Once.
type Once struct {
	o       rt.Object
	state   int // 0 new, 1 running, 2 done
	running bool
	tok     byte
}

func (o *Once) Do(f func()) {
	if rt.Active() {
		if o.o.Fresh() && o.state == 1 {
			o.state = 0
		}
	}
	if !rt.Point(rt.KLock, &o.o, true, func() bool { return o.state != 1 }) {
		return
	}
	if o.state == 2 {
		rt.RaceAcq(&o.tok)
		return
	}
	o.state = 1
	defer func() {
		rt.RaceRel(&o.tok)
		o.state = 2
	}()
	f()
	rt.Point(rt.KUnlock, &o.o, true, nil)
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond models sync.Cond.
type Cond struct {
	L  Locker
	o  rt.Object
	q  []*bool
	tk byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	if rt.Point(rt.KWait, &c.o, true, func() bool { return *woken }) {
		rt.RaceAcq(&c.tk)
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !rt.Point(rt.KWrite, &c.o, true, nil) {
		return
	}
	rt.RaceRel(&c.tk)
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	if !rt.Point(rt.KWrite, &c.o, true, nil) {
		return
	}
	rt.RaceRel(&c.tk)
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool models sync.Pool as a shared LIFO list.
type Pool struct {
	New func() any
	o   rt.Object
	l   []any
	tok byte
}

func (p *Pool) Get() any {
	if rt.Active() && p.o.Fresh() {
		p.l = nil
	}
	if !rt.Point(rt.KWrite, &p.o, true, nil) {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		rt.RaceAcq(&p.tok)
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if rt.Active() && p.o.Fresh() {
		p.l = nil
	}
	if !rt.Point(rt.KWrite, &p.o, true, nil) {
		return
	}
	rt.RaceRel(&p.tok)
	p.l = append(p.l, v)
}

// Map models sync.Map: every method is one atomic operation; Range visits the
// keys present when it started, one visible read each.
type Map struct {
	o    rt.Object
	m    map[any]any
	keys []any
	tok  byte
}

func (m *Map) rd() bool {
	ok := rt.Point(rt.KRead, &m.o, false, nil)
	rt.RaceAcq(&m.tok)
	return ok
}
func (m *Map) wr() bool {
	ok := rt.Point(rt.KWrite, &m.o, true, nil)
	rt.RaceAcq(&m.tok)
	if m.m == nil {
		m.m = map[any]any{}
	}
	return ok
}
func (m *Map) set(k, v any) {
	rt.RaceRel(&m.tok)
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; ok {
		rt.RaceRel(&m.tok)
		delete(m.m, k)
		for i := range m.keys {
			if m.keys[i] == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Load(k any) (any, bool) {
	if !m.rd() {
		return nil, false
	}
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	if m.wr() {
		m.set(k, v)
	}
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if !m.wr() {
		return v, false
	}
	if a, ok := m.m[k]; ok {
		return a, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	if !m.wr() {
		return nil, false
	}
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	if !m.wr() {
		return nil, false
	}
	a, ok := m.m[k]
	m.set(k, v)
	return a, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	if !m.wr() {
		return false
	}
	if a, ok := m.m[k]; ok && a == old {
		m.set(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	if !m.wr() {
		return false
	}
	if a, ok := m.m[k]; ok && a == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	if m.wr() {
		m.m, m.keys = map[any]any{}, nil
	}
}
func (m *Map) Range(f func(k, v any) bool) {
	if !m.rd() {
		return
	}
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		if !m.rd() {
			return
		}
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

var _ = fmt.Sprint
