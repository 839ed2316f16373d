package rt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// Channels stay native; buffered data and closedness live in the native
// channel, a rendezvous on an unbuffered channel is modelled here.

type chanState struct {
	o       Object
	closed  bool
	sendq   []*waiter
	recvq   []*waiter // receivers waiting (unbuffered rendezvous)
	raceTok byte
}

// waiter is one case of a blocked operation.
type waiter struct {
	th   *Thread
	grp  *group
	idx  int
	put  func() // receiver side: take value from sender (set by sender)
	send func(dst unsafe.Pointer)
	dst  unsafe.Pointer
	cs   *chanState
	okp  *bool
}

// group is one blocked channel operation or select.
type group struct {
	fired bool
	idx   int
	th    *Thread
}

func chanPtr[T any](ch T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func (x *exec) chanOf(p uintptr, keep any) *chanState {
	cs, _ := x.chans.Get(uint64(p))
	if cs == nil {
		cs = &chanState{}
		x.chans.Set(uint64(p), cs)
		x.keep = append(x.keep, keep)
	}
	return cs
}

// Case is one communication of a select (or a single operation).
type Case interface {
	ready(x *exec) bool // can proceed now (other than via our own group)
	exec(x *exec)       // perform; only when ready
	enqueue(x *exec, w *group, i int)
	dequeue(x *exec, w *group)
	state(x *exec) *chanState
	isSend() bool
	native() bool // perform natively without blocking; reports success
}

// RecvCase receives from a channel.
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	Ok bool
	cs *chanState
}

// RecvC builds a receive case.
func RecvC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) state(x *exec) *chanState {
	if c.ch == nil {
		return nil
	}
	if c.cs == nil {
		c.cs = x.chanOf(chanPtr(c.ch), c.ch)
	}
	return c.cs
}

func (c *RecvCase[T]) isSend() bool { return false }

func nativeClosed[T any](ch <-chan T) bool {
	v, ok := reflect.ValueOf(ch).TryRecv()
	return v.IsValid() && !ok
}

func (c *RecvCase[T]) ready(x *exec) bool {
	cs := c.state(x)
	if cs == nil {
		return false
	}
	if len(c.ch) > 0 || cs.closed {
		return true
	}
	for _, w := range cs.sendq {
		if !w.grp.fired && w.th != x.cur {
			return true
		}
	}
	if cs.unknown() && nativeClosed(c.ch) {
		cs.closed = true
		return true
	}
	return false
}

// unknown: the channel may be closed by uninstrumented code.
func (cs *chanState) unknown() bool { return true }

func (c *RecvCase[T]) exec(x *exec) {
	cs := c.state(x)
	raceAcq(&cs.raceTok)
	if cap(c.ch) > 0 {
		raceRel(&cs.raceTok)
	}
	if len(c.ch) > 0 || cs.closed {
		select {
		case c.V, c.Ok = <-c.ch:
		default:
			// closed flag set by an instrumented close on this very channel
			var z T
			c.V, c.Ok = z, false
		}
		return
	}
	for i, w := range cs.sendq {
		if !w.grp.fired && w.th != x.cur {
			cs.sendq = append(cs.sendq[:i:i], cs.sendq[i+1:]...)
			w.grp.fired, w.grp.idx = true, w.idx
			w.send(unsafe.Pointer(&c.V))
			c.Ok = true
			// rendezvous orders both sides
			raceRel(&cs.raceTok)
			touchWaiter(w, cs)
			return
		}
	}
	panic("gomc: receive scheduled when not ready")
}

func (c *RecvCase[T]) enqueue(x *exec, g *group, i int) {
	if cs := c.state(x); cs != nil && cap(c.ch) == 0 {
		cs.recvq = append(cs.recvq, &waiter{th: x.cur, grp: g, idx: i, dst: unsafe.Pointer(&c.V), okp: &c.Ok, cs: cs})
	}
}
func (c *RecvCase[T]) dequeue(x *exec, g *group) {
	if c.cs != nil {
		c.cs.recvq = rm(c.cs.recvq, g)
	}
}
func (c *RecvCase[T]) native() bool {
	select {
	case c.V, c.Ok = <-c.ch:
		return true
	default:
		return false
	}
}

// SendCase sends on a channel.
type SendCase[T any] struct {
	ch chan<- T
	v  T
	cs *chanState
}

// SendC builds a send case (curried so that the value converts to the element type).
func SendC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *SendCase[T]) state(x *exec) *chanState {
	if c.ch == nil {
		return nil
	}
	if c.cs == nil {
		c.cs = x.chanOf(chanPtr(c.ch), c.ch)
	}
	return c.cs
}
func (c *SendCase[T]) isSend() bool { return true }

func (c *SendCase[T]) ready(x *exec) bool {
	cs := c.state(x)
	if cs == nil {
		return false
	}
	if cs.closed || len(c.ch) < cap(c.ch) {
		return true
	}
	for _, w := range cs.recvq {
		if !w.grp.fired && w.th != x.cur {
			return true
		}
	}
	return false
}

func (c *SendCase[T]) exec(x *exec) {
	cs := c.state(x)
	if cs.closed {
		panic("send on closed channel")
	}
	raceRel(&cs.raceTok)
	if len(c.ch) < cap(c.ch) {
		raceAcq(&cs.raceTok)
		select {
		case c.ch <- c.v:
		default:
			panic("gomc: buffered send failed")
		}
		return
	}
	for i, w := range cs.recvq {
		if !w.grp.fired && w.th != x.cur {
			cs.recvq = append(cs.recvq[:i:i], cs.recvq[i+1:]...)
			w.grp.fired, w.grp.idx = true, w.idx
			*(*T)(w.dst) = c.v
			*w.okp = true
			raceAcq(&cs.raceTok)
			touchWaiter(w, cs)
			return
		}
	}
	panic("gomc: send scheduled when not ready")
}

func (c *SendCase[T]) enqueue(x *exec, g *group, i int) {
	if cs := c.state(x); cs != nil && cap(c.ch) == 0 {
		cs.sendq = append(cs.sendq, &waiter{th: x.cur, grp: g, idx: i, cs: cs, send: func(dst unsafe.Pointer) { *(*T)(dst) = c.v }})
		raceRel(&cs.raceTok)
	}
}
func (c *SendCase[T]) dequeue(x *exec, g *group) {
	if c.cs != nil {
		c.cs.sendq = rm(c.cs.sendq, g)
	}
}
func (c *SendCase[T]) native() bool {
	select {
	case c.ch <- c.v:
		return true
	default:
		return false
	}
}

func rm(q []*waiter, g *group) []*waiter {
	out := q[:0:0]
	for _, w := range q {
		if w.grp != g {
			out = append(out, w)
		}
	}
	return out
}

// touchWaiter makes the partner of a rendezvous depend on it.
func touchWaiter(w *waiter, cs *chanState) {
	w.th.hist = mix(w.th.hist, mix(cs.o.id, cs.o.wh))
}

// Select performs one ready case and returns its index; -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	x := X
	if x == nil {
		for i, c := range cases {
			if c.native() {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		return nativeBlock(cases)
	}
	g := &group{th: x.cur}
	anyReady := func() bool {
		if g.fired {
			return true
		}
		for _, c := range cases {
			if c.ready(x) {
				return true
			}
		}
		return false
	}
	k := KSelect
	if len(cases) == 1 && !hasDefault {
		if cases[0].isSend() {
			k = KSend
		} else {
			k = KRecv
		}
	}
	if hasDefault {
		if !Point(k, nil, true, nil) {
			return -1
		}
	} else {
		// The first arrival is a scheduling point of its own only through the
		// enabledness of the operation: the thread waits, queued on every case.
		if x.cur.starter != nil && !Point(KStart, nil, false, nil) {
			return -2 // arriving at the channel is visible to non-blocking partners
		}
		if !x.aborting {
			for i, c := range cases {
				c.enqueue(x, g, i)
			}
		}
		ok := Point(k, nil, true, anyReady)
		for _, c := range cases {
			c.dequeue(x, g)
		}
		if !ok {
			return -2
		}
		if g.fired {
			if cs := cases[g.idx].state(x); cs != nil {
				touch(x.cur, &cs.o, k, true)
				raceAcq(&cs.raceTok)
			}
			return g.idx
		}
	}
	// every channel involved is read by the decision
	var rdy []int
	for i, c := range cases {
		if cs := c.state(x); cs != nil {
			if c.ready(x) {
				rdy = append(rdy, i)
			} else {
				touch(x.cur, &cs.o, KSelect, false)
			}
		}
	}
	if len(rdy) == 0 {
		return -1
	}
	pick := rdy[0]
	if len(rdy) > 1 && x.bias != 0 {
		if x.bias == 2 {
			pick = rdy[len(rdy)-1]
		}
	} else if len(rdy) > 1 {
		pick = rdy[Choose(len(rdy), false, "select")]
	}
	for _, i := range rdy {
		if i != pick {
			touch(x.cur, &cases[i].state(x).o, KSelect, false)
		}
	}
	touch(x.cur, &cases[pick].state(x).o, k, true)
	cases[pick].exec(x)
	return pick
}

// nativeBlock blocks natively (background goroutines outside executions).
func nativeBlock(cases []Case) int {
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.(reflectCase).rcase())
	}
	i, v, ok := reflect.Select(rc)
	cases[i].(reflectCase).set(v, ok)
	return i
}

type reflectCase interface {
	rcase() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

func (c *RecvCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RecvCase[T]) set(v reflect.Value, ok bool) {
	c.Ok = ok
	if ok {
		c.V, _ = v.Interface().(T)
	}
}
func (c *SendCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SendCase[T]) set(v reflect.Value, ok bool) {}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := RecvC(ch)
	Select(false, c)
	return c.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvC(ch)
	Select(false, c)
	return c.V, c.Ok
}

// Send is ch <- v, curried.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendC(ch)(v)) }
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	x := X
	if x == nil {
		close(ch)
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	cs := x.chanOf(chanPtr(ch), ch)
	if !Point(KClose, &cs.o, true, nil) {
		return
	}
	raceRel(&cs.raceTok)
	if cs.closed {
		panic("close of closed channel")
	}
	for _, w := range cs.sendq {
		if !w.grp.fired {
			// a blocked sender panics; deliver by marking closed: its ready()
			// turns true and exec panics
			break
		}
	}
	close(ch)
	cs.closed = true
}

// Len is len(ch) as a visible read.
func Len[T any](ch <-chan T) int {
	if x := X; x != nil && ch != nil {
		cs := x.chanOf(chanPtr(ch), ch)
		Point(KRead, &cs.o, false, nil)
	}
	return len(ch)
}

// LenS is Len for send-only channels.
func LenS[T any](ch chan<- T) int {
	if x := X; x != nil && ch != nil {
		cs := x.chanOf(chanPtr(ch), ch)
		Point(KRead, &cs.o, false, nil)
	}
	return len(ch)
}

// RangeChan is range over a channel.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// BlockForever is select {}.
func BlockForever() {
	Point(KSelect, nil, false, func() bool { return false })
}

// TrySendTimer delivers a timer tick (non-blocking, no scheduling point).
func timerSend[T any](x *exec, ch chan T, v T) {
	cs := x.chanOf(chanPtr(ch), ch)
	cs.o.Fresh()
	cs.o.wh = mix(cs.o.wh, uint64(x.now))
	select {
	case ch <- v:
	default:
	}
}

// RangeMap iterates a map in a deterministic order (ascending keys).
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch any(keys[0]).(type) {
	case string:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(string) < any(keys[j]).(string) })
	case int:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(int) < any(keys[j]).(int) })
	case uint64:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(uint64) < any(keys[j]).(uint64) })
	case int64:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(int64) < any(keys[j]).(int64) })
	case [2]uint64:
		sort.Slice(keys, func(i, j int) bool {
			a, b := any(keys[i]).([2]uint64), any(keys[j]).([2]uint64)
			if a[0] != b[0] {
				return a[0] < b[0]
			}
			return a[1] < b[1]
		})
	default:
		s := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i := range keys {
			s[i] = fmt.Sprintf("%v", keys[i])
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return s[idx[i]] < s[idx[j]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		copy(keys, out)
	}
}

// ---------------------------------------------------------------- raw-address objects

type addrObj struct {
	o   Object
	tok byte
}

// AddrObj returns the shadow of a plain variable used with atomic functions.
func AddrObj(p unsafe.Pointer) (*Object, *byte) {
	x := X
	if x == nil {
		return nil, nil
	}
	a, _ := x.addrs.Get(uint64(uintptr(p)))
	if a == nil {
		a = &addrObj{}
		x.addrs.Set(uint64(uintptr(p)), a)
		x.keep = append(x.keep, p)
	}
	return &a.o, &a.tok
}
