// C21: the vector lane keeps per-key order and an audit link.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

func env(ch tfd.Channel, key, bucket uint64, d int64, seq uint64) tfd.Envelope {
	e := tfd.Envelope{Channel: ch, Footprint: tfd.Footprint{KeyID: key, Time: tfd.TimeFootprint{BucketID: bucket, All: d%2 == 0}, Scope: ch}, Delta: d, SeqEnd: seq}
	for i := range e.HashPrev {
		e.HashPrev[i] = byte(d) + 100
	}
	return e
}

// link is what a fresh lane gives to an operation of this key and mark.
func link(key, seq uint64) [16]byte {
	return tfd.NewVRouter().Route(key).Enqueue(tfd.Envelope{Channel: tfd.ChannelVector, Footprint: tfd.Footprint{KeyID: key}, SeqEnd: seq}).HashPrev
}

func linked(e tfd.Envelope) tfd.Envelope {
	e.HashPrev = link(e.Footprint.KeyID, e.SeqEnd)
	return e
}

func equal(a, b []tfd.Envelope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func show(es []tfd.Envelope) string {
	var s []string
	for i, e := range es {
		if i == 8 {
			s = append(s, fmt.Sprintf("... %d", len(es)))
			break
		}
		s = append(s, fmt.Sprintf("%c(%x,%x)%+d@%d^%x", "SV"[e.Channel&1], e.Footprint.KeyID, e.Footprint.Time.BucketID, e.Delta, e.SeqEnd, e.HashPrev[:3]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// lane is a vector lane with the queues it should hold. Drained slices are
// kept with copies: they must not change afterwards.
type lane struct {
	fail  func(string, ...any)
	route func(key uint64) *tfd.VActor
	want  map[uint64][]tfd.Envelope
	kept  [][2][]tfd.Envelope
}

func (l *lane) drain(key uint64, got []tfd.Envelope) {
	if !equal(got, l.want[key]) {
		l.fail("drained %s of key %x, want %s", show(got), key, show(l.want[key]))
	}
	l.kept = append(l.kept, [2][]tfd.Envelope{got, l.want[key]})
	delete(l.want, key)
}

func (l *lane) end() {
	for _, k := range l.kept {
		if !equal(k[0], k[1]) {
			l.fail("a drained result changed later from %s to %s", show(k[1]), show(k[0]))
		}
	}
}

type sums map[[2]uint64]int64

func (s sums) OnSBatches(bs []tfd.SBatch) {
	for _, b := range bs {
		s[[2]uint64{b.KeyID, b.BucketID}] += b.NetDelta
	}
}

func pipeline(s sums, buffer int) *tfd.Pipeline {
	return tfd.NewPipeline(tfd.PipelineOptions{Shards: 1, OrderPow2: 1, CountThresh: 2, TimeCap: time.Second, FlushInterval: time.Second, Buffer: buffer, SSink: s})
}

func (s sums) check(fail func(string, ...any), want sums) {
	for c, n := range s {
		if want[c] != n {
			fail("the scalar lane delivered %d for %x, want %d", n, c, want[c])
		}
	}
	for c, n := range want {
		if s[c] != n {
			fail("the scalar lane delivered %d for %x, want %d", s[c], c, n)
		}
	}
}

// actors: all sequences of calls on routers and actors.
func actors(depth int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		type act struct {
			key  uint64
			kind byte // e enqueue, s scalar, d drain
			seq  uint64
		}
		al := []act{{1, 'e', 5}, {1, 'e', 3}, {2, 'e', 5}, {1, 'e', 0}, {1, 'd', 0}, {2, 'd', 0}, {1, 's', 5}, {0, 'e', 9}, {0, 'd', 0}}
		q.Bound("all sequences of %d calls over %d (three keys)", depth, len(al))
		seq := make([]act, depth)
		var visit func(n int)
		visit = func(n int) {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			if n < depth {
				for _, a := range al {
					seq[n] = a
					visit(n + 1)
				}
				return
			}
			r := tfd.NewVRouter()
			l := &lane{fail: q.Fail, want: map[uint64][]tfd.Envelope{}}
			held := r.Route(1)
			for i, a := range seq {
				t := r.Route(a.key)
				if a.key == 1 && i%2 == 1 {
					t = held
				}
				switch a.kind {
				case 'e':
					e := env(tfd.ChannelVector, a.key, uint64(i), int64(i+1), a.seq)
					got := t.Enqueue(e)
					if want := linked(e); got != want {
						q.Fail("%v: enqueued %s, want %s", seq, show([]tfd.Envelope{got}), show([]tfd.Envelope{want}))
					}
					l.want[a.key] = append(l.want[a.key], got)
				case 's':
					e := env(tfd.ChannelScalar, a.key, uint64(i), int64(i+1), a.seq)
					t.Enqueue(e)
				case 'd':
					l.drain(a.key, t.Drain())
				}
				q.Step(1)
			}
			for k := uint64(0); k < 4; k++ {
				l.drain(k, r.Route(k).Drain())
				l.drain(k, r.Route(k).Drain())
			}
			l.end()
			q.Case()
		}
		visit(0)
		q.State(uint64(depth))
	}
}

// links: the link depends on key and mark only and tells them apart.
func links(q *hk.Seq) {
	ks := []uint64{0, 1, 2, 3, 255, 256, 1 << 32, 1<<32 + 1, 1 << 63, math.MaxUint64, tfd.HashKey("a"), tfd.HashKey("b")}
	q.Bound("%d keys x %d marks in every order of two, all fields of the envelope varied", len(ks), len(ks))
	seen := map[[16]byte][2]uint64{}
	for _, k := range ks {
		for _, s := range ks {
			h := link(k, s)
			if p, ok := seen[h]; ok || h == [16]byte{} {
				q.Fail("operations (key %x, mark %x) and (key %x, mark %x) have the link %x", k, s, p[0], p[1], h)
			}
			seen[h] = [2]uint64{k, s}
		}
	}
	r := tfd.NewVRouter()
	for _, k := range ks {
		for _, s := range ks {
			for _, t := range ks {
				for i := 0; i < 4; i++ {
					a := r.Route(k)
					e1, e2 := env(1, k, uint64(i), int64(i), s), env(1, k, t, math.MinInt64+int64(i), t)
					if i%2 == 0 {
						e1.Footprint.Scope = tfd.ChannelScalar
					}
					a.Enqueue(e1)
					a.Enqueue(e2)
					if got, want := a.Drain(), []tfd.Envelope{linked(e1), linked(e2)}; !equal(got, want) {
						q.Fail("drained %s, want %s", show(got), show(want))
					}
					q.Case()
					q.Step(2)
				}
			}
		}
	}
	q.State(1)
}

// long: long queues and many keys.
func long(q *hk.Seq) {
	q.Bound("queues of 0 to 300, 1000 and 70000 envelopes, alone and among 1 to 5000 other keys")
	n := 0
	run := func(length, others int) {
		r := tfd.NewVRouter()
		l := &lane{fail: q.Fail, want: map[uint64][]tfd.Envelope{}}
		for i := 0; i < length || i < others; i++ {
			if i < length {
				e := env(1, 7, uint64(i), int64(i), uint64(i*7919)%1000)
				l.want[7] = append(l.want[7], linked(e))
				r.Route(7).Enqueue(e)
			}
			if i < others {
				k := uint64(i) << (i % 3 * 20) * 8
				e := env(1, k, 1, int64(i), uint64(i))
				l.want[k] = append(l.want[k], linked(e))
				r.Route(k).Enqueue(e)
			}
			q.Step(1)
		}
		l.drain(7, r.Route(7).Drain())
		for i := others - 1; i >= 0; i-- {
			k := uint64(i) << (i % 3 * 20) * 8
			l.drain(k, r.Route(k).Drain())
		}
		for i := 0; i < length && i < 50; i++ {
			e := env(1, 7, 1, 3, uint64(i))
			l.want[7] = append(l.want[7], linked(e))
			r.Route(7).Enqueue(e)
		}
		l.drain(7, r.Route(7).Drain())
		l.end()
		n++
		q.Case()
		q.State(uint64(n))
	}
	for i := 0; i <= 300; i++ {
		run(i, 0)
		run(2, i)
	}
	run(1000, 1000)
	run(70000, 3)
	run(10, 5000)
}

// routed: all sequences of operations through a pipeline in one of its
// states: not started, started, stopped.
func routed(depth int) func() {
	return func() {
		fail := func(f string, a ...any) { rt.Fail(f, a...) }
		got, want := sums{}, sums{}
		p := pipeline(got, 2*depth)
		phase := rt.Choose(3, false, "phase")
		if phase == 2 {
			p.Stop()
		} else if phase == 1 {
			p.Start()
		}
		l := &lane{fail: fail, want: map[uint64][]tfd.Envelope{}}
		trace := []string{"not started", "started", "stopped"}[phase] + ":"
		ops := []string{"v1", "v2", "u1", "n1", "s1", "s2", "d1", "d2"}
		for i := 0; i < depth; i++ {
			op := ops[rt.Choose(len(ops), false, "op")]
			trace += " " + op
			key := uint64(op[1] - '0')
			bucket := uint64(i % 2)
			switch op[0] {
			case 'v', 'u', 'n':
				seq := uint64(9 - i)
				if op[0] == 'u' {
					seq = 4
				}
				e := env(tfd.ChannelVector, key, bucket, int64(1)<<(3*i), seq)
				if op[0] == 'u' {
					e.Footprint.Scope = tfd.ChannelScalar
					e.Delta = -e.Delta
				}
				var ps []tfd.Envelope
				f := func(x tfd.Envelope) { ps = append(ps, x) }
				if op[0] == 'n' {
					f = nil
				}
				p.Handle(e, f)
				if f != nil && !equal(ps, []tfd.Envelope{linked(e)}) {
					rt.Fail("%s: persisted %s, want %s", trace, show(ps), show([]tfd.Envelope{linked(e)}))
				}
				l.want[key] = append(l.want[key], linked(e))
			case 's':
				e := env(tfd.ChannelScalar, key, bucket, int64(1)<<(3*i), uint64(i))
				if i%2 == 1 {
					e.Delta = -e.Delta
				}
				p.Handle(e, func(x tfd.Envelope) { rt.Fail("%s: a scalar operation is persisted as vector: %v", trace, x) })
				if phase != 2 {
					want[[2]uint64{key, bucket}] += e.Delta
				}
			case 'd':
				l.drain(key, p.DrainV(key))
			}
		}
		p.Stop()
		for k := uint64(0); k < 4; k++ {
			l.drain(k, p.DrainV(k))
			l.drain(k, p.DrainV(k))
		}
		l.end()
		got.check(fail, want)
	}
}

// racing runs handlers in parallel under the race detector; it keeps no
// records, so that only the lane's own accesses meet.
func racing(direct bool, progs ...string) func() {
	return func() {
		p := pipeline(sums{}, 8)
		r := tfd.NewVRouter()
		var hs []*rt.Handle
		for _, prog := range progs {
			hs = append(hs, rt.GoNamed(prog, func() {
				for _, c := range []byte(prog) {
					key := uint64(c & 3)
					switch {
					case c >= 'x' && direct:
						r.Route(key).Drain()
					case c >= 'x':
						p.DrainV(key)
					case direct:
						r.Route(key).Enqueue(env(tfd.ChannelVector, key, 1, 1, 3))
					default:
						p.Handle(env(tfd.ChannelVector, key, 1, 1, 3), nil)
					}
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
	}
}

// event is a completed call of a concurrent history on one key.
type event struct {
	what      string
	put       bool
	e         tfd.Envelope
	got       []tfd.Envelope
	call, ret int
}

// explained reports whether some order of the calls that respects their real
// time makes every drain return what a queue would.
func explained(evs []*event) bool {
	done := make([]bool, len(evs))
	var q []tfd.Envelope
	var try func(left int) bool
	try = func(left int) bool {
		if left == 0 {
			return len(q) == 0
		}
		for i, e := range evs {
			if done[i] {
				continue
			}
			ok := true
			for j, f := range evs {
				if !done[j] && f.ret < e.call {
					ok = false
				}
			}
			if !ok {
				continue
			}
			old := q
			if e.put {
				q = append(q[:len(q):len(q)], e.e)
			} else if equal(q, e.got) {
				q = nil
			} else {
				continue
			}
			done[i] = true
			if try(left - 1) {
				return true
			}
			done[i] = false
			q = old
		}
		return false
	}
	return try(len(evs))
}

// concurrent runs handlers in parallel. a and b are vector operations of two
// keys (persisted), A of the first key without persistence, s scalar ones, x
// and y drains.
func concurrent(direct bool, progs ...string) func() {
	return func() {
		fail := func(f string, a ...any) {
			rt.Fail("%s (handlers: %s)", fmt.Sprintf(f, a...), strings.Join(progs, " | "))
		}
		got, want := sums{}, sums{}
		p := pipeline(got, 8)
		r := tfd.NewVRouter()
		clock := 0
		var hist [3][]*event
		call := func(key int, ev *event, f func()) {
			rt.Invoke()
			clock++
			ev.call = clock
			f()
			rt.Respond()
			clock++
			ev.ret = clock
			hist[key] = append(hist[key], ev)
		}
		var hs []*rt.Handle
		id := 0
		for _, prog := range progs {
			prog, id0 := prog, id
			id += len(prog)
			for i, c := range prog {
				if c == 's' {
					want[[2]uint64{1, 1}] += int64(1) << (3 * (id0 + i))
				}
			}
			hs = append(hs, rt.GoNamed(prog, func() {
				for i, c := range prog {
					n := id0 + i
					d := int64(1) << (3 * n)
					switch c {
					case 'a', 'b', 'A':
						key := 1
						if c == 'b' {
							key = 2
						}
						e := env(tfd.ChannelVector, uint64(key), 1, d, uint64(9-n))
						w := linked(e)
						call(key, &event{what: string(c), put: true, e: w}, func() {
							if direct {
								if x := r.Route(uint64(key)).Enqueue(e); x != w {
									fail("enqueued %s, want %s", show([]tfd.Envelope{x}), show([]tfd.Envelope{w}))
								}
								return
							}
							var ps []tfd.Envelope
							f := func(x tfd.Envelope) { ps = append(ps, x) }
							if c == 'A' {
								f = nil
							}
							p.Handle(e, f)
							if f != nil && !equal(ps, []tfd.Envelope{w}) {
								fail("persisted %s, want %s", show(ps), show([]tfd.Envelope{w}))
							}
						})
					case 's':
						p.Handle(env(tfd.ChannelScalar, 1, 1, d, uint64(n)), func(x tfd.Envelope) { fail("a scalar operation is persisted: %v", x) })
					case 'x', 'y':
						key := 1 + int(c-'x')
						ev := &event{what: string(c)}
						call(key, ev, func() {
							if direct {
								ev.got = r.Route(uint64(key)).Drain()
							} else {
								ev.got = p.DrainV(uint64(key))
							}
						})
					}
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		for key := 1; key <= 2; key++ {
			ev := &event{what: "last"}
			call(key, ev, func() {
				if direct {
					ev.got = r.Route(uint64(key)).Drain()
				} else {
					ev.got = p.DrainV(uint64(key))
				}
			})
			if !explained(hist[key]) {
				var s []string
				for _, e := range hist[key] {
					s = append(s, fmt.Sprintf("%s[%d,%d]", e.what, e.call, e.ret))
					if !e.put {
						s = append(s, show(e.got))
					}
				}
				fail("no order of the calls on key %d explains the drains: %s", key, strings.Join(s, " "))
			}
		}
		p.Stop()
		got.check(fail, want)
	}
}

func main() {
	hk.Main(hk.Check{ID: "C21",
		Rule:        "an execution is one sequence or interleaving of enqueues, drains and pipeline operations; drained and persisted envelopes are compared with a FIFO queue per key, concurrent ones by searching an order that explains them",
		Assumptions: []string{"a router serves one vector operation per key and mark the same link whenever it comes"},
		Jobs: func(tier string) []hk.Job {
			d, p := 5, 3
			if tier == "thorough" {
				d, p = 6, 4
			}
			js := []hk.Job{
				{Name: "actors", Weight: 3, Seq: actors(d)},
				{Name: "links", Weight: 1, Seq: links},
				{Name: "long", Weight: 1, Seq: long},
				{Name: "routed", Weight: 5, Bounds: hk.P(0), Body: routed(d)},
			}
			for i, progs := range [][]string{{"aa", "ab", "xx"}, {"aax", "bay"}, {"as", "sb", "xA"}, {"ab", "ba", "xy"}, {"a", "a", "x", "b"}} {
				for _, direct := range []bool{false, true} {
					name := fmt.Sprintf("pipeline/concurrent%d", i)
					if direct {
						name = fmt.Sprintf("router/concurrent%d", i)
						if i == 2 {
							continue
						}
					}
					js = append(js, hk.Job{Name: name, Weight: 4, Bounds: hk.P(p), Body: concurrent(direct, progs...)})
				}
			}
			for i, progs := range [][]string{{"aa", "ab"}, {"aab", "xy"}, {"a", "b", "y"}, {"y", "z", "y"}} {
				js = append(js, hk.Job{Name: fmt.Sprintf("pipeline/race%d", i), Weight: 2, Bounds: hk.P(p + 1), Body: racing(false, progs...), Race: true})
				js = append(js, hk.Job{Name: fmt.Sprintf("router/race%d", i), Weight: 2, Bounds: hk.P(p + 1), Body: racing(true, progs...), Race: true})
			}
			return js
		}})
}
