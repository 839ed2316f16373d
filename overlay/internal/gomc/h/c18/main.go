// C18: the scalar accumulator conserves every delta per key and bucket.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

const golden = 0x9e3779b97f4a7c15

type cell struct{ k, b uint64 }

type sum struct {
	n   int64
	seq uint64
}

// collide returns a bucket with which key2 packs like (key, bucket); the keys
// must have the same parity.
func collide(key, bucket, key2 uint64) uint64 { return bucket ^ (key*golden^key2*golden)>>1 }

// inverse of golden modulo 2^64
func inverse() uint64 {
	x := uint64(golden)
	for i := 0; i < 6; i++ {
		x *= 2 - golden*x
	}
	return x
}

// acc is either a shard or a sharded accumulator.
type acc interface {
	ingest(tfd.Envelope)
	flush() []tfd.SBatch
	flushKey(k uint64) ([]tfd.SBatch, bool)
}

type single struct{ s *tfd.SShard }

func (a single) ingest(e tfd.Envelope) { a.s.Ingest(e) }
func (a single) flush() (out []tfd.SBatch) {
	a.s.Flush(&out)
	return
}
func (a single) flushKey(k uint64) ([]tfd.SBatch, bool) {
	var out []tfd.SBatch
	a.s.FlushKey(k, &out)
	return out, true
}

type sharded struct{ a *tfd.SAccumulator }

func (a sharded) ingest(e tfd.Envelope)                  { a.a.Ingest(e) }
func (a sharded) flush() []tfd.SBatch                    { return a.a.FlushAll() }
func (a sharded) flushKey(k uint64) ([]tfd.SBatch, bool) { return nil, false }

// action is one letter: an envelope, or a flush.
type action struct {
	env   tfd.Envelope
	flush int // 1 whole, 2 key
}

func in(c cell, d int64, seq uint64) action {
	return action{env: tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: c.k, Time: tfd.TimeFootprint{BucketID: c.b}}, Delta: d, SeqEnd: seq}}
}

func vec(a action) action {
	a.env.Channel = tfd.ChannelVector
	a.env.Footprint.Scope = tfd.ChannelVector
	return a
}

func all(a action) action { a.env.Footprint.Time.All = true; return a }

func flushAll() action { return action{flush: 1} }
func flushKey(k uint64) action {
	return action{flush: 2, env: tfd.Envelope{Footprint: tfd.Footprint{KeyID: k}}}
}
func (a action) String() string {
	switch a.flush {
	case 1:
		return "flush"
	case 2:
		return fmt.Sprintf("flushKey(%x)", a.env.Footprint.KeyID)
	}
	lane := ""
	if a.env.Channel != tfd.ChannelScalar {
		lane = " vector"
	}
	return fmt.Sprintf("(%x,%x)%+d@%d%s", a.env.Footprint.KeyID, a.env.Footprint.Time.BucketID, a.env.Delta, a.env.SeqEnd, lane)
}

// run executes a sequence followed by a flush, comparing every flush.
func run(q *hk.Seq, what string, a acc, seq []action) {
	m := map[cell]sum{}
	fail := func(i int, f string, args ...any) {
		var s []string
		for j, x := range seq {
			if j > i {
				break
			}
			if j > 40 {
				s = append(s, fmt.Sprintf("... %d", i+1))
				break
			}
			s = append(s, x.String())
		}
		q.Fail("%s: %s after %s", what, fmt.Sprintf(f, args...), strings.Join(s, " "))
	}
	compare := func(i int, out []tfd.SBatch, pick func(cell) bool) {
		seen := make(map[cell]bool, len(out))
		for _, b := range out {
			c := cell{b.KeyID, b.BucketID}
			w, ok := m[c]
			switch {
			case seen[c]:
				fail(i, "two batches for %x", c)
			case !ok || !pick(c):
				fail(i, "an unexpected batch %+v", b)
			case b.NetDelta != w.n || b.SeqEnd != w.seq:
				fail(i, "cell %x has delta %d and mark %d, want %d and %d", c, b.NetDelta, b.SeqEnd, w.n, w.seq)
			}
			seen[c] = true
		}
		for c := range m {
			if pick(c) {
				if !seen[c] {
					fail(i, "cell %x is missing (delta %d)", c, m[c].n)
				}
				delete(m, c)
			}
		}
	}
	any := func(cell) bool { return true }
	for i, x := range seq {
		switch x.flush {
		case 1:
			compare(i, a.flush(), any)
		case 2:
			k := x.env.Footprint.KeyID
			if out, ok := a.flushKey(k); ok {
				compare(i, out, func(c cell) bool { return c.k == k })
			}
		default:
			a.ingest(x.env)
			if x.env.Channel == tfd.ChannelScalar {
				c := cell{x.env.Footprint.KeyID, x.env.Footprint.Time.BucketID}
				w := m[c]
				w.n += x.env.Delta
				if x.env.SeqEnd > w.seq {
					w.seq = x.env.SeqEnd
				}
				m[c] = w
			}
		}
	}
	compare(len(seq)-1, a.flush(), any)
	if out := a.flush(); len(out) != 0 {
		fail(len(seq)-1, "a second flush yields %d batches", len(out))
	}
	q.Case()
	q.Step(len(seq) + 2)
}

// cells with all kinds of resemblance.
var cells = []cell{{3, 7}, {5, collide(3, 7, 5)}, {3, 8}, {3, 7 | 1<<63}, {0, 0}, {inverse(), 0}, {0, 1 << 63}, {7, 3}, {9, collide(3, 7, 9)}, {4, 0}}

type maker struct {
	name string
	make func() acc
}

func singles(orders ...uint) (ms []maker) {
	for _, o := range orders {
		ms = append(ms, maker{fmt.Sprintf("shard of order %d", o), func() acc { return single{tfd.GomcShard(o, 3, time.Millisecond)} }})
	}
	return
}

func shardeds(order int, ps ...int) (ms []maker) {
	for _, p := range ps {
		ms = append(ms, maker{fmt.Sprintf("%d shards of order %d", p, order), func() acc { return sharded{tfd.NewSAccumulator(p, order, 3, time.Millisecond)} }})
	}
	return
}

// sequences: all sequences of a length over an alphabet.
func sequences(al []action, length int, ms []maker) func(*hk.Seq) {
	return func(q *hk.Seq) {
		q.Bound("all sequences of %d over %d actions %v, %d tables", length, len(al), al, len(ms))
		seq := make([]action, length)
		for mi, m := range ms {
			var build func(i int)
			build = func(i int) {
				if i == length {
					run(q, m.name, m.make(), seq)
					return
				}
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				for _, a := range al {
					seq[i] = a
					build(i + 1)
				}
			}
			build(0)
			q.State(uint64(mi))
		}
	}
}

// fills: many distinct cells in tables of any size, flushed whole or by key.
func fills(max int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		ms := append(singles(0, 1, 2, 3, 5, 8), append(shardeds(1, -1, 0, 1, 2, 3, 4, 7, 8, 64), append(shardeds(0, 1, 3), shardeds(4, 1, 2, 16)...)...)...)
		ns := []int{1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 15, 16, 17, 23, 24, 25, 47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 513, 1000, max}
		q.Bound("%d tables, %d numbers of cells up to %d, 5 shapes, 4 ways to flush", len(ms), len(ns), max)
		for mi, m := range ms {
			for _, n := range ns {
				for shape := 0; shape < 5; shape++ {
					for how := 0; how < 4; how++ {
						if q.Over() {
							q.Incomplete("deadline")
							return
						}
						var seq []action
						at := func(i int) cell {
							u := uint64(i)
							switch shape {
							case 0:
								return cell{u * 0x1234567, u % 7}
							case 1: // one packed value
								if n > 520 {
									return cell{2 * (u % 400), collide(0, 5, 2*(u%400))}
								}
								return cell{2 * u, collide(0, 5, 2*u)}
							case 2: // one key, buckets with equal low bits
								return cell{1, u << 24}
							case 3: // few keys
								return cell{u % 3, u}
							}
							return cell{u / 2, u % 2 << 63}
						}
						for i := 0; i < n; i++ {
							seq = append(seq, in(at(i), int64(i+1), uint64(n-i)))
							if i%3 == 2 {
								seq = append(seq, in(at(i/2), -int64(i), uint64(i)))
							}
							if how == 1 && i%5 == 4 || how == 2 && i == n/2 {
								seq = append(seq, flushKey(at(i/3).k))
							}
							if how == 3 && i%29 == 28 {
								seq = append(seq, flushAll())
							}
						}
						if how > 0 {
							seq = append(seq, flushKey(at(0).k), in(at(n-1), 5, 1), in(at(0), 9, 0), flushKey(at(n-1).k), in(at(n/2), -1, 3))
						}
						run(q, m.name, m.make(), seq)
					}
				}
				q.State(rt.Mix(uint64(mi), uint64(n)))
			}
		}
	}
}

// reuse: one accumulator over many rounds of fill and flush.
func reuse(q *hk.Seq) {
	q.Bound("200 rounds of fill and flush on one table, 8 tables")
	for mi, m := range append(singles(0, 1, 3, 6), shardeds(1, 1, 2, 5, 8)...) {
		var seq []action
		for r := 0; r < 200; r++ {
			for i := 0; i < 1+r*7%50; i++ {
				seq = append(seq, in(cell{uint64(i*r) % 17, uint64(i)}, int64(r-100), uint64(i)))
			}
			if r%3 == 0 {
				seq = append(seq, flushKey(uint64(r)%17))
			} else {
				seq = append(seq, flushAll())
			}
		}
		run(q, m.name, m.make(), seq)
		q.State(uint64(mi))
	}
}

// marks: extreme deltas and marks; sums wrap like int64.
func marks(q *hk.Seq) {
	ds := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 62}
	ss := []uint64{0, 1, 1<<63 - 1, 1 << 63, math.MaxUint64}
	q.Bound("all sequences of 3 over %d deltas x %d marks on one cell", len(ds), len(ss))
	var al []action
	for _, d := range ds {
		for _, s := range ss {
			al = append(al, in(cells[0], d, s))
		}
	}
	for i := range al {
		for j := range al {
			for k := range al {
				run(q, "shard", single{tfd.GomcShard(2, 3, time.Millisecond)}, []action{al[i], al[j], al[k]})
			}
		}
		q.State(uint64(i))
	}
}

func main() {
	hk.Main(hk.Check{ID: "C18",
		Rule:        "an execution is one sequence of ingestions and flushes on one table; every flush is compared with sums and maxima per cell",
		Assumptions: []string{"sums wrap like int64"},
		Jobs: func(tier string) []hk.Job {
			d, max := 0, 3000
			if tier == "thorough" {
				d, max = 1, 20000
			}
			few := []action{in(cells[0], 1, 3), in(cells[1], -2, 2), in(cells[0], -1, 1), in(cells[2], 4, 9), flushKey(3), flushKey(5), flushAll()}
			alike := []action{in(cells[3], 1, 3), in(cells[0], -2, 2), in(cells[4], 4, 0), in(cells[5], 8, 1), in(cells[6], 16, 2), in(cells[1], 32, 1), in(cells[8], 64, 1), flushKey(3), flushKey(0), flushAll()}
			lanes := []action{in(cells[0], 1, 3), all(in(cell{3, 0}, 2, 5)), vec(in(cells[0], 4, 9)), vec(in(cells[7], 8, 9)), in(cells[7], 16, 0), in(cells[1], 32, 0), in(cells[5], -1, 1), flushAll()}
			wide := []action{}
			for _, c := range cells {
				wide = append(wide, in(c, 1+int64(len(wide)), uint64(len(wide))))
			}
			wide = append(wide, flushKey(3), flushAll())
			return []hk.Job{
				{Name: "few-cells", Weight: 6, Seq: sequences(few, 7+d, singles(0, 1))},
				{Name: "alike", Weight: 6, Seq: sequences(alike, 6+d, singles(1, 2))},
				{Name: "sharded", Weight: 6, Seq: sequences(lanes, 6+d, shardeds(1, 1, 2, 3, 8))},
				{Name: "wide", Weight: 6, Seq: sequences(wide, 5+d, singles(0, 1, 2, 3))},
				{Name: "fills", Weight: 5, Seq: fills(max)},
				{Name: "reuse", Weight: 2, Seq: reuse},
				{Name: "marks", Weight: 2, Seq: marks},
			}
		}})
}
