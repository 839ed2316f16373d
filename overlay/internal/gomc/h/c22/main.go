// C22: replaying the logs reconstructs exactly the applied state.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

type cell = [2]uint64

func env(ch tfd.Channel, c cell, d int64, seq uint64) tfd.Envelope {
	return tfd.Envelope{Channel: ch, Footprint: tfd.Footprint{KeyID: c[0], Time: tfd.TimeFootprint{BucketID: c[1]}, Scope: ch}, Delta: d, SeqEnd: seq}
}

func batch(e tfd.Envelope) tfd.SBatch {
	return tfd.SBatch{KeyID: e.Footprint.KeyID, BucketID: e.Footprint.Time.BucketID, NetDelta: e.Delta, SeqEnd: e.SeqEnd}
}

func spec(ops []tfd.Envelope) map[cell]int64 {
	m := map[cell]int64{}
	for _, e := range ops {
		m[cell{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
	}
	return m
}

// same compares cells; absent and zero are the same.
func same(got, want map[cell]int64) bool {
	for c, n := range got {
		if want[c] != n {
			return false
		}
	}
	for c, n := range want {
		if got[c] != n {
			return false
		}
	}
	return true
}

func show(ops []tfd.Envelope) string {
	var s []string
	for i, e := range ops {
		if i == 12 {
			s = append(s, fmt.Sprintf("... %d", len(ops)))
			break
		}
		s = append(s, fmt.Sprintf("%c(%x,%x)%+d@%d", "SV"[e.Channel], e.Footprint.KeyID, e.Footprint.Time.BucketID, e.Delta, e.SeqEnd))
	}
	return strings.Join(s, " ")
}

func split(ops []tfd.Envelope) (s []tfd.SBatch, v []tfd.Envelope) {
	for _, e := range ops {
		if e.Channel == tfd.ChannelScalar {
			s = append(s, batch(e))
		} else {
			v = append(v, e)
		}
	}
	return
}

func permutations(n int) (out [][]int) {
	var build func(p []int, left uint)
	build = func(p []int, left uint) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if left>>i&1 == 1 {
				build(append(p[:len(p):len(p)], i), left&^(1<<i))
			}
		}
	}
	build(nil, 1<<n-1)
	return
}

var perms [9][][]int

func init() {
	for n := range perms {
		if n < 8 {
			perms[n] = permutations(n)
		}
	}
}

// partitions lists ways to coalesce n batches: the group of each.
func partitions(n int) (out [][]int) {
	var build func(p []int, m int)
	build = func(p []int, m int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for g := 0; g <= m; g++ {
			mm := m
			if g == m {
				mm++
			}
			build(append(p[:len(p):len(p)], g), mm)
		}
	}
	build(nil, 0)
	return
}

// coalesce merges the batches of equal cell within each group.
func coalesce(s []tfd.SBatch, group []int) (out []tfd.SBatch) {
	type gc struct {
		g int
		c cell
	}
	at := map[gc]int{}
	for i, b := range s {
		k := gc{group[i], cell{b.KeyID, b.BucketID}}
		if j, ok := at[k]; ok {
			out[j].NetDelta += b.NetDelta
			if b.SeqEnd > out[j].SeqEnd {
				out[j].SeqEnd = b.SeqEnd
			}
			continue
		}
		at[k] = len(out)
		out = append(out, b)
	}
	return
}

// broken splits every batch in two (and adds zeros).
func broken(s []tfd.SBatch) (out []tfd.SBatch) {
	for i, b := range s {
		c := b
		c.NetDelta = b.NetDelta/2 + int64(i)
		b.NetDelta -= c.NetDelta
		out = append(out, c, b)
	}
	return
}

type checker struct {
	q    *hk.Seq
	ops  []tfd.Envelope
	want map[cell]int64
}

func (c *checker) state(what string, s *tfd.State) {
	if got := s.Cells(); !same(got, c.want) {
		c.q.Fail("%s gives %v, applied one by one %v: %s", what, got, c.want, show(c.ops))
	}
	c.q.Step(1)
}

func (c *checker) replay(what string, s []tfd.SBatch, v []tfd.Envelope) {
	st := tfd.NewState()
	s0, v0 := append([]tfd.SBatch(nil), s...), append([]tfd.Envelope(nil), v...)
	st.Reconstruct(s0, v0)
	c.state(what, st)
}

func (c *checker) baseline() {
	st := tfd.NewState()
	st.BaselineApply(append([]tfd.Envelope(nil), c.ops...))
	c.state("BaselineApply", st)
	st = tfd.NewState()
	for i := range c.ops {
		st.BaselineApply(c.ops[i : i+1 : i+1])
	}
	c.state("BaselineApply one by one", st)
}

// orders: all lists of operations; all orders of the batches and of the
// envelopes, all coalescings, all cuts into two steps.
func orders(al []tfd.Envelope, length int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		q.Bound("all lists of up to %d operations over %d; all orders of batches and of envelopes, all coalescings and splits, all cuts", length, len(al))
		var visit func(ops []tfd.Envelope)
		visit = func(ops []tfd.Envelope) {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			c := &checker{q, ops, spec(ops)}
			c.baseline()
			s, v := split(ops)
			for _, p := range perms[len(s)] {
				t := make([]tfd.SBatch, len(s))
				for i, j := range p {
					t[i] = s[j]
				}
				c.replay("reconstruction with batches in another order", t, v)
			}
			for _, p := range perms[len(v)] {
				w := make([]tfd.Envelope, len(v))
				for i, j := range p {
					w[i] = v[j]
				}
				c.replay("reconstruction with envelopes in another order", s, w)
			}
			for _, g := range partitions(len(s)) {
				c.replay("reconstruction from coalesced batches", coalesce(s, g), v)
			}
			c.replay("reconstruction from split batches", broken(s), v)
			c.replay("reconstruction from compressed batches", tfd.SimpleVSA{}.Compress(append([]tfd.SBatch(nil), s...)), v)
			for i := 0; i <= len(s); i++ {
				for j := 0; j <= len(v); j++ {
					st := tfd.NewState()
					st.Reconstruct(append([]tfd.SBatch(nil), s[:i]...), append([]tfd.Envelope(nil), v[:j]...))
					st.Reconstruct(append([]tfd.SBatch(nil), s[i:]...), append([]tfd.Envelope(nil), v[j:]...))
					c.state(fmt.Sprintf("reconstruction in two steps (%d, %d)", i, j), st)
					st = tfd.NewState()
					st.Reconstruct(append([]tfd.SBatch(nil), s[i:]...), append([]tfd.Envelope(nil), v[:j]...))
					st.Reconstruct(append([]tfd.SBatch(nil), s[:i]...), append([]tfd.Envelope(nil), v[j:]...))
					c.state(fmt.Sprintf("reconstruction in two steps, later batches first (%d, %d)", i, j), st)
				}
			}
			q.Case()
			if len(ops) < length {
				for _, e := range al {
					visit(append(ops[:len(ops):len(ops)], e))
				}
			}
		}
		visit(nil)
		q.State(uint64(length))
	}
}

// sharded passes operations through the accumulator and compression.
func sharded(length int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		al := []tfd.Envelope{env(0, cell{1, 1}, 1, 1), env(0, cell{1, 1}, -1, 5), env(0, cell{1, 2}, 4, 2), env(0, cell{0, 0}, 16, 3), env(1, cell{1, 1}, -64, 4), env(1, cell{2, 1}, 256, 0)}
		q.Bound("all lists of up to %d operations over %d, flushed after every subset of positions", length, len(al))
		var visit func(ops []tfd.Envelope)
		visit = func(ops []tfd.Envelope) {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			c := &checker{q, ops, spec(ops)}
			if len(ops) > 0 {
				for cut := 0; cut < 1<<(len(ops)-1); cut++ {
					acc := tfd.NewSAccumulator(1+cut%3, 1, 2, time.Millisecond)
					var s []tfd.SBatch
					var v []tfd.Envelope
					for i, e := range ops {
						if e.Channel == tfd.ChannelScalar {
							acc.Ingest(e)
						} else {
							v = append(v, e)
						}
						if cut>>i&1 == 1 || i == len(ops)-1 {
							s = append(s, tfd.SimpleVSA{}.Compress(acc.FlushAll())...)
						}
					}
					c.replay("reconstruction of the two lanes", s, v)
				}
				q.Case()
			}
			if len(ops) < length {
				for _, e := range al {
					visit(append(ops[:len(ops):len(ops)], e))
				}
			}
		}
		visit(nil)
		q.State(uint64(length))
	}
}

// long: long logs with equal, falling and extreme sequence marks.
func long(q *hk.Seq) {
	q.Bound("logs of 1 to 64 and some up to 20000 operations, 6 shapes")
	for n := 1; n <= 70; n++ {
		l := n
		if n > 64 {
			l = []int{100, 256, 1000, 4097, 10000, 20000}[n-65]
		}
		for shape := 0; shape < 6; shape++ {
			ops := make([]tfd.Envelope, l)
			for i := range ops {
				u := uint64(i)
				seq := []uint64{u, uint64(l - i), 7, math.MaxUint64 - u, u % 3, u << 55}[shape]
				ops[i] = env(tfd.Channel((i+shape)%3/2+i%2*(shape%2)), cell{u % 5 * uint64(1+shape), u % 7}, int64(i)*3-50, seq)
				if ops[i].Channel > 1 {
					ops[i].Channel = 1
				}
			}
			c := &checker{q, ops, spec(ops)}
			c.baseline()
			s, v := split(ops)
			c.replay("reconstruction", s, v)
			st := tfd.NewState()
			for i := 0; i < len(s) || i < len(v); i++ {
				var a []tfd.SBatch
				var b []tfd.Envelope
				if i < len(s) {
					a = append(a, s[i])
				}
				if i < len(v) {
					b = append(b, v[len(v)-1-i])
				}
				st.Reconstruct(a, b)
			}
			c.state("reconstruction one by one", st)
			for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			c.replay("reconstruction with reversed batches", s, v)
			q.Case()
		}
		q.State(rt.Mix(uint64(l), 2))
	}
}

func main() {
	hk.Main(hk.Check{ID: "C22",
		Rule:        "an execution is one list of operations; the state applied one by one is compared with every reconstruction of it",
		Assumptions: []string{"sums wrap like int64"},
		Jobs: func(tier string) []hk.Job {
			d := 1
			if tier == "thorough" {
				d = 2
			}
			x := math.MaxInt64 - 1
			a := []tfd.Envelope{env(0, cell{1, 1}, 1, 1), env(0, cell{1, 1}, -3, 9), env(0, cell{2, 1}, 9, 1), env(1, cell{1, 1}, -27, 5), env(1, cell{1, 2}, 81, 2), env(1, cell{1, 1}, 27, 5), env(0, cell{1, 0}, 243, 0)}
			b := []tfd.Envelope{env(0, cell{0, 0}, int64(x), 1), env(0, cell{0, 0}, int64(x), math.MaxUint64), env(1, cell{0, 0}, math.MinInt64, 0), env(1, cell{1 << 63, 1}, 1, 3), env(0, cell{1 << 63, 1}, -1, 3), env(1, cell{1, 1 << 63}, 7, math.MaxUint64)}
			return []hk.Job{
				{Name: "orders", Weight: 6, Seq: orders(a, 5+d)},
				{Name: "orders-extreme", Weight: 6, Seq: orders(b, 5+d)},
				{Name: "lanes", Weight: 5, Seq: sharded(5 + d)},
				{Name: "long", Weight: 3, Seq: long},
			}
		}})
}
