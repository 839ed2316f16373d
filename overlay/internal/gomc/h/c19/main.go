// C19: compression preserves every per-cell net effect.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

type cell [2]uint64

type sum struct {
	n   int64
	seq uint64
}

const golden = 0x9e3779b97f4a7c15

// collide returns a bucket with which key2 hashes like (key, bucket).
func collide(key, bucket, key2 uint64) uint64 {
	x := key*golden ^ key2*golden
	return bucket ^ x>>1 // key2 - key is even
}

// check compresses in (and its result again) and compares with the sums.
func check(q *hk.Seq, in []tfd.SBatch, v tfd.VSATransformer) {
	want := make(map[cell]sum, len(in))
	for _, b := range in {
		c := cell{b.KeyID, b.BucketID}
		s := want[c]
		s.n += b.NetDelta
		if b.SeqEnd > s.seq {
			s.seq = b.SeqEnd
		}
		want[c] = s
	}
	nonzero := 0
	for _, s := range want {
		if s.n != 0 {
			nonzero++
		}
	}
	cur := append(make([]tfd.SBatch, 0, len(in)+3), in...)
	for round := 0; round < 2; round++ {
		out := v.Compress(cur)
		if len(out) > len(cur) {
			q.Fail("%d batches became %d: %s -> %s", len(cur), len(out), show(in), show(out))
		}
		if len(out) != nonzero {
			q.Fail("round %d: %d batches instead of %d: %s -> %s", round, len(out), nonzero, show(in), show(out))
		}
		seen := make(map[cell]bool, len(out))
		for _, b := range out {
			c := cell{b.KeyID, b.BucketID}
			if seen[c] {
				q.Fail("two batches for cell %x: %s -> %s", c, show(in), show(out))
			}
			seen[c] = true
			if s, ok := want[c]; !ok || s.n != b.NetDelta || s.seq != b.SeqEnd || s.n == 0 {
				q.Fail("round %d: cell %x has delta %d and mark %d, want %d and %d: %s -> %s", round, c, b.NetDelta, b.SeqEnd, s.n, s.seq, show(in), show(out))
			}
		}
		cur = out
	}
	q.Case()
	q.Step(2 * len(in))
}

func show(bs []tfd.SBatch) string {
	var s []string
	for i, b := range bs {
		if i == 12 {
			s = append(s, fmt.Sprintf("... %d", len(bs)))
			break
		}
		s = append(s, fmt.Sprintf("(%x %x %d @%d)", b.KeyID, b.BucketID, b.NetDelta, b.SeqEnd))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// cells that are distinct but alike: equal key, equal bucket, swapped, equal
// after packing, zero.
func cells() []cell {
	a := cell{3, 7}
	return []cell{a, {3, 8}, {7, 3}, {5, collide(3, 7, 5)}, {3, 7 | 1<<63}, {0, 0}, {3, 0}, {0, 7}}
}

// lists: all lists up to a length over the cells, with deltas and marks.
func lists(ncells, length int, deltas []int64) func(*hk.Seq) {
	return func(q *hk.Seq) {
		var al []tfd.SBatch
		for _, c := range cells()[:ncells] {
			for i, d := range deltas {
				al = append(al, tfd.SBatch{KeyID: c[0], BucketID: c[1], NetDelta: d, SeqEnd: uint64(5 * (len(deltas) - i) % 7)})
			}
		}
		q.Bound("all lists of up to %d batches over %d batches (%d cells x %d deltas)", length, len(al), ncells, len(deltas))
		var in []tfd.SBatch
		var build func(n int)
		build = func(n int) {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			check(q, in, tfd.SimpleVSA{})
			if n == length {
				return
			}
			for _, b := range al {
				in = append(in, b)
				build(n + 1)
				in = in[:len(in)-1]
			}
		}
		build(0)
		q.State(uint64(length))
	}
}

// extremes: extreme deltas and marks over one and two cells; sums wrap like
// int64 and sequence marks compare as unsigned.
func extremes(q *hk.Seq) {
	ds := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 32, -1 << 32, 1 << 62}
	ss := []uint64{0, 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64}
	q.Bound("all lists of 3 over %d deltas x %d marks, the last one on the same or another cell", len(ds), len(ss))
	var in [3]tfd.SBatch
	var build func(i int)
	build = func(i int) {
		if i == 3 {
			for k := uint64(0); k < 2; k++ {
				in[2].KeyID = 1 + k
				check(q, in[:], tfd.SimpleVSA{})
			}
			return
		}
		for _, d := range ds {
			for _, s := range ss {
				in[i] = tfd.SBatch{KeyID: 1, BucketID: 2, NetDelta: d, SeqEnd: s}
				build(i + 1)
			}
		}
	}
	build(0)
	q.State(1)
}

// lengths: longer lists of several shapes in several orders.
func lengths(max int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		q.Bound("lists of every length up to %d and some up to 5000, 7 shapes, 5 orders", max)
		var ns []int
		for n := 0; n <= max; n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 511, 512, 513, 1000, 1024, 4096, 5000)
		for _, n := range ns {
			for shape := 0; shape < 7; shape++ {
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				base := make([]tfd.SBatch, n)
				for i := range base {
					b := &base[i]
					u := uint64(i)
					switch shape {
					case 0: // all distinct
						*b = tfd.SBatch{KeyID: u, BucketID: u % 3, NetDelta: 1}
					case 1: // one cell
						*b = tfd.SBatch{KeyID: 9, BucketID: 9, NetDelta: int64(i%5) - 2}
					case 2: // pairs that cancel
						*b = tfd.SBatch{KeyID: u / 2, BucketID: 1, NetDelta: 1 - 2*int64(i%2)}
					case 3: // one packed hash for all keys
						*b = tfd.SBatch{KeyID: 2 * (u % 40), BucketID: collide(0, 77, 2*(u%40)), NetDelta: int64(i) - 7}
					case 4: // equal low bits
						*b = tfd.SBatch{KeyID: 1, BucketID: (u % 50) << 20, NetDelta: 3}
					case 5: // several of each, one cell of each four cancels
						*b = tfd.SBatch{KeyID: u % 7, BucketID: u % 11, NetDelta: int64(u%7) - 3}
					case 6: // the top bucket bit alone distinguishes
						*b = tfd.SBatch{KeyID: u / 2 % 20, BucketID: u % 2 << 63, NetDelta: -1}
					}
					b.SeqEnd = bits.Reverse64(u)>>50 + u*7%13
					if n%2 == 1 {
						b.SeqEnd = u * 0x9e3779b97f4a7c15
					}
				}
				for order := 0; order < 5; order++ {
					in := make([]tfd.SBatch, n)
					for i := range in {
						j := i
						switch order {
						case 1:
							j = n - 1 - i
						case 2: // odd ones first
							if j = 2*i + 1; j >= n {
								j = 2 * (i - n/2)
							}
						case 3:
							j = (i + n/3) % n
						case 4:
							j = (i + n - 1) % n
						}
						in[i] = base[j]
					}
					check(q, in, tfd.SimpleVSA{})
				}
			}
			q.State(uint64(n))
		}
	}
}

// exact: around the switch of the algorithm every position of a duplicate.
func exact(q *hk.Seq) {
	q.Bound("lists of 2 to 140 distinct cells with one duplicate or cancelling batch, at every pair of positions up to 70, at some beyond")
	for n := 2; n <= 140; n++ {
		if q.Over() {
			q.Incomplete("deadline")
			return
		}
		step := 1
		if n > 24 {
			step = 3
		}
		if n > 70 {
			step = 17
		}
		for i := 0; i < n; i += step {
			for j := i + 1; j < n; j += step {
				in := make([]tfd.SBatch, n)
				for k := range in {
					in[k] = tfd.SBatch{KeyID: uint64(k % 5), BucketID: uint64(k), NetDelta: int64(k + 1), SeqEnd: uint64(100 - k%90)}
				}
				in[j] = in[i]
				in[j].SeqEnd = uint64(j)
				if (i+j)%2 == 0 {
					in[j].NetDelta = -in[i].NetDelta
				}
				check(q, in, tfd.SimpleVSA{})
			}
		}
		q.State(rt.Mix(uint64(n), 3))
	}
}

func main() {
	hk.Main(hk.Check{ID: "C19",
		Rule:        "an execution is one list of batches, compressed twice; the result is compared with sums and maxima per cell",
		Assumptions: []string{"sums wrap like int64"},
		Jobs: func(tier string) []hk.Job {
			d, m := 1, 300
			if tier == "thorough" {
				d, m = 2, 1200
			}
			return []hk.Job{
				{Name: "lists-8-cells", Weight: 5, Seq: lists(8, 4+d, []int64{1, -1, 2})},
				{Name: "lists-4-cells", Weight: 5, Seq: lists(4, 6+d, []int64{1, -1})},
				{Name: "lists-2-cells", Weight: 5, Seq: lists(2, 7+d, []int64{1, -1, 2})},
				{Name: "extremes", Weight: 3, Seq: extremes},
				{Name: "lengths", Weight: 4, Seq: lengths(m)},
				{Name: "positions", Weight: 3, Seq: exact},
			}
		}})
}
