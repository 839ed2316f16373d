// C17: only order-insensitive operations take the scalar lane.
package main

import (
	"fmt"
	"math"
	"strings"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

var keys = []string{"", "a", "b", "A", " ", "a ", "ab", "a:b", "\x00", "a\x00", "é", "user:123", "\xff", strings.Repeat("k", 300)}
var buckets = []string{"", "a", "b", "A", " ", "ab", "2025-10-29T20:35:00Z/1s", "2025-10-29T20:35:01Z/1s", "\x00", "*", "all", strings.Repeat("k", 300)}
var amounts = []int64{0, 1, -1, 5, 1 << 40, math.MaxInt64, math.MinInt64}

func op(key, bucket string, amount int64, flags int, seq uint64) tfd.Op {
	b := func(i int) bool { return flags>>i&1 == 1 }
	return tfd.Op{Key: key, Bucket: bucket, Amount: amount, SeqEnd: seq, IsBackdated: b(0), IsCrossKey: b(1), ChangesPolicy: b(2),
		NeedsExternalDecision: b(3), IsGlobal: b(4), IsSingleKey: b(5), IsConservativeDelta: b(6)}
}

// classify: every combination of flags, keys, buckets and amounts.
func classify(q *hk.Seq) {
	seqs := []uint64{0, 1, math.MaxUint64}
	q.Bound("all 128 flag combinations x %d keys x %d buckets x %d amounts x %d marks", len(keys), len(buckets), len(amounts), len(seqs))
	for flags := 0; flags < 128; flags++ {
		for _, k := range keys {
			for _, b := range buckets {
				for _, a := range amounts {
					for _, s := range seqs {
						o := op(k, b, a, flags, s)
						ch, fp, d, err := tfd.Classify(o)
						q.Case()
						q.Step(1)
						if k == "" {
							if err == nil {
								q.Fail("an operation without a key is classified: %+v", o)
							}
							if ch == tfd.ChannelScalar {
								q.Fail("an operation without a key goes to the scalar lane: %+v", o)
							}
							continue
						}
						if err != nil {
							q.Fail("%+v: %v", o, err)
						}
						want := tfd.ChannelVector
						if flags == 0x60 {
							want = tfd.ChannelScalar
						}
						if ch != want || fp.Scope != want {
							q.Fail("%+v is classified %v with scope %v, want %v", o, ch, fp.Scope, want)
						}
						if d != a {
							q.Fail("%+v: amount became %d", o, d)
						}
						if fp.KeyID != tfd.HashKey(k) {
							q.Fail("%+v: the footprint does not name the key", o)
						}
						if fp.Time.All != (b == "") || b != "" && fp.Time.BucketID != tfd.HashKey(b) {
							q.Fail("%+v: the footprint is %+v", o, fp)
						}
						if again, fp2, d2, err2 := tfd.Classify(o); again != ch || fp2 != fp || d2 != d || err2 != nil {
							q.Fail("%+v is classified differently the second time", o)
						}
					}
				}
			}
		}
		q.State(uint64(flags))
	}
}

// disjoint: every pair of footprints over a small set of ids, and every pair
// of classified operations.
func disjoint(q *hk.Seq) {
	ids := []uint64{0, 1, 2, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 + 1, math.MaxUint64}
	var fs []tfd.Footprint
	for _, k := range ids {
		for _, b := range ids {
			for all := 0; all < 2; all++ {
				for _, c := range []tfd.Channel{tfd.ChannelScalar, tfd.ChannelVector, 2, -1} {
					fs = append(fs, tfd.Footprint{KeyID: k, Time: tfd.TimeFootprint{BucketID: b, All: all == 1}, Scope: c})
				}
			}
		}
	}
	q.Bound("all pairs of %d footprints; all pairs of operations over %d keys, %d buckets and 8 flag sets", len(fs), len(keys)-1, len(buckets))
	s := func(f tfd.Footprint) bool { return f.Scope == tfd.ChannelScalar }
	for i, x := range fs {
		for _, y := range fs {
			want := s(x) && s(y) && (x.KeyID != y.KeyID || !x.Time.All && !y.Time.All && x.Time.BucketID != y.Time.BucketID)
			if got := x.Disjoint(y); got != want {
				q.Fail("Disjoint(%+v, %+v) = %v", x, y, got)
			}
			q.Case()
		}
		q.Step(len(fs))
		q.State(uint64(i))
	}
	var os []tfd.Op
	for _, k := range keys[1:] {
		for _, b := range buckets {
			for _, f := range []int{0x60, 0x60, 0x61, 0x62, 0x64, 0x68, 0x70, 0x20, 0x40} {
				os = append(os, op(k, b, 1, f, 0))
			}
		}
	}
	fp := make([]tfd.Footprint, len(os))
	sc := make([]bool, len(os))
	for i, o := range os {
		_, f, _, err := tfd.Classify(o)
		if err != nil {
			q.Fail("%+v: %v", o, err)
		}
		fp[i] = f
		sc[i] = o == op(o.Key, o.Bucket, 1, 0x60, 0)
	}
	for i := range os {
		for j := range os {
			want := sc[i] && sc[j] && (os[i].Key != os[j].Key || os[i].Bucket != "" && os[j].Bucket != "" && os[i].Bucket != os[j].Bucket)
			if got := fp[i].Disjoint(fp[j]); got != want {
				q.Fail("%+v and %+v: disjoint is %v", os[i], os[j], got)
			}
			q.Case()
		}
		q.Step(len(os))
		q.State(uint64(1<<32 + i))
	}
}

// names: different keys and buckets have different ids.
func names(three int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		q.Bound("all strings of up to two bytes, three over %d letters, 100000 numbered and 400000 hexadecimal names, 300-byte strings that differ in one byte or in length", three)
		seen := map[uint64]string{}
		add := func(s string) {
			o := op(s, s, 1, 0x60, 0)
			_, f, _, err := tfd.Classify(o)
			if err != nil {
				q.Fail("%q: %v", s, err)
			}
			if f.Time.BucketID != f.KeyID {
				q.Fail("%q has different ids as key and as bucket", s)
			}
			if p, ok := seen[f.KeyID]; ok && p != s {
				q.Fail("%q and %q have the same id", p, s)
			}
			seen[f.KeyID] = s
			q.Case()
			q.Step(1)
		}
		for a := 0; a < 256; a++ {
			add(string([]byte{byte(a)}))
			for b := 0; b < 256; b++ {
				add(string([]byte{byte(a), byte(b)}))
			}
		}
		for a := 0; a < three; a++ {
			for b := 0; b < three; b++ {
				for c := 0; c < three; c++ {
					add(string([]byte{'0' + byte(a), '0' + byte(b), '0' + byte(c)}))
				}
			}
		}
		for n := 3; n <= 300; n++ {
			add(strings.Repeat("x", n))
			add(fmt.Sprintf("user:%d", n*1000+1))
			b := []byte(strings.Repeat("y", 300))
			b[n-1] = 'z'
			add(string(b))
		}
		for i := 0; i < 100000; i++ {
			add(fmt.Sprintf("user:%d", 400000+i))
		}
		for i := uint64(0); i < 400000; i++ {
			add(fmt.Sprintf("%016x", i*0x9e3779b97f4a7c15))
		}
		for h := range seen {
			q.State(rt.Mix(h, 1))
		}
	}
}

func main() {
	hk.Main(hk.Check{ID: "C17",
		Rule:        "an execution is one operation or one pair of footprints or operations, compared with the rules",
		Assumptions: []string{"64-bit name hashes do not collide (checked on the enumerated names)"},
		Jobs: func(tier string) []hk.Job {
			n := 70
			if tier == "thorough" {
				n = 200
			}
			return []hk.Job{
				{Name: "classify", Weight: 3, Seq: classify},
				{Name: "disjoint", Weight: 3, Seq: disjoint},
				{Name: "names", Weight: 3, Seq: names(n)},
			}
		}})
}
