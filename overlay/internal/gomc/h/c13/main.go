package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsa/internal/gomc/fredis"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/persistence"
)

type entry = persistence.CommitEntry

type commit struct{ key, id string }

var errNet = errors.New("connection lost")

// world is a Redis server, the client in front of it and the ledger.
type world struct {
	srv   *fredis.Server
	obj   rt.Object
	p     *persistence.RedisPersister
	fault []string // faults an EVAL may suffer, "" first
	clock func() time.Time

	vec  map[commit]int64 // every commit attempted with an id
	must map[commit]bool  // acknowledged by a successful batch
	base map[string]int64
	log  []string
	n    int
}

func newWorld(ttl time.Duration, old bool) *world {
	w := &world{srv: fredis.New(), vec: map[commit]int64{}, must: map[commit]bool{}, base: map[string]int64{}}
	w.srv.OldNumbers = old
	w.p = persistence.NewRedisPersister(w, ttl)
	return w
}

// Eval is the client call.
func (w *world) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	if rt.Active() {
		rt.Point(rt.KWrite, &w.obj, true, nil)
		w.srv.Now = rt.Now()
	}
	w.n++
	f := ""
	if len(w.fault) > 1 {
		f = w.fault[rt.Choose(len(w.fault), true, "eval")]
	}
	if f != "" {
		w.log = append(w.log, "fault "+f)
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if f == "unreachable" {
		return nil, errNet
	}
	sa, err := fredis.Args(args)
	if err != nil {
		return nil, err
	}
	if f == "oom" {
		w.srv.Full = true
	}
	r := w.srv.Eval(script, append([]string(nil), keys...), sa)
	w.srv.Full = false
	if f == "answer lost" {
		return nil, errNet
	}
	if e, ok := r.(fredis.Err); ok {
		return nil, e
	}
	if s, ok := r.(fredis.Status); ok {
		return string(s), nil
	}
	return r, nil
}

type failer func(string, ...any)

// commit sends one batch and files the outcome.
func (w *world) commit(ctx context.Context, es []entry) error {
	in := append([]entry(nil), es...)
	valid := true
	for _, e := range es {
		if e.CommitID == "" {
			valid = false
		} else {
			w.vec[commit{e.Key, e.CommitID}] = e.Vector
		}
	}
	err := w.p.CommitBatch(ctx, es)
	w.log = append(w.log, fmt.Sprintf("batch%s: %v", show(in), err))
	for i := range in {
		if in[i] != es[i] {
			panic(fmt.Sprintf("the batch handed over was changed from %+v to %+v", in[i], es[i]))
		}
	}
	if err == nil {
		if !valid {
			panic("a batch holding an entry without an id succeeded: " + w.String())
		}
		for _, e := range es {
			w.must[commit{e.Key, e.CommitID}] = true
		}
	}
	return err
}

func show(es []entry) string {
	var b []string
	for _, e := range es {
		b = append(b, fmt.Sprintf("(%s %s %d)", e.Key, e.CommitID, e.Vector))
	}
	if len(b) > 6 {
		b = append(b[:6], fmt.Sprintf("... %d", len(es)))
	}
	return "[" + strings.Join(b, " ") + "]"
}

func (w *world) String() string { return strings.Join(w.log, "; ") }

func (w *world) counter(key string) *big.Int {
	s, ok := w.srv.Hashes[persistence.RedisCounterKey(key)]["scalar"]
	v := new(big.Int)
	if ok {
		v.SetString(s, 10)
	}
	return v.Sub(v, big.NewInt(w.base[key]))
}

// check compares every counter with the commits that must, or may, have been
// applied. Vectors are chosen so that sums identify their terms.
func (w *world) check(fail failer) {
	keys := map[string][]commit{}
	for c := range w.vec {
		keys[c.key] = append(keys[c.key], c)
	}
	for k := range keys {
		cs := keys[k]
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		sum := new(big.Int)
		var open []commit
		for _, c := range cs {
			if w.must[c] {
				sum.Sub(sum, big.NewInt(w.vec[c]))
			} else {
				open = append(open, c)
			}
		}
		got := w.counter(k)
		ok := false
		for m := 0; m < 1<<len(open) && !ok; m++ {
			x := new(big.Int).Set(sum)
			for i, c := range open {
				if m>>i&1 == 1 {
					x.Sub(x, big.NewInt(w.vec[c]))
				}
			}
			ok = x.Cmp(got) == 0
		}
		if !ok {
			fail("the counter of key %q stands at %s; applied for certain %s, possibly also %v; history: %s\n%s", k, got, sum, open, w, strings.Join(w.srv.Log, "\n"))
		}
	}
	for k := range w.srv.Hashes {
		if name, ok := strings.CutPrefix(k, persistence.RedisCounterKey("")); !ok || keys[name] == nil && w.base[name] == 0 {
			fail("a counter %q appeared that no entry named: %s", k, w)
		}
	}
}

// settle retries everything without faults: now all must be applied once.
func (w *world) settle(fail failer, batches ...[]entry) {
	w.fault = nil
	for _, b := range batches {
		ok := true
		for _, e := range b {
			ok = ok && e.CommitID != ""
		}
		if err := w.commit(context.Background(), b); ok && err != nil {
			fail("a batch fails without any fault: %v; history: %s", err, w)
		} else if !ok && err == nil {
			fail("an entry without an id was accepted: %s", w)
		}
	}
	w.check(fail)
}

// ---------------------------------------------------------------- histories

// alphabet: vectors are powers of 4 with signs, a function of key and id.
func alphabet(keys, ids []string) []entry {
	var out []entry
	v := int64(1)
	for _, k := range keys {
		for _, id := range ids {
			out = append(out, entry{Key: k, CommitID: id, Vector: v})
			v *= -4
		}
	}
	return out
}

func histories(keys, ids []string, length, size int, faults []string, noid bool) func() {
	al := alphabet(keys, ids)
	if noid {
		al = append(al, entry{Key: keys[0], Vector: 1 << 40})
	}
	// all batches of 1..size entries
	var batches [][]entry
	var build func(b []entry)
	build = func(b []entry) {
		if len(b) > 0 {
			batches = append(batches, append([]entry(nil), b...))
		}
		if len(b) == size {
			return
		}
		for _, e := range al {
			build(append(b[:len(b):len(b)], e))
		}
	}
	build(nil)
	return func() {
		w := newWorld(time.Hour, false)
		w.fault = faults
		var done [][]entry
		for i := 0; i < length; i++ {
			b := batches[rt.Choose(len(batches), false, "batch")]
			done = append(done, b)
			if i == 0 && rt.Choose(2, false, "empty") == 1 {
				if err := w.commit(context.Background(), nil); err != nil || w.n != 0 {
					rt.Fail("an empty batch: %v, %d calls", err, w.n)
				}
			}
			w.commit(context.Background(), b)
			w.check(rt.Fail)
			if i < length-1 && rt.Choose(2, false, "retry") == 1 {
				w.commit(context.Background(), b)
				w.check(rt.Fail)
			}
		}
		w.settle(rt.Fail, done...)
	}
}

// broken: a counter key holds something else, is at its limit, or memory is
// full while commits arrive; once repaired, retries complete.
func broken() {
	w := newWorld(time.Hour, rt.Choose(2, false, "server") == 1)
	kind := rt.Choose(4, false, "trouble")
	key := persistence.RedisCounterKey("a")
	es := []entry{{Key: "b", CommitID: "1", Vector: 2}, {Key: "a", CommitID: "1", Vector: 5}, {Key: "a", CommitID: "2", Vector: -7}, {Key: "b", CommitID: "2", Vector: 20}}
	if rt.Choose(2, false, "order") == 1 {
		es[0], es[1] = es[1], es[0]
	}
	repair := func() {}
	switch kind {
	case 0: // a plain string
		w.srv.Strings[key] = "x"
		repair = func() { delete(w.srv.Strings, key) }
	case 1: // not a number
		w.srv.Hashes[key] = map[string]string{"scalar": "many"}
		repair = func() { delete(w.srv.Hashes, key) }
	case 2: // would overflow
		w.srv.Hashes[key] = map[string]string{"scalar": strconv.FormatInt(math.MinInt64+2, 10)}
		w.base["a"] = math.MinInt64 + 2
		repair = func() {
			v, _ := strconv.ParseInt(w.srv.Hashes[key]["scalar"], 10, 64)
			w.srv.Hashes[key]["scalar"] = strconv.FormatInt(v+1<<62, 10)
			w.base["a"] += 1 << 62
		}
	case 3:
		w.fault = []string{"", "oom"}
	}
	n := 1 + rt.Choose(3, false, "tries")
	for i := 0; i < n; i++ {
		err := w.commit(context.Background(), es)
		if err == nil && kind < 2 {
			rt.Fail("a batch succeeds although the server rejects the update of key a: %s\n%s", w, strings.Join(w.srv.Log, "\n"))
		}
		if rt.Choose(2, false, "part") == 1 {
			w.commit(context.Background(), es[2:3])
		}
		if kind >= 2 {
			w.check(rt.Fail)
		}
	}
	repair()
	w.settle(rt.Fail, es)
}

// ---------------------------------------------------------------- numbers

func numbers(q *hk.Seq) {
	var vs []int64
	add := func(v int64) { vs = append(vs, v) }
	for _, v := range []int64{0, 1, 9, 10, 99, 100, 1 << 15, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<53 + 3, 1e14, 1e15, 1e15 + 1, 123456789012345678, 1e17, 1e17 + 1, 1e18, 1e18 + 1, 1 << 62, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64} {
		add(v)
		if v != 0 {
			add(-v)
		}
	}
	add(math.MinInt64)
	bases := []int64{0, 1, -1, 1000, -1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	q.Bound("%d vectors x %d counter values x 2 server generations, each committed and retried", len(vs), len(bases))
	for _, old := range []bool{false, true} {
		for _, base := range bases {
			for _, v := range vs {
				w := newWorld(time.Hour, old)
				if base != 0 {
					w.srv.Hashes[persistence.RedisCounterKey("k")] = map[string]string{"scalar": strconv.FormatInt(base, 10)}
					w.base["k"] = base
				}
				end := new(big.Int).Sub(big.NewInt(base), big.NewInt(v))
				fits := end.IsInt64() && v != math.MinInt64
				for i := 0; i < 2; i++ {
					err := w.commit(context.Background(), []entry{{Key: "k", CommitID: "c", Vector: v}})
					if fits && err != nil {
						q.Fail("vector %d on counter %d is refused: %v", v, base, err)
					}
					if !fits && err == nil && w.counter("k").Cmp(new(big.Int).Neg(big.NewInt(v))) != 0 {
						q.Fail("vector %d on counter %d reports success, the counter stands at %s from there", v, base, w.counter("k"))
					}
				}
				w.check(q.Fail)
				q.Case()
				q.Step(2)
				q.State(rt.Mix(uint64(v), uint64(base)))
			}
		}
	}
}

// ---------------------------------------------------------------- lifetimes

func lifetimes(q *hk.Seq) {
	ttls := []time.Duration{0, -1, 1, time.Microsecond, time.Millisecond, 10 * time.Millisecond, 500 * time.Millisecond, 999 * time.Millisecond, time.Second, time.Second + 1, 1500 * time.Millisecond, 2 * time.Second, 2*time.Second - 1, 59 * time.Second, time.Minute, 90*time.Minute + 300*time.Millisecond, 24 * time.Hour, 24*time.Hour + 1, 100 * 24 * time.Hour, 100 * 365 * 24 * time.Hour}
	q.Bound("%d lifetimes x 5 retry times, marker gone afterwards", len(ttls))
	for _, ttl := range ttls {
		life := ttl
		if ttl <= 0 {
			life = 24 * time.Hour
		}
		for _, at := range []time.Duration{0, 1, life / 2, life - 1, life - life/1000} {
			w := newWorld(ttl, false)
			start := w.srv.Now
			es := []entry{{Key: "a", CommitID: "1", Vector: 3}, {Key: "b", CommitID: "1", Vector: -4}}
			w.settle(q.Fail, es[:1], es[1:])
			if at < life {
				w.srv.Now = start.Add(at)
				w.settle(q.Fail, es)
			}
			w.srv.Now = start.Add(life + at + time.Second)
			for _, k := range w.srv.Keys() {
				if !strings.HasPrefix(k, persistence.RedisCounterKey("")) {
					q.Fail("marker %q is still there %v after the commit although markers live for %v", k, life+at+time.Second, life)
				}
			}
			w.check(q.Fail)
			q.Case()
			q.Step(4)
			q.State(rt.Mix(uint64(ttl), uint64(at)))
		}
	}
}

// ---------------------------------------------------------------- names

// names: every pair of key and id from all short strings over characters that
// occur in the key layout is a commit of its own.
func names(max int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		chars := []string{"a", ":", "%", "0", "3", "A", "{", "é", " "}
		words := []string{"a"}
		var all []string
		level := []string{""}
		for n := 0; n < max; n++ {
			var up []string
			for _, p := range level {
				for _, c := range chars {
					up = append(up, p+c)
				}
			}
			all = append(all, up...)
			level = up
		}
		words = append(all, "a:3A", "a%3A", "%3A", "%253A", "commit:a", "counter:a", ":::", "a::a")
		for _, x := range []string{"k", "l"} { // long ones differing at the end
			for _, n := range []int{40, 70, 300} {
				words = append(words, strings.Repeat("k", n)+x)
			}
		}
		q.Bound("all %d^2 pairs of a key and an id, all committed to one server", len(words))
		w := newWorld(time.Hour, false)
		w.srv.Log = nil
		want := map[string]int64{}
		v := int64(1)
		run := func() {
			for _, k := range words {
				var b []entry
				for _, id := range words {
					b = append(b, entry{Key: k, CommitID: id, Vector: v})
					v++
				}
				if err := w.p.CommitBatch(context.Background(), b); err != nil {
					q.Fail("key %q: %v", k, err)
				}
				w.srv.Log = nil
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				q.Case()
				q.Step(len(b))
			}
		}
		run()
		x := int64(1)
		for _, k := range words {
			for range words {
				want[k] -= x
				x++
			}
		}
		run() // the retry carries other numbers: an applied id must be left alone
		for _, k := range words {
			q.State(uint64(len(k))<<32 ^ uint64(want[k]))
			if got := w.counter(k); got.Cmp(big.NewInt(want[k])) != 0 {
				q.Fail("after %d distinct commits of key %q its counter stands at %s, want %d: some suppressed others", len(words), k, got, want[k])
			}
		}
	}
}

// marathon: one persister over a long life; batches retried, repeated much later,
// or refused by the server for one entry and sent again.
func marathon(q *hk.Seq) {
	const n = 2000
	q.Bound("one history of %d batches", n)
	w := newWorld(time.Hour, false)
	batch := func(i int) (es []entry) {
		for j := 0; j <= i%3; j++ {
			es = append(es, entry{Key: "k" + strconv.Itoa((i+j*j)%11), CommitID: fmt.Sprintf("%d-%d", i, j), Vector: int64(i*7 + j - 2000)})
		}
		return es
	}
	send := func(es []entry) {
		if err := w.commit(context.Background(), es); err != nil {
			q.Fail("a batch fails: %v; last batches: %s", err, w)
		}
	}
	for i := 0; i < n; i++ {
		es := batch(i)
		if i%5 == 2 {
			bad := persistence.RedisCounterKey("broken")
			w.srv.Strings[bad] = "x"
			if w.p.CommitBatch(context.Background(), append(es[:len(es):len(es)], entry{Key: "broken", CommitID: "b", Vector: 1})) == nil {
				q.Fail("a batch succeeds although one entry was refused")
			}
			delete(w.srv.Strings, bad)
		}
		send(es)
		if i%3 == 0 {
			send(es)
		}
		if i%7 == 0 {
			send(append(batch(i*7919%(i+1)), batch(i/2)...))
		}
		w.srv.Log = nil
		if i%50 == 49 || i > n-20 {
			w.check(q.Fail)
		}
		w.log = w.log[max(0, len(w.log)-4):]
		q.Case()
		q.Step(2)
		q.State(uint64(i))
	}
}

// sizes: batches of any size are applied completely.
func sizes(q *hk.Seq) {
	ns := []int{}
	for n := 1; n <= 130; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4097, 10001)
	q.Bound("%d batch sizes up to 10001, first and last entry failing", len(ns))
	for _, n := range ns {
		for fault := 0; fault < 3; fault++ {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			var b []entry
			for i := 0; i < n; i++ {
				b = append(b, entry{Key: "k" + strconv.Itoa(i%7), CommitID: strconv.Itoa(i / 2), Vector: int64(i + 1)}) // two keys share an id
			}
			w := newWorld(time.Hour, false)
			fail := func() error { return w.p.CommitBatch(context.Background(), b) }
			if fault > 0 {
				bad := b[0]
				if fault == 2 {
					bad = b[n-1]
				}
				w.srv.Strings[persistence.RedisCounterKey(bad.Key)] = "x"
				if fail() == nil {
					q.Fail("a batch of %d entries succeeds although one was refused", n)
				}
				delete(w.srv.Strings, persistence.RedisCounterKey(bad.Key))
			}
			if err := fail(); err != nil {
				q.Fail("a batch of %d entries fails: %v", n, err)
			}
			w.srv.Log = nil
			if err := fail(); err != nil {
				q.Fail("the retry of a batch of %d entries fails: %v", n, err)
			}
			want := map[string]int64{}
			for _, e := range b {
				want[e.Key] -= e.Vector
			}
			for k, v := range want {
				if w.counter(k).Cmp(big.NewInt(v)) != 0 {
					q.Fail("after a batch of %d entries the counter of %s stands at %s, want %d", n, k, w.counter(k), v)
				}
			}
			q.Case()
			q.Step(n)
			q.State(uint64(n*3 + fault))
		}
	}
}

// cancelled: a cancelled context is reported unless everything was applied.
func cancelled() {
	w := newWorld(time.Hour, false)
	es := []entry{{Key: "a", CommitID: "1", Vector: 1}, {Key: "b", CommitID: "1", Vector: 4}, {Key: "a", CommitID: "2", Vector: 16}}
	ctx, cancel := context.WithCancel(context.Background())
	when := rt.Choose(3, false, "when")
	if when == 0 {
		cancel()
	} else {
		rt.GoNamed("cancel", func() { rt.Yield(); cancel() })
	}
	w.commit(ctx, es[:1+rt.Choose(3, false, "size")])
	w.check(rt.Fail)
	cancel()
	w.settle(rt.Fail, es)
}

// concurrent: two writers, possibly retrying the same batch, at the same time.
func concurrent() {
	w := newWorld(time.Hour, false)
	w.fault = []string{"", "answer lost", "unreachable"}
	al := alphabet([]string{"a", "b"}, []string{"1", "2"})
	sets := [][]entry{{al[0], al[1]}, {al[1], al[0]}, {al[0], al[2]}, {al[3], al[0], al[1]}}
	var hs []*rt.Handle
	var bs [][]entry
	for i := 0; i < 2; i++ {
		b := append([]entry(nil), sets[rt.Choose(len(sets), false, "batch")]...)
		bs = append(bs, b)
		hs = append(hs, rt.GoNamed("writer", func() { w.commit(context.Background(), b) }))
	}
	for _, h := range hs {
		h.Join()
	}
	w.check(rt.Fail)
	w.settle(rt.Fail, bs...)
}

func main() {
	net := []string{"", "unreachable", "answer lost"}
	hk.Main(hk.Check{ID: "C13",
		Rule:        "an execution is one history of batches with one placement of faults, run on an interpreter of the real script; counters are compared with the ledger of distinct commits after every batch",
		Assumptions: []string{"the Redis model: EVAL is atomic, commands before an error keep their effect, number formatting of both server generations", "retries happen within the marker lifetime", "a commit id always carries the same key and vector", "go-redis transports arguments faithfully (exercised over a socket in C16)"},
		Jobs: func(tier string) []hk.Job {
			f, l, nm, p := 2, 2, 2, 2
			if tier == "thorough" {
				f, l, nm, p = 3, 3, 3, 3
			}
			return []hk.Job{
				{Name: "histories", Weight: 8, Bounds: []rt.Budget{{F: f}}, Body: histories([]string{"a", "b"}, []string{"1", "2"}, 2, 2, net, true)},
				{Name: "histories-long", Weight: 8, Bounds: []rt.Budget{{F: f}}, Body: histories([]string{"a"}, []string{"1", "2"}, l+1, 2, net, false)},
				{Name: "broken-counter", Weight: 3, Bounds: []rt.Budget{{F: f}}, Body: broken},
				{Name: "numbers", Weight: 1, Seq: numbers},
				{Name: "lifetimes", Weight: 1, Seq: lifetimes},
				{Name: "names", Weight: 2, Seq: names(nm)},
				{Name: "sizes", Weight: 2, Seq: sizes},
				{Name: "marathon", Weight: 2, Seq: marathon},
				{Name: "cancelled", Weight: 1, Bounds: hk.P(2), Body: cancelled},
				{Name: "concurrent", Weight: 4, Bounds: append(hk.F(p-1, f), rt.Budget{P: p, F: f - 1}), Body: concurrent},
			}
		}})
}
