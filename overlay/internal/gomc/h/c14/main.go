package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"vsa/internal/gomc/fpg"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/persistence"
)

type entry = persistence.CommitEntry

type failer func(string, ...any)

// state is what the tables should hold.
type state struct {
	scalar  map[string]*big.Int
	token   map[string]*int64
	applied map[string]bool
}

func (s *state) clone() *state {
	n := &state{map[string]*big.Int{}, map[string]*int64{}, map[string]bool{}}
	for k, v := range s.scalar {
		n.scalar[k] = v
	}
	for k, v := range s.token {
		n.token[k] = v
	}
	for k := range s.applied {
		n.applied[k] = true
	}
	return n
}

// apply is the specification of one batch; nil if it cannot be applied.
func (s *state) apply(es []entry, create bool) *state {
	n := s.clone()
	for _, e := range es {
		if e.CommitID == "" {
			return nil
		}
		if create && n.scalar[e.Key] == nil {
			n.scalar[e.Key] = new(big.Int)
		}
		if n.applied[e.CommitID] {
			continue
		}
		n.applied[e.CommitID] = true
		if n.scalar[e.Key] == nil {
			continue // no such counter
		}
		if e.FencingToken != nil {
			if t := n.token[e.Key]; t != nil && *e.FencingToken < *t {
				continue
			}
			t := *e.FencingToken
			n.token[e.Key] = &t
		}
		v := new(big.Int).Sub(n.scalar[e.Key], big.NewInt(e.Vector))
		if !v.IsInt64() {
			return nil
		}
		n.scalar[e.Key] = v
	}
	return n
}

func render(scalar map[string]*big.Int, token map[string]*int64) string {
	var ks []string
	for k := range scalar {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for _, k := range ks {
		t := "-"
		if token[k] != nil {
			t = strconv.FormatInt(*token[k], 10)
		}
		b = append(b, fmt.Sprintf("%q:%s/%s", k, scalar[k], t))
	}
	return "{" + strings.Join(b, " ") + "}"
}

func (s *state) String() string { return render(s.scalar, s.token) }

type world struct {
	db     *fpg.DB
	p      *persistence.PostgresPersister
	create bool
	s      *state
	log    []string
	ctx    func() context.Context
}

// discard releases what an earlier world holds.
var discard []func()

func newWorld(create bool, rows map[string]int64) *world {
	w := &world{db: fpg.New(), create: create, s: (&state{}).clone()}
	for k, v := range rows {
		w.db.Put(k, v)
		w.s.scalar[k] = big.NewInt(v)
	}
	for _, f := range discard {
		f()
	}
	discard = nil
	h := w.db.SQL()
	w.p = persistence.NewPostgresPersister(h, create)
	w.ctx = func() context.Context {
		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
		// not cancelled by the caller, or that would end the transaction
		discard = append(discard, cancel)
		return ctx
	}
	discard = append(discard, func() { h.Close() })
	return w
}

func (w *world) actual() string {
	sc, tk := map[string]*big.Int{}, map[string]*int64{}
	for k, c := range w.db.Counters() {
		sc[k], tk[k] = c.Scalar, c.Token
	}
	return render(sc, tk)
}

func (w *world) send(es []entry) error {
	in := append([]entry(nil), es...)
	err := w.p.CommitBatch(w.ctx(), es)
	w.log = append(w.log, fmt.Sprintf("batch%s: %v", show(in), err))
	for i := range in {
		if in[i] != es[i] {
			panic(fmt.Sprintf("the batch handed over was changed from %+v to %+v", in[i], es[i]))
		}
	}
	for i := 0; w.db.Open() > 0; i++ {
		if i > 200 {
			panic(fmt.Sprintf("%d transactions are left open: %s", w.db.Open(), w))
		}
		time.Sleep(5 * time.Millisecond)
	}
	return err
}

func (w *world) missing(es []entry) bool {
	for _, e := range es {
		if !w.create && w.s.scalar[e.Key] == nil {
			return true
		}
	}
	return false
}

// commit sends one batch and compares the tables with the specification.
func (w *world) commit(fail failer, es []entry, calm bool) {
	err := w.send(es)
	next := w.s.apply(es, w.create)
	got := w.actual()
	switch {
	case err == nil && next == nil:
		fail("a batch that cannot be applied succeeds: %s", w)
	case err == nil:
		w.s = next
	case next != nil && calm && !w.missing(es):
		fail("a batch fails without a fault: %s", w)
	case next != nil && got == next.String():
		w.s = next
	}
	if got != w.s.String() {
		alt := ""
		if next != nil && err != nil {
			alt = " or " + next.String()
		}
		fail("the counters are %s, want %s%s (scalar/token): %s\n%s", got, w.s, alt, w, strings.Join(w.db.Log, "\n"))
	}
}

func (w *world) String() string { return strings.Join(w.log, "; ") }

func show(es []entry) string {
	var b []string
	for _, e := range es {
		t := ""
		if e.FencingToken != nil {
			t = " t" + strconv.FormatInt(*e.FencingToken, 10)
		}
		b = append(b, fmt.Sprintf("(%s %s %d%s)", e.Key, e.CommitID, e.Vector, t))
	}
	if len(b) > 6 {
		b = append(b[:6], fmt.Sprintf("... %d", len(es)))
	}
	return "[" + strings.Join(b, " ") + "]"
}

func tk(n int64) *int64 { return &n }

var alphabet = []entry{
	{Key: "a", CommitID: "1", Vector: 1},
	{Key: "a", CommitID: "2", Vector: -4, FencingToken: tk(5)},
	{Key: "a", CommitID: "3", Vector: 16, FencingToken: tk(3)},
	{Key: "b", CommitID: "4", Vector: 64, FencingToken: tk(5)},
	{Key: "a", CommitID: "5", Vector: -256, FencingToken: tk(5)},
	{Key: "b", CommitID: "6", Vector: 1024},
	{Key: "a", CommitID: "7", Vector: 4096, FencingToken: tk(-2)},
	{Key: "b", Vector: 1 << 40},
}

func batches(al []entry, size int) (out [][]entry) {
	var build func(b []entry)
	build = func(b []entry) {
		if len(b) > 0 {
			out = append(out, append([]entry(nil), b...))
		}
		if len(b) == size {
			return
		}
		for _, e := range al {
			build(append(b[:len(b):len(b)], e))
		}
	}
	build(nil)
	return
}

// histories: sequences of batches over the first letters of the alphabet, each
// possibly retried, with faults at any step.
func histories(letters []int, size, length int, faults bool) func() {
	var al []entry
	for _, i := range letters {
		al = append(al, alphabet[i])
	}
	bs := batches(al, size)
	return func() {
		create := rt.Choose(2, false, "create") == 1
		rows := map[string]int64{}
		if !create {
			rows["a"] = 100
		}
		if rt.Choose(2, false, "rows") == 1 {
			rows["b"] = -7
		}
		w := newWorld(create, rows)
		if length == 1 {
			if i := rt.Choose(4, false, "context"); i > 0 {
				w.ctx = func() context.Context { return []context.Context{nil, context.Background(), context.TODO()}[i-1] }
			}
		}
		w.db.Faults = faults
		var done [][]entry
		for i := 0; i < length; i++ {
			b := bs[rt.Choose(len(bs), false, "batch")]
			done = append(done, b)
			w.commit(rt.Fail, b, !faults)
			if (faults || i == 0) && rt.Choose(2, false, "retry") == 1 {
				w.commit(rt.Fail, b, !faults)
			}
		}
		w.db.Faults = false
		for _, b := range done {
			w.commit(rt.Fail, b, true)
		}
	}
}

// tokens: sequences of single fenced and unfenced entries.
func tokens(length int) func() {
	return func() {
		w := newWorld(rt.Choose(2, false, "create") == 1, map[string]int64{"a": 0})
		vals := []*int64{nil, tk(0), tk(1), tk(2), tk(-1), tk(math.MaxInt64), tk(math.MinInt64)}
		var all []entry
		together := rt.Choose(2, false, "together") == 1
		v := int64(1)
		for i := 0; i < length; i++ {
			all = append(all, entry{Key: "a", CommitID: strconv.Itoa(i), Vector: v, FencingToken: vals[rt.Choose(len(vals), false, "token")]})
			v *= -4
		}
		if together {
			w.commit(rt.Fail, all, true)
		} else {
			for i := range all {
				w.commit(rt.Fail, all[i:i+1], true)
			}
		}
		w.commit(rt.Fail, all, true)
	}
}

// numbers: extreme vectors; an overflowing entry takes the whole batch back.
func numbers(q *hk.Seq) {
	vs := []int64{0, 1, -1, 1 << 31, -1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1e18 + 1, -1e18 - 1, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64, -math.MaxInt64, math.MinInt64}
	bases := []int64{0, 5, -5, 1<<53 + 1, math.MaxInt64, math.MinInt64}
	q.Bound("%d x %d vectors, %d counter values, both orders", len(vs), len(vs), len(bases))
	for _, base := range bases {
		for _, v1 := range vs {
			for _, v2 := range vs {
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				w := newWorld(false, map[string]int64{"a": base, "b": 0})
				es := []entry{{Key: "b", CommitID: "x", Vector: v1, FencingToken: tk(v2)}, {Key: "a", CommitID: "1", Vector: v1}, {Key: "a", CommitID: "2", Vector: v2}}
				w.commit(q.Fail, es, true)
				w.commit(q.Fail, es, true)
				q.Case()
				q.Step(2)
				q.State(rt.Mix(rt.Mix(uint64(v1), uint64(v2)), uint64(base)))
			}
		}
	}
}

// names: keys and ids are never confused, whatever they look like.
func names(q *hk.Seq) {
	var ns []string
	for _, n := range hk.Names() {
		if !strings.Contains(n, "\x00") { // text cannot hold it
			ns = append(ns, n)
		}
	}
	q.Bound("all ordered pairs of %d names, as keys and as ids", len(ns))
	for i, a := range ns {
		for j, b := range ns {
			if i == j {
				continue
			}
			w := newWorld(i%2 == 0, map[string]int64{a: 0, b: 7})
			w.commit(q.Fail, []entry{{Key: a, CommitID: "1", Vector: 5}, {Key: b, CommitID: "2", Vector: 3}}, true)
			w.commit(q.Fail, []entry{{Key: a, CommitID: a, Vector: 50}, {Key: a, CommitID: b, Vector: 30}}, true)
			w.commit(q.Fail, []entry{{Key: a, CommitID: b, Vector: 30}, {Key: b, CommitID: a + b, Vector: 11}, {Key: b, CommitID: b + a + "!", Vector: 13}}, true)
			w.commit(q.Fail, []entry{{Key: a, CommitID: b + "?"}, {Key: a, CommitID: b + "x", Vector: 17}, {Key: a + b, CommitID: "x", Vector: 19}, {Key: b, CommitID: a + "x", Vector: 23}}, true)
			q.Case()
			q.Step(4)
			q.State(rt.Mix(uint64(i), uint64(j)))
		}
	}
}

// marathon: one persister over a long life; batches retried, repeated much later,
// or refused for an entry without an id and sent again.
func marathon(q *hk.Seq) {
	const n = 1500
	q.Bound("one history of %d batches", n)
	w := newWorld(true, map[string]int64{"k0": 0})
	batch := func(i int) (es []entry) {
		for j := 0; j <= i%3; j++ {
			es = append(es, entry{Key: "k" + strconv.Itoa((i+j*j)%11), CommitID: fmt.Sprintf("%d-%d", i, j), Vector: int64(i*7 + j - 2000)})
			if i%4 == 0 {
				es[j].FencingToken = tk(int64(i/40 + i%5))
			}
		}
		return es
	}
	for i := 0; i < n; i++ {
		es := batch(i)
		if i%5 == 2 {
			w.commit(q.Fail, append(es[:len(es):len(es)], entry{Key: "k1", Vector: 1}), true)
		}
		w.commit(q.Fail, es, true)
		if i%3 == 0 {
			w.commit(q.Fail, es, true)
		}
		if i%7 == 0 {
			w.commit(q.Fail, append(batch(i*7919%(i+1)), batch(i/2)...), true)
		}
		w.log, w.db.Log = w.log[len(w.log)-1:], nil
		q.Case()
		q.Step(2)
		q.State(uint64(i))
	}
}

// sizes: batches of any size are applied completely, or not at all.
func sizes(q *hk.Seq) {
	var ns []int
	for n := 1; n <= 40; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 1000, 1001, 1024, 2049)
	q.Bound("%d batch sizes up to 2049, the last entry refused or not", len(ns))
	for _, n := range ns {
		for bad := 0; bad < 2; bad++ {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			w := newWorld(n%2 == 0, map[string]int64{"k0": 0, "k1": 0, "k2": 0})
			var es []entry
			for i := 0; i < n; i++ {
				es = append(es, entry{Key: "k" + strconv.Itoa(i%3), CommitID: strconv.Itoa(i), Vector: int64(i + 1)})
			}
			if bad == 1 {
				broken := append([]entry(nil), es...)
				broken[n-1].CommitID = ""
				w.commit(q.Fail, broken, true)
			}
			w.commit(q.Fail, es, true)
			w.commit(q.Fail, es, true)
			q.Case()
			q.Step(n)
			q.State(uint64(2*n + bad))
		}
	}
}

// cancelled: a cancelled context means an error and no effect.
func cancelled(q *hk.Seq) {
	q.Bound("every single entry under a cancelled context, then retried")
	for i := range alphabet[:7] {
		w := newWorld(true, nil)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		ok := w.ctx
		w.ctx = func() context.Context { return ctx }
		if err := w.send(alphabet[i : i+1]); err == nil {
			q.Fail("a batch under a cancelled context succeeds")
		}
		if got := w.actual(); got != w.s.String() {
			q.Fail("a batch under a cancelled context takes effect: %s", got)
		}
		w.ctx = ok
		w.commit(q.Fail, alphabet[i:i+1], true)
		if w.send(nil) != nil || len(w.s.scalar) != 1 {
			q.Fail("an empty batch fails")
		}
		q.Case()
		q.State(uint64(i))
	}
}

// concurrent: two writers at once, possibly the same batch twice; the result
// is that of the committed ones in some order.
func concurrent(faults bool) func() {
	al := alphabet
	sets := [][]entry{{al[0]}, {al[1], al[2]}, {al[2], al[0]}, {al[3], al[4]}, {al[4], al[3]}, {al[5], al[1]}, {al[2]}, {al[4]}}
	return func() {
		rows := map[string]int64{"a": 10}
		create := rt.Choose(2, false, "create") == 1
		if !create {
			rows["b"] = 0
		}
		w := newWorld(create, rows)
		w.db.Faults = faults
		var bs [2][]entry
		var errs [2]error
		var hs []*rt.Handle
		at := 0
		for i := 0; i < 2; i++ {
			at += rt.Choose(len(sets)-at, false, "batch")
			bs[i] = append([]entry(nil), sets[at]...)
			hs = append(hs, rt.GoNamed("writer", func() { errs[i] = w.p.CommitBatch(w.ctx(), bs[i]) }))
		}
		for _, h := range hs {
			h.Join()
		}
		w.db.Faults = false
		for i := 0; i < 2; i++ {
			w.log = append(w.log, fmt.Sprintf("batch%s: %v", show(bs[i]), errs[i]))
		}
		got := w.actual()
		var fit *state
		var wants []string
		for m := 0; m < 4; m++ { // which took effect
			if errs[0] == nil && m&1 == 0 || errs[1] == nil && m&2 == 0 {
				continue
			}
			for o := 0; o < 2; o++ {
				s := w.s
				for j := 0; j < 2; j++ {
					i := j ^ o
					if m>>i&1 == 1 {
						s = s.apply(bs[i], create)
					}
				}
				if s.String() == got {
					fit = s
				} else {
					wants = append(wants, s.String())
				}
			}
		}
		if fit == nil {
			rt.Fail("two writers at once left %s, which no order of the batches explains %v: %s\n%s", got, wants, w, strings.Join(w.db.Log, "\n"))
			return
		}
		w.s = fit
		for _, b := range bs {
			w.commit(rt.Fail, b, true)
		}
	}
}

func main() {
	hk.Main(hk.Check{ID: "C14",
		Rule:        "an execution is one history of batches with one placement of faults, run through database/sql on an interpreter of the real statements with transactions; the tables are compared with the specification after every batch",
		Assumptions: []string{"the PostgreSQL model: READ COMMITTED with row locks, a failing statement aborts its transaction, reference schema", "database/sql is correct", "a commit id always carries the same key, vector and token"},
		Jobs: func(tier string) []hk.Job {
			f, l, p := 2, 4, 1
			hist := []int{0, 1, 2, 7}
			if tier == "thorough" {
				f, l, p = 3, 5, 2
				hist = []int{0, 1, 2, 3, 7}
			}
			return []hk.Job{
				{Name: "histories", Weight: 7, Bounds: []rt.Budget{{F: 1}}, Body: histories(hist, 2, 2, true)},
				{Name: "single", Weight: 7, Bounds: []rt.Budget{{F: f}}, Body: histories([]int{0, 1, 2, 3}, 2, 1, true)},
				{Name: "faultless", Weight: 4, Bounds: hk.P(0), Body: histories([]int{0, 1, 2, 3, 4, 5, 6, 7}, 2, 2, false)},
				{Name: "triples", Weight: 4, Bounds: hk.P(0), Body: histories([]int{0, 1, 2, 3, 4, 6}, 3, 1, false)},
				{Name: "tokens", Weight: 3, Bounds: hk.P(0), Body: tokens(l)},
				{Name: "numbers", Weight: 2, Seq: numbers},
				{Name: "sizes", Weight: 3, Seq: sizes},
				{Name: "names", Weight: 2, Seq: names},
				{Name: "marathon", Weight: 2, Seq: marathon},
				{Name: "cancelled", Weight: 1, Seq: cancelled},
				{Name: "concurrent", Weight: 5, Bounds: hk.P(p + 1), Body: concurrent(false)},
				{Name: "concurrent-faults", Weight: 6, Bounds: []rt.Budget{{P: p, F: 1}}, Body: concurrent(true)},
			}
		}})
}
