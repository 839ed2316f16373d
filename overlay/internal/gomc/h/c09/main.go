// C09: the worker commits and evicts exactly when its policy says so.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/core"
)

const (
	ms     = time.Millisecond
	tick   = 10 * ms                          // commit interval
	offset = 3*ms + 137*time.Microsecond + 11 // requests come this long after a commit tick
	budget = 100
)

type config struct {
	name     string
	thr, low int64
	maxAge   time.Duration
	evictAge time.Duration // 0: eviction off
	etick    time.Duration // eviction interval
	actions  []string
	depth    int
	opts     vsa.Options
}

// tri is what the model knows about a key being armed.
type tri int

const (
	yes tri = iota
	no
	maybe // below the watermark for a moment that no tick saw
)

type key struct {
	inst  *vsa.VSA
	live  bool
	s, v  int64
	last  time.Duration
	armed tri
	since int64 // smallest |v| since the last tick, to see passing dips
}

type batch struct {
	cs     []core.Commit
	at     time.Duration
	failed bool
	inflow []string
	insts  []*vsa.VSA
}

type world struct {
	c       config
	store   *core.Store
	keys    map[string]*key
	batches []*batch
	fail    bool
	inflow  string // applied while the next batch holding that key is stored
	anyKey  bool   // ... or any key
	trace   []string
	start   time.Duration
}

func now() time.Duration { return time.Duration(rt.NowNanos()) }

func (w *world) bad(format string, a ...any) {
	rt.Fail("%s (thr=%d low=%d maxAge=%v evictAge=%v; requests: %s)", fmt.Sprintf(format, a...), w.c.thr, w.c.low, w.c.maxAge, w.c.evictAge, strings.Join(w.trace, " "))
}

// CommitBatch implements core.Persister.
func (w *world) CommitBatch(cs []core.Commit) error {
	b := &batch{cs: append([]core.Commit(nil), cs...), at: now(), failed: w.fail}
	w.batches = append(w.batches, b)
	w.fail = false
	for _, c := range cs {
		if w.inflow != "" && (w.inflow[:1] == c.Key || w.anyKey) {
			x := w.inflow
			w.inflow = ""
			b.inflow = append(b.inflow, x)
			b.insts = append(b.insts, w.request(x))
		}
	}
	if b.failed {
		return errors.New("storage rejected the batch")
	}
	return nil
}

func (w *world) PrintFinalMetrics() {}

// request performs one action on the store; the model is updated by apply.
func (w *world) request(a string) *vsa.VSA {
	v := w.store.GetOrCreate(a[:1])
	switch a[1] {
	case '+':
		if !v.TryConsume(int64(a[2] - '0')) {
			w.bad("%s refused", a)
		}
	case '-':
		v.TryRefund(int64(a[2] - '0'))
	case '~':
		v.Update(-int64(a[2] - '0'))
	}
	return v
}

// apply does to the model what request does to the store.
func (w *world) apply(a string, at time.Duration, v *vsa.VSA) {
	k := w.keys[a[:1]]
	if k == nil {
		k = &key{}
		w.keys[a[:1]] = k
	}
	if !k.live {
		if k.inst != nil && v == k.inst {
			w.bad("key %s was not removed: its old accumulator is still there", a[:1])
		}
		*k = key{inst: v, live: true, s: budget, armed: yes}
	} else if v != k.inst {
		w.bad("key %s was removed although it was not idle or its remainder not stored", a[:1])
	}
	k.last = at
	n := int64(a[2] - '0')
	switch a[1] {
	case '+':
		k.v += n
	case '-':
		if k.v > 0 {
			k.v -= min(n, k.v)
		}
	case '~':
		k.v -= n
	}
	if k.armed == no && abs(k.v) <= w.c.low {
		k.armed = maybe
	}
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (w *world) names() []string {
	var ns []string
	for n := range w.keys {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// stored settles one observed batch in the model; evict says which keys it may
// remove.
func (w *world) stored(b *batch, evict map[string]bool) {
	seen := map[string]bool{}
	for _, c := range b.cs {
		k := w.keys[c.Key]
		if k == nil || !k.live {
			w.bad("at %v key %s was persisted but does not exist", b.at, c.Key)
		}
		if seen[c.Key] {
			w.bad("at %v one batch holds key %s twice: %v", b.at, c.Key, b.cs)
		}
		seen[c.Key] = true
		if c.Vector != k.v {
			w.bad("at %v key %s was persisted with vector %d, its vector is %d", b.at, c.Key, c.Vector, k.v)
		}
		if k.v == 0 {
			w.bad("at %v key %s was persisted with nothing pending", b.at, c.Key)
		}
	}
	for i, a := range b.inflow {
		// an idle key with nothing pending may already have been removed by this tick
		if k := w.keys[a[:1]]; k != nil && k.live && evict[a[:1]] && k.v == 0 && b.insts[i] != k.inst {
			k.live = false
		}
		w.apply(a, b.at, b.insts[i])
	}
	if b.failed {
		return
	}
	for _, c := range b.cs {
		k := w.keys[c.Key]
		k.s -= abs(c.Vector)
		k.v -= c.Vector
		if evict == nil {
			k.armed = no
			if abs(k.v) <= w.c.low || w.c.low <= 0 {
				k.armed = yes
			}
		}
	}
}

// commitTick checks the batches of one commit interval against the policy.
func (w *world) commitTick(at time.Duration, bs []*batch) {
	must, may := map[string]bool{}, map[string]bool{}
	for _, n := range w.names() {
		k := w.keys[n]
		if !k.live {
			continue
		}
		if k.armed != yes && abs(k.v) <= w.c.low {
			k.armed = yes // the tick sees it at or below the watermark
		}
		if w.c.low <= 0 {
			k.armed = yes
		}
		over := abs(k.v) >= w.c.thr
		idle := w.c.maxAge > 0 && k.v != 0 && at-k.last >= w.c.maxAge
		switch {
		case idle, over && k.armed == yes:
			must[n] = true
		case over && k.armed == maybe:
			may[n] = true
		}
	}
	done := map[string]bool{}
	for _, b := range bs {
		for _, c := range b.cs {
			if done[c.Key] {
				w.bad("at %v key %s was persisted twice in one interval", at, c.Key)
			}
			done[c.Key] = true
			if !must[c.Key] && !may[c.Key] {
				k := w.keys[c.Key]
				if k == nil {
					w.bad("at %v unknown key %s was persisted", at, c.Key)
				}
				w.bad("at %v key %s was persisted although its vector %d (armed: %v, idle %v) is not due", at, c.Key, k.v, k.armed == yes, at-k.last)
			}
		}
	}
	for _, n := range w.names() {
		if must[n] && !done[n] {
			w.bad("at %v key %s was not persisted although its vector %d is due (idle %v)", at, n, w.keys[n].v, at-w.keys[n].last)
		}
		if k := w.keys[n]; k.armed == maybe {
			if may[n] && done[n] {
				k.armed = yes
			} else if may[n] {
				k.armed = no
			}
		}
	}
	for _, b := range bs {
		w.stored(b, nil)
	}
}

// evictTick checks the batches of one eviction interval.
func (w *world) evictTick(at time.Duration, bs []*batch) {
	due := map[string]bool{}
	for _, n := range w.names() {
		if k := w.keys[n]; k.live && at-k.last > w.c.evictAge {
			due[n] = true
		}
	}
	done := map[string]bool{}
	failed := map[string]bool{}
	for _, b := range bs {
		for _, c := range b.cs {
			if !due[c.Key] {
				w.bad("at %v eviction persisted key %s, idle only %v", at, c.Key, at-w.keys[c.Key].last)
			}
			if done[c.Key] {
				w.bad("at %v eviction persisted key %s twice", at, c.Key)
			}
			done[c.Key] = true
			failed[c.Key] = b.failed
		}
	}
	for _, b := range bs {
		w.stored(b, due)
	}
	for _, n := range w.names() {
		if k := w.keys[n]; due[n] && k.v != 0 && !done[n] && k.last != at {
			w.bad("at %v key %s, idle %v, was not persisted by the eviction", at, n, at-k.last)
		}
	}
	for _, n := range w.names() {
		k := w.keys[n]
		if due[n] && !failed[n] && at-k.last > w.c.evictAge {
			k.live = false
		}
	}
}

// advance replays the ticks since the last look against the model.
func (w *world) advance(from, to time.Duration) {
	used := 0
	at := func(t time.Duration) []*batch {
		var bs []*batch
		for _, b := range w.batches {
			if b.at == t {
				bs = append(bs, b)
				used++
			}
		}
		return bs
	}
	next := func(t, every time.Duration) time.Duration { return w.start + ((t-w.start)/every+1)*every }
	for t := from; ; {
		c, e := next(t, tick), next(t, w.c.etick)
		if t = min(c, e); t > to {
			break
		}
		if t == c {
			w.commitTick(t, at(t))
		}
		if w.c.evictAge > 0 && t == e {
			w.evictTick(t, at(t))
		}
	}
	if used != len(w.batches) {
		for _, b := range w.batches {
			w.trace = append(w.trace, fmt.Sprintf("batch@%v%v", b.at, b.cs))
		}
		w.bad("storage was written outside the intervals")
	}
	w.batches = nil
}

func body(c config) func() {
	return func() {
		if c.etick == 0 {
			c.etick = 27 * ms
		}
		w := &world{c: c, keys: map[string]*key{}}
		o := c.opts
		if o.HierarchicalGroups == 0 {
			o.HierarchicalGroups = 2
		}
		w.store = core.NewStoreWithOptions(budget, o)
		age, iv := c.evictAge, c.etick
		if age == 0 {
			age, iv = time.Hour, time.Hour
		}
		wk := core.NewWorker(w.store, w, c.thr, c.low, tick, c.maxAge, age, iv)
		wk.Start()
		rt.Quiesce()
		w.start = now()
		rt.Sleep(offset)
		last := w.start
		for i := 0; i < c.depth; i++ {
			a := c.actions[rt.Choose(len(c.actions), false, "request")]
			if a != "-" {
				w.trace = append(w.trace, fmt.Sprintf("%s@%v", a, now()-w.start))
			}
			switch {
			case a == "-":
			case a == "fail":
				w.fail = true
			case a[0] == 'i':
				w.inflow, w.anyKey = a[1:], false
			case a[0] == 'j':
				w.inflow, w.anyKey = a[1:], true
			default:
				w.apply(a, now(), w.request(a))
			}
			rt.Sleep(tick)
			rt.Quiesce()
			w.advance(last, now())
			last = now()
			for _, n := range w.names() {
				k := w.keys[n]
				if k.inst != nil && k.live {
					if s, v := k.inst.State(); s != k.s || v != k.v {
						w.bad("at %v key %s is at (%d,%d), should be at (%d,%d)", now()-w.start, n, s, v, k.s, k.v)
					}
				}
			}
		}
		w.inflow = ""
		wk.Stop()
		// the final flush stores every remainder
		due := map[string]bool{}
		for _, n := range w.names() {
			if k := w.keys[n]; k.live && k.v != 0 {
				due[n] = true
			}
		}
		for _, b := range w.batches {
			for _, x := range b.cs {
				if !due[x.Key] {
					w.bad("the final flush persisted key %s wrongly or twice", x.Key)
				}
				delete(due, x.Key)
			}
			w.stored(b, nil)
		}
		for n := range due {
			w.bad("the final flush left key %s out", n)
		}
		w.batches = nil
		if rt.LiveThreads() != 0 {
			w.bad("goroutines still run after Stop: %s", rt.LiveNames())
		}
		for _, n := range w.names() {
			a := n + "?0"
			v := w.request(a)
			w.apply(a, now(), v)
			k := w.keys[n]
			if s, vec := v.State(); s != k.s || vec != k.v {
				w.bad("finally key %s is at (%d,%d), should be at (%d,%d)", n, s, vec, k.s, k.v)
			}
		}
		w.store.CloseAll()
	}
}

// tally records what storage accepts; one call may fail.
type tally struct {
	got    map[string]int64
	failAt int
	calls  int
	failed map[string]bool
}

func (t *tally) CommitBatch(cs []core.Commit) error {
	t.calls++
	for _, c := range cs {
		if t.calls == t.failAt {
			t.failed[c.Key] = true
		} else {
			t.got[c.Key] += c.Vector
		}
	}
	if t.calls == t.failAt {
		return errors.New("storage rejected the batch")
	}
	return nil
}

func (t *tally) PrintFinalMetrics() {}

// crowd: many keys follow the policy at once.
func crowd(n int) func() {
	return func() {
		rt.MoreSteps(1000 * n)
		t := &tally{got: map[string]int64{}, failed: map[string]bool{}, failAt: rt.Choose(3, false, "failing call")}
		low := int64(rt.Choose(2, false, "low"))
		st := core.NewStoreWithOptions(budget, vsa.Options{HierarchicalGroups: 2})
		wk := core.NewWorker(st, t, 2, low, tick, 25*ms, 44*ms, 50*ms)
		wk.Start()
		name := func(i int) string { return fmt.Sprintf("k%04d", i) }
		insts := make([]*vsa.VSA, n)
		for i := range insts {
			insts[i] = st.GetOrCreate(name(i))
			insts[i].TryConsume(int64(i % 4))
		}
		check := func(when string, want func(i int) int64) {
			for i := range insts {
				if g, x := t.got[name(i)], want(i); g != x && !(t.failed[name(i)] && g == 0) {
					rt.Fail("%d keys: %s storage has %d of the %d units of key %s, policy says %d", n, when, g, i%4, name(i), x)
				}
			}
			t.failed = map[string]bool{}
		}
		rt.Sleep(12 * ms)
		check("after the first interval", func(i int) int64 {
			if i%4 >= 2 {
				return int64(i % 4)
			}
			return 0
		})
		// whatever failed is offered again by the next interval
		rt.Sleep(10 * ms)
		check("after the second interval", func(i int) int64 {
			if i%4 >= 2 {
				return int64(i % 4)
			}
			return 0
		})
		rt.Sleep(20 * ms)
		check("after the maximal age", func(i int) int64 { return int64(i % 4) })
		touched := rt.Choose(2, false, "touch") == 1
		for i := range insts {
			if touched && i%3 == 0 && st.GetOrCreate(name(i)) != insts[i] {
				rt.Fail("%d keys: key %s was removed although it was idle only 42 ms", n, name(i))
			}
		}
		rt.Sleep(10 * ms)
		for i := range insts {
			kept := st.GetOrCreate(name(i)) == insts[i]
			if want := touched && i%3 == 0; kept != want {
				rt.Fail("%d keys: key %s kept after the eviction: %v, policy says %v", n, name(i), kept, want)
			}
		}
		wk.Stop()
		st.CloseAll()
	}
}

func configs(tier string) []config {
	d := 0
	if tier == "thorough" {
		d = 1
	}
	// the idle times a commit tick and an eviction tick see exactly
	exact, gone := 2*tick-offset, 27*ms-offset
	cs := []config{
		{name: "threshold", thr: 3, actions: []string{"-", "a+1", "a+2", "a+3", "b+3", "a-1", "fail"}, depth: 5 + d},
		{name: "threshold-1", thr: 1, actions: []string{"-", "a+1", "b+2", "ia+1", "fail"}, depth: 5 + d},
		{name: "negative", thr: 3, low: 1, maxAge: exact + 1, actions: []string{"-", "a~1", "a~3", "ia~2", "fail"}, depth: 5 + d},
		{name: "hysteresis", thr: 3, low: 1, actions: []string{"-", "a+3", "a+1", "a-2", "ia+1", "ia+3", "fail"}, depth: 5 + d},
		{name: "hysteresis-2", thr: 4, low: 2, actions: []string{"-", "a+4", "a-1", "a-2", "ia+4", "ia+2", "fail"}, depth: 5 + d},
		{name: "hysteresis-3", thr: 4, low: 3, actions: []string{"-", "a+4", "a-1", "a+1", "ia+3", "ia+4"}, depth: 5 + d},
		{name: "hysteresis-1-9", thr: 9, low: 1, actions: []string{"-", "a+9", "a-1", "a-7", "ia+9", "ia+2"}, depth: 5 + d},
		{name: "hysteresis-two-keys", thr: 2, low: 1, actions: []string{"-", "a+2", "b+2", "ia+3", "b-1", "fail"}, depth: 5 + d},
		{name: "hysteresis-max-age", thr: 3, low: 1, maxAge: exact, actions: []string{"-", "a+3", "a+1", "ia+3", "fail"}, depth: 6 + d},
		{name: "max-age", thr: 9, maxAge: exact, actions: []string{"-", "a+1", "a?0", "a-1", "fail"}, depth: 5 + d},
		{name: "max-age-two-keys", thr: 9, maxAge: exact, actions: []string{"-", "a+1", "b+1", "fail"}, depth: 6 + d},
		{name: "max-age-above", thr: 9, maxAge: exact + 1, actions: []string{"-", "a+1", "a?0", "ia+1", "fail"}, depth: 5 + d},
		{name: "max-age-0", thr: 3, maxAge: 0, actions: []string{"-", "a+1", "a+3", "b+2"}, depth: 5 + d},
		{name: "evict-below", thr: 9, evictAge: gone - 1, actions: []string{"-", "a+1", "a?0", "ia?0", "fail"}, depth: 6 + d},
		{name: "evict-two-keys", thr: 9, evictAge: gone - 1, actions: []string{"-", "a+1", "b+1", "fail"}, depth: 6 + d},
		{name: "evict-touched", thr: 9, evictAge: 13 * ms, actions: []string{"-", "a+1", "b+1", "jb+1", "ja?0"}, depth: 6 + d},
		{name: "evict-exact", thr: 9, evictAge: gone, actions: []string{"-", "a+1", "ia+1", "fail"}, depth: 6 + d},
		{name: "evict-threshold", thr: 2, low: 1, maxAge: 7 * ms, evictAge: 13 * ms, actions: []string{"-", "a+1", "a+2", "ia+2", "fail"}, depth: 6 + d},
		{name: "evict-negative", thr: 9, evictAge: 13 * ms, actions: []string{"-", "a~1", "a+1", "fail"}, depth: 6 + d},
		{name: "evict-often", thr: 4, low: 3, etick: 7 * ms, evictAge: 37 * ms, actions: []string{"-", "a+1", "a+4", "b+1"}, depth: 6},
		{name: "evict-soon", thr: 4, low: 3, etick: 7 * ms, evictAge: 2 * ms, actions: []string{"-", "a+1", "a+4", "b+5", "fail"}, depth: 6},
	}
	return cs
}

func main() {
	hk.Main(hk.Check{ID: "C09",
		Rule:        "an execution is one sequence of requests and storage answers, one request per commit interval; every batch and removal is compared with a reference policy",
		Assumptions: []string{"virtual clock; ticks do not coincide with requests", "commit threshold at least 1, low watermark below it"},
		Jobs: func(tier string) []hk.Job {
			var js []hk.Job
			for _, c := range configs(tier) {
				js = append(js, hk.Job{Name: c.name, Weight: 3, Bounds: hk.P(0), Body: body(c)})
			}
			sizes := []int{65, 100, 101, 129, 257, 513, 1025, 9001}
			if tier == "thorough" {
				sizes = append(sizes, 1001, 2049, 4097)
			}
			for _, n := range sizes {
				js = append(js, hk.Job{Name: fmt.Sprintf("crowd-%d", n), Weight: 1, Bounds: hk.P(0), Body: crowd(n)})
			}
			return js
		}})
}
