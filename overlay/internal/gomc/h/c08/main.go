// C08: each admitted unit reaches storage exactly once.
package main

import (
	"fmt"
	"time"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/gomc/wh"
	"vsa/internal/ratelimiter/core"
)

const ms = time.Millisecond

// setup describes one scenario.
type setup struct {
	name      string
	opts      vsa.Options
	thr, low  int64
	commit    time.Duration
	maxAge    time.Duration
	evictAge  time.Duration
	evict     time.Duration
	slow      time.Duration
	faults    int
	t         int // timers that may fire while threads can run
	p         int // preemptions without early timers
	pt        int // preemptions with early timers
	traffic   [][]string
	stoppers  int
	evictRace bool // traffic meets eviction
}

// Programs: letters separated by blanks: a+ consume one of key a, a- refund,
// a3 consume three, a~2 update by -2, z5 sleep 5 ms.
func run(w *wh.World, prog []string) {
	for _, x := range prog {
		key := x[:1]
		switch {
		case x[0] == 'z':
			d := 0
			for _, c := range x[1:] {
				d = d*10 + int(c-'0')
			}
			rt.Sleep(time.Duration(d) * ms)
		case x[1] == '+':
			w.Consume(key, 1)
		case x[1] == '-':
			w.Refund(key, 1)
		case x[1] == '~':
			w.Update(key, -int64(x[2]-'0'))
		default:
			w.Consume(key, int64(x[1]-'0'))
		}
	}
}

func fields(s string) []string {
	var out []string
	cur := ""
	for _, c := range s + " " {
		if c == ' ' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
			continue
		}
		cur += string(c)
	}
	return out
}

func body(s setup) func() {
	return func() {
		o := s.opts
		if o.HierarchicalGroups == 0 {
			o.HierarchicalGroups = 2
		}
		w := wh.New(9, o)
		w.Slow, w.Faults, w.Probe = s.slow, s.faults > 0, true
		wk := core.NewWorker(w.Store, w, s.thr, s.low, s.commit, s.maxAge, s.evictAge, s.evict)
		wk.Start()
		var hs []*rt.Handle
		for _, al := range s.traffic {
			prog := fields(al[rt.Choose(len(al), false, "traffic")])
			hs = append(hs, rt.GoNamed("traffic", func() { run(w, prog) }))
		}
		for _, h := range hs {
			h.Join()
		}
		var st []*rt.Handle
		for i := 1; i < s.stoppers; i++ {
			st = append(st, rt.GoNamed("stop", wk.Stop))
		}
		wk.Stop()
		for _, h := range st {
			h.Join()
		}
		if n := rt.LiveThreads(); n != 0 {
			rt.Fail("%d goroutines still run after Stop returned: %s", n, rt.LiveNames())
		}
		judge(s, w)
		w.Store.CloseAll()
	}
}

func judge(s setup, w *wh.World) {
	nets := map[string]int64{}
	for _, o := range w.Ops {
		nets[o.Key] += o.N
	}
	for _, k := range w.Keys() {
		live := w.Store.GetOrCreate(k)
		net, got := nets[k], w.Accepted[k]
		if got == net {
			continue
		}
		// After a rejected last batch exactly the rest must have been offered.
		offered, failed := w.Missing(k)
		if failed && got+offered == net {
			continue
		}
		// What evicted instances still hold, and how much of it may be the known
		// race: requests that were not over when their instance was evicted.
		var orphan, raced int64
		for _, v := range w.Insts[k] {
			if v == live {
				continue
			}
			_, o := v.State()
			orphan += o
			for _, op := range w.Ops {
				if op.V == v && op.Res >= evictedBy(s, w, v) {
					raced += op.N
				}
			}
		}
		diff := net - got
		if failed {
			diff -= offered
		}
		if diff > 0 && s.evictRace && diff <= orphan && diff <= raced && hk.Known("evict-race-loss") {
			continue
		}
		rt.Fail("key %s: %d units admitted minus refunded, storage accepted %d (last batch rejected: %v): %s", k, net, got, failed, w)
	}
}

// evictedBy is the first eviction instant at which the instance could have
// been found idle: only requests at or after it can meet its removal.
func evictedBy(s setup, w *wh.World, v *vsa.VSA) time.Duration {
	for t := s.evict; ; t += s.evict {
		idle := true
		for _, o := range w.Ops {
			if o.V == v && o.Res < t && o.Acquired+s.evictAge >= t {
				idle = false
			}
		}
		if idle || t > time.Second {
			return t
		}
	}
}

func setups(tier string) []setup {
	hour := time.Hour
	ss := []setup{
		{name: "commit-vs-traffic", thr: 2, commit: 10 * ms, evictAge: hour, evict: hour, faults: 1, t: 1, p: 2,
			traffic: [][]string{{"a+ a+ z10 a+", "a3 z10 a- z3 a2"}, {"a2 z10 a+", "b2 z10 a2"}}},
		{name: "hysteresis", thr: 3, low: 1, commit: 10 * ms, evictAge: hour, evict: hour, faults: 2, t: 1, p: 1,
			traffic: [][]string{{"a3 z10 a+ a+ z10 a3", "a3 z10 b2 z10 b3", "a4 z10 z10 a+"}}},
		{name: "commit-vs-evict", thr: 2, commit: 10 * ms, evictAge: 5 * ms, evict: 10 * ms, faults: 1, p: 3,
			traffic: [][]string{{"a3 b+ z15", "a+ z25", "a2 z12 a2 z15", "a4 z6"}}},
		{name: "max-age-vs-evict", thr: 9, commit: 10 * ms, maxAge: 5 * ms, evictAge: 5 * ms, evict: 10 * ms, faults: 1, p: 3,
			traffic: [][]string{{"a3 b+ z15", "a+ z25", "a2 z12 b2 z15"}}},
		{name: "slow-storage", thr: 2, commit: 10 * ms, evictAge: 12 * ms, evict: 20 * ms, evictRace: true, slow: 15 * ms, faults: 1, t: 1, p: 1,
			traffic: [][]string{{"a3 b2 z13 a2", "a2 z35", "a3 z12 a+ z12 a2", "b+ z41"}}},
		{name: "stop-any-time", thr: 2, commit: 10 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, stoppers: 2, faults: 1, t: 2, p: 2,
			traffic: [][]string{{"a3", "a+", "a2 z10", "b3 a+ z7"}}},
		{name: "failing-storage", thr: 1, commit: 10 * ms, evictAge: 15 * ms, evict: 20 * ms, faults: 3, p: 1,
			traffic: [][]string{{"a2 b+ z11 a+ z45", "a+ z25 b+ z25", "a2 b3 z33"}}},
		{name: "negative", thr: 2, commit: 10 * ms, evictAge: 15 * ms, evict: 20 * ms, faults: 1, p: 2,
			traffic: [][]string{{"a~3 z12 a~1", "a~1 z45", "a2 b~2 z10 b~2 z5"}}},
		{name: "refund-meets-commit", thr: 2, commit: 10 * ms, evictAge: hour, evict: hour, slow: 3 * ms, p: 2, t: 1,
			traffic: [][]string{{"a3"}, {"z11 a-", "z10 a- a-", "z11 a- a+"}}},
		{name: "refund-meets-evict", thr: 9, commit: 90 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, slow: 3 * ms, p: 2, t: 1,
			traffic: [][]string{{"a3"}, {"z11 a-", "z11 a- z15 a+", "z11 a+ a-", "z11 a- a- z3"}}},
		{name: "refund-in-slow-evict", thr: 9, commit: 90 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, slow: 12 * ms, p: 2, t: 1,
			traffic: [][]string{{"a3"}, {"z11 a- z30", "z11 a- a- z15 a+", "z11 a+ a-", "z14 a- z35"}}},
		{name: "refund-then-idle", thr: 2, commit: 10 * ms, evictAge: 5 * ms, evict: 25 * ms, evictRace: true, slow: 3 * ms, p: 1, t: 1,
			traffic: [][]string{{"a3"}, {"z11 a- z25", "z11 a- a- z25", "z11 a- a+ z24", "z11 a- z30 a+ z10"}}},
		{name: "traffic-meets-evict", thr: 9, commit: 50 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, p: 2, t: 1,
			traffic: [][]string{{"a+ z10 a+", "a2 z10 a+ z12"}, {"z10 a+", "z10 b+ z11"}}},
		{name: "request-meets-removal", thr: 9, commit: 50 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, p: 1, t: 1, pt: 1,
			traffic: [][]string{{"a+ z10 a+"}}},
		{name: "striped", opts: vsa.Options{Stripes: 4, HierarchicalGroups: 2, FastPathGuard: 1}, thr: 2, commit: 10 * ms, evictAge: 5 * ms, evict: 10 * ms, evictRace: true, faults: 1, t: 1, p: 1,
			traffic: [][]string{{"a3 a+ z15", "a2 z10 b+", "a+ a+ z3"}, {"a+ z8", "b2"}}},
	}
	if tier == "thorough" {
		for i := range ss {
			ss[i].p++
			ss[i].t++
			ss[i].pt++
		}
	}
	return ss
}

// crowd: many keys at once; any one of the first storage calls may fail.
func crowd(n int) func() {
	return func() {
		s := setup{thr: 2, evict: 20 * ms, evictAge: 15 * ms}
		rt.MoreSteps(400 * n)
		w := wh.New(9, vsa.Options{HierarchicalGroups: 2})
		w.Straight = true
		w.FailNth = rt.Choose(4, false, "failing call")
		wk := core.NewWorker(w.Store, w, s.thr, 0, 10*ms, 0, s.evictAge, s.evict)
		wk.Start()
		for i := 0; i < n; i++ {
			w.Consume(fmt.Sprintf("k%04d", i), int64(1+i%3))
		}
		rt.Sleep(11 * ms)
		for i := 0; i < n; i += 2 {
			w.Consume(fmt.Sprintf("k%04d", i), 1)
		}
		if rt.Choose(2, false, "leave") == 1 {
			rt.Sleep(20 * ms)
		}
		wk.Stop()
		judge(s, w)
		w.Store.CloseAll()
	}
}

// marathon: few keys over many intervals, with refunds and removals.
func marathon(n int) func() {
	return func() {
		s := setup{thr: 2, evict: 207*ms + 13, evictAge: 150 * ms}
		rt.MoreSteps(2000 * n)
		w := wh.New(int64(4*n), vsa.Options{HierarchicalGroups: 2})
		w.Straight = true
		w.FailNth = []int{0, 1, n / 2}[rt.Choose(3, false, "failing call")]
		wk := core.NewWorker(w.Store, w, s.thr, int64(rt.Choose(2, false, "low")), 10*ms, 0, s.evictAge, s.evict)
		wk.Start()
		rt.Sleep(3 * ms)
		for i := 0; i < n; i++ {
			w.Consume("a", int64(1+i%3))
			if i%5 == 4 {
				w.Refund("a", 1)
			}
			if i%7 == 0 {
				w.Update("b", -1)
			}
			if i%100 == 99 {
				rt.Sleep(400 * ms) // everything is evicted
				w.Consume("c", 1)
			}
			rt.Sleep(10 * ms)
		}
		wk.Stop()
		judge(s, w)
		w.Store.CloseAll()
	}
}

func bounds(s setup) []rt.Budget {
	b := hk.PTF(s.p, 0, s.faults)
	if s.t > 0 {
		b = append(b, rt.Budget{P: s.pt, T: s.t, F: s.faults})
	}
	return b
}

func main() {
	hk.Main(hk.Check{ID: "C08",
		Rule:        "an execution is one schedule of traffic, commit loop, eviction loop, storage answers and stop; per key accepted vectors must equal admitted minus refunded",
		Assumptions: []string{"sequentially consistent atomics; sync.Map modelled as a linearizable map", "commit threshold at least 1"},
		Jobs: func(tier string) []hk.Job {
			var js []hk.Job
			for _, s := range setups(tier) {
				js = append(js, hk.Job{Name: s.name, Weight: 3, Bounds: bounds(s), Body: body(s)})
			}
			sizes := []int{65, 100, 101, 129, 257, 513, 1025, 9001}
			if tier == "thorough" {
				sizes = append(sizes, 1001, 2049, 4097)
			}
			for _, n := range sizes {
				js = append(js, hk.Job{Name: fmt.Sprintf("crowd-%d", n), Weight: 1, Bounds: hk.P(0), Body: crowd(n)})
			}
			return append(js, hk.Job{Name: "marathon", Weight: 2, Bounds: hk.P(0), Body: marathon(600)})
		}})
}
