// C06: closing an accumulator always stops its background work and nothing else.
package main

import (
	"fmt"
	"time"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
)

type config struct {
	name string
	o    vsa.Options
}

var cachedCfgs = []config{
	{"cached", vsa.Options{UseCachedGate: true}},
	{"cached-hier2", vsa.Options{UseCachedGate: true, HierarchicalGroups: 2, CacheInterval: time.Millisecond}},
	{"cached-fast-slack", vsa.Options{UseCachedGate: true, FastPathGuard: 1, CacheSlack: 1, HierarchicalGroups: 2}},
	{"cached-negative-interval", vsa.Options{UseCachedGate: true, CacheInterval: -5, HierarchicalGroups: 2}},
}
var plainCfgs = []config{
	{"default", vsa.Options{}},
	{"interval-without-gate", vsa.Options{CacheInterval: time.Millisecond, CacheSlack: 3}},
	{"all-but-cache", vsa.Options{FastPathGuard: 1, GroupCount: 2, HierarchicalGroups: 2}},
}

func interval(o vsa.Options) time.Duration {
	if o.CacheInterval <= 0 {
		return 100 * time.Microsecond
	}
	return o.CacheInterval
}

// idle fails unless nothing runs in the background any more.
func idle(what string) {
	rt.Quiesce()
	if n := rt.LiveThreads(); n != 0 {
		rt.Fail("%s: %d background goroutines still run: %s", what, n, rt.LiveNames())
	}
	if n := rt.PendingTimers(); n != 0 {
		rt.Fail("%s: %d timers still armed", what, n)
	}
}

// works checks that a closed accumulator still counts: s units are free.
func works(v *vsa.VSA, s int64) {
	if s0, vec := v.State(); s0 != s || vec != 0 {
		rt.Fail("State()=(%d,%d) after Close, want (%d,0)", s0, vec, s)
	}
	v.Update(2)
	if a := v.Available(); a != s-2 {
		rt.Fail("Available()=%d after Close and Update(2), want %d", a, s-2)
	}
	if !v.TryRefund(5) {
		rt.Fail("TryRefund refused after Close")
	}
	if !v.TryConsume(s - 2) {
		rt.Fail("TryConsume(%d) of %d refused after Close", s-2, s)
	}
	v.Commit(s - 2)
	if s1, vec := v.State(); s1 != 2 || vec != 0 {
		rt.Fail("State()=(%d,%d) after Close, want (2,0)", s1, vec)
	}
	v.Close()
}

// closing: closers and users in parallel.
func closing(c config, closers, twice int) func() {
	return func() {
		v := vsa.NewWithOptions(9, c.o)
		warm := rt.Choose(2, false, "warm")
		if warm == 1 {
			rt.Sleep(interval(c.o) * 5 / 2)
		}
		var hs []*rt.Handle
		for i := 0; i < closers; i++ {
			i := i
			hs = append(hs, rt.GoNamed("close", func() {
				v.Close()
				if i < twice {
					v.Close()
				}
			}))
		}
		use := rt.Choose(3, false, "use")
		hs = append(hs, rt.GoNamed("use", func() {
			switch use {
			case 0:
				v.TryConsume(1)
			case 1:
				v.Update(3)
				v.Commit(1)
			}
		}))
		for _, h := range hs {
			h.Join()
		}
		idle("after Close")
		s, vec := v.State()
		if want := []int64{1, 3 - 1, 0}[use]; vec != want && !(use == 0 && vec == 0) {
			rt.Fail("V=%d after a concurrent Close, want %d", vec, want)
		}
		for vec > 0 && v.TryRefund(vec) {
			s, vec = v.State()
		}
		if s != 9-map[bool]int64{true: 1}[use == 1] || vec != 0 {
			rt.Fail("State()=(%d,%d) after Close and refunds", s, vec)
		}
		w := vsa.NewWithOptions(9, c.o)
		w.Close()
		works(w, 9)
		idle("at the end")
	}
}

// lifecycle counts background work while open.
func lifecycle(c config, want int) func() {
	return func() {
		n := 1 + rt.Choose(3, false, "instances")
		var vs []*vsa.VSA
		for i := 0; i < n; i++ {
			vs = append(vs, vsa.NewWithOptions(9, c.o))
		}
		rt.Quiesce()
		if got := rt.LiveThreads(); got != want*n {
			rt.Fail("%d background goroutines for %d open accumulators, want %d", got, n, want*n)
		}
		if rt.Choose(2, false, "tick") == 1 {
			rt.Sleep(interval(c.o) * 7 / 2)
			rt.Quiesce()
		}
		for i, v := range vs {
			v.Close()
			rt.Quiesce()
			if got := rt.LiveThreads(); got != want*(n-i-1) {
				rt.Fail("%d background goroutines after closing %d of %d accumulators, want %d", got, i+1, n, want*(n-i-1))
			}
		}
		idle("after Close")
		works(vs[0], 9)
		idle("at the end")
	}
}

// freshness: after one interval the gate grants exactly what is available
// beyond the slack, and refuses nothing else.
func freshness(c config, depth int) func() {
	type op struct {
		k byte
		n int64
	}
	al := []op{{'C', 2}, {'C', 3}, {'R', 1}, {'K', 0}, {'U', -1}, {'T', 0}, {'U', 2}}
	return func() {
		v := vsa.NewWithOptions(5, c.o)
		seq := ""
		for i := 0; i < depth; i++ {
			o := al[rt.Choose(len(al), false, "op")]
			seq += fmt.Sprintf("%c%d ", o.k, o.n)
			switch o.k {
			case 'C':
				v.TryConsume(o.n)
			case 'R':
				v.TryRefund(o.n)
			case 'U':
				v.Update(o.n)
			case 'K':
				_, x := v.State()
				v.Commit(x)
			case 'T':
				rt.Sleep(interval(c.o) * 3)
			}
		}
		rt.Sleep(interval(c.o) + interval(c.o)/2)
		n := 1 + int64(rt.Choose(4, false, "n"))
		a := v.Available()
		slack := c.o.CacheSlack
		got := v.TryConsume(n)
		if got && a < n || !got && a-slack >= n {
			rt.Fail("after %sand one refresh interval: TryConsume(%d)=%v with %d available (slack %d)", seq, n, got, a, slack)
		}
		v.Close()
		idle("after Close")
	}
}

func main() {
	hk.Main(hk.Check{ID: "C06",
		Rule:        "an execution ends with every accumulator closed; no virtual thread or timer may remain",
		Assumptions: []string{"sequentially consistent atomics"},
		Jobs: func(tier string) []hk.Job {
			p, d := 2, 3
			if tier == "thorough" {
				p, d = 3, 4
			}
			var js []hk.Job
			for _, c := range cachedCfgs {
				js = append(js, hk.Job{Name: c.name + "/closing2", Weight: 5, Bounds: hk.PTF(p, 1, 0), Body: closing(c, 2, 1)})
				js = append(js, hk.Job{Name: c.name + "/closing1", Weight: 4, Bounds: hk.PTF(p, 2, 0), Body: closing(c, 1, 1)})
				js = append(js, hk.Job{Name: c.name + "/lifecycle", Weight: 2, Bounds: hk.PTF(1, 1, 0), Body: lifecycle(c, 1)})
				js = append(js, hk.Job{Name: c.name + "/freshness", Weight: 3, Bounds: hk.P(0), Body: freshness(c, d)})
			}
			for _, c := range plainCfgs {
				js = append(js, hk.Job{Name: c.name + "/closing3", Weight: 3, Bounds: hk.P(p), Body: closing(c, 3, 1)})
				js = append(js, hk.Job{Name: c.name + "/lifecycle", Weight: 1, Bounds: hk.P(1), Body: lifecycle(c, 0)})
			}
			return js
		}})
}
