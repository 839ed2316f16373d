// C07: the store gives every live key one accumulator.
package main

import (
	"fmt"
	"strings"
	"time"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/core"
)

type config struct {
	name   string
	make   func() *core.Store
	direct func() *vsa.VSA
	cached int
}

const budget = 7

func configs() []config {
	mk := func(name string, o vsa.Options) config {
		n := 0
		if o.UseCachedGate {
			n = 1
		}
		return config{name, func() *core.Store { return core.NewStoreWithOptions(budget, o) }, func() *vsa.VSA { return vsa.NewWithOptions(budget, o) }, n}
	}
	return []config{
		{"plain", func() *core.Store { return core.NewStore(budget) }, func() *vsa.VSA { return vsa.New(budget) }, 0},
		mk("cached", vsa.Options{UseCachedGate: true, CacheSlack: 3, HierarchicalGroups: 2}),
		mk("cached-fast", vsa.Options{UseCachedGate: true, CacheInterval: time.Hour, FastPathGuard: 1, HierarchicalGroups: 2}),
		mk("fast", vsa.Options{FastPathGuard: 2, HierarchicalGroups: 3}),
	}
}

type op struct {
	kind byte // G get, D delete
	key  string
	v    *vsa.VSA
	pred uint64
}

type hist struct {
	ops  []*op
	resp uint64
}

func (h *hist) do(kind byte, key string, f func() *vsa.VSA) *vsa.VSA {
	rt.Invoke()
	o := &op{kind: kind, key: key, pred: h.resp}
	i := len(h.ops)
	h.ops = append(h.ops, o)
	o.v = f()
	rt.Respond()
	h.resp |= 1 << uint(i)
	return o.v
}

func (h *hist) get(s *core.Store, key string) *vsa.VSA {
	return h.do('G', key, func() *vsa.VSA { return s.GetOrCreate(key) })
}

func (h *hist) del(s *core.Store, key string) {
	h.do('D', key, func() *vsa.VSA { s.Delete(key); return nil })
}

func (h *hist) String() string {
	ids := map[*vsa.VSA]int{}
	var b []string
	for _, o := range h.ops {
		if o.kind == 'D' {
			b = append(b, "Delete("+o.key+")")
			continue
		}
		if ids[o.v] == 0 {
			ids[o.v] = len(ids) + 1
		}
		b = append(b, fmt.Sprintf("GetOrCreate(%s)=#%d", o.key, ids[o.v]))
	}
	return strings.Join(b, " ")
}

// check searches a sequential order: a get returns the key's instance, or
// publishes a never seen one when the key is absent.
func (h *hist) check() {
	n := len(h.ops)
	var try func(done uint64, live map[string]*vsa.VSA, used map[*vsa.VSA]bool) bool
	try = func(done uint64, live map[string]*vsa.VSA, used map[*vsa.VSA]bool) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		for i, o := range h.ops {
			if done&(1<<uint(i)) != 0 || o.pred&^done != 0 {
				continue
			}
			cur := live[o.key]
			if o.kind == 'D' {
				live[o.key] = nil
				if try(done|1<<uint(i), live, used) {
					return true
				}
				live[o.key] = cur
				continue
			}
			if cur != nil {
				if cur == o.v && try(done|1<<uint(i), live, used) {
					return true
				}
				continue
			}
			if !used[o.v] {
				live[o.key], used[o.v] = o.v, true
				if try(done|1<<uint(i), live, used) {
					return true
				}
				live[o.key], used[o.v] = nil, false
			}
		}
		return false
	}
	if !try(0, map[string]*vsa.VSA{}, map[*vsa.VSA]bool{}) {
		rt.Fail("a key had two accumulators at once, or two keys shared one: %s", h)
	}
}

// fresh compares an untouched instance of the store with a direct one.
func fresh(c config, v *vsa.VSA) {
	w := c.direct()
	for _, n := range []int64{5, 4, 3, 2, 1, 1} {
		a, b := v.TryConsume(n), w.TryConsume(n)
		s1, v1 := v.State()
		s2, v2 := w.State()
		if a != b || s1 != s2 || v1 != v2 {
			rt.Fail("a new accumulator of the store differs from one built with its budget and options: TryConsume(%d)=%v State=(%d,%d), want %v (%d,%d)", n, a, s1, v1, b, s2, v2)
		}
	}
	w.Close()
}

func live(want int, what string) {
	rt.Quiesce()
	if n := rt.LiveThreads(); n != want {
		rt.Fail("%s: %d background goroutines, want %d: %s", what, n, want, rt.LiveNames())
	}
}

// racing: concurrent first accesses, optionally with deletions.
func racing(c config, threads [][]string) func() {
	return func() {
		s := c.make()
		h := &hist{}
		if rt.Choose(2, false, "warm") == 1 {
			h.get(s, "a")
		}
		var hs []*rt.Handle
		for _, al := range threads {
			prog := al[rt.Choose(len(al), false, "prog")]
			hs = append(hs, rt.GoNamed(prog, func() {
				for _, x := range strings.Fields(prog) {
					switch x[0] {
					case 'G':
						h.get(s, x[1:])
					case 'D':
						h.del(s, x[1:])
					case 'X':
						s.CloseAll()
					}
				}
			}))
		}
		for _, x := range hs {
			x.Join()
		}
		closed := false
		for _, al := range threads {
			for _, p := range al {
				closed = closed || strings.Contains(p, "X")
			}
		}
		h.get(s, "a")
		h.get(s, "b")
		h.check()
		if !closed {
			live(2*c.cached, "two live keys")
		}
		h.del(s, "a")
		if !closed {
			live(c.cached, "one live key")
		}
		fresh(c, h.get(s, "a"))
		h.check()
		s.CloseAll()
		live(0, "after CloseAll")
		s.CloseAll()
		live(0, "after CloseAll twice")
	}
}

// sequences: all sequential histories against a map.
func sequences(c config, depth int) func() {
	al := []string{"Ga", "Gb", "Da", "Ca", "X", "Db"}
	return func() {
		s := c.make()
		model := map[string]*vsa.VSA{}
		open := map[*vsa.VSA]bool{}
		used := map[*vsa.VSA]bool{}
		spent := map[*vsa.VSA]int64{}
		trace := ""
		for i := 0; i < depth; i++ {
			o := al[rt.Choose(len(al), false, "op")]
			trace += o + " "
			k := o[1:]
			switch o[0] {
			case 'G', 'C':
				v := s.GetOrCreate(k)
				if m := model[k]; m != nil && m != v {
					rt.Fail("%s: the accumulator of key %s changed", trace, k)
				} else if m == nil && used[v] {
					rt.Fail("%s: key %s got an accumulator used before", trace, k)
				}
				if model[k] == nil {
					model[k], open[v], used[v] = v, true, true
				}
				if o[0] == 'C' && v.TryConsume(1) {
					spent[v]++
				}
			case 'D':
				s.Delete(k)
				if m := model[k]; m != nil {
					delete(open, m)
				}
				delete(model, k)
			case 'X':
				s.CloseAll()
				open = map[*vsa.VSA]bool{}
			}
			for _, k := range []string{"a", "b"} {
				m := model[k]
				if m == nil {
					continue
				}
				if sc, vec := m.State(); sc != budget || vec != spent[m] {
					rt.Fail("%s: key %s has State (%d,%d), want (%d,%d)", trace, k, sc, vec, budget, spent[m])
				}
			}
			live(c.cached*len(open), trace)
		}
		s.CloseAll()
		live(0, trace+"CloseAll")
	}
}

// crowd: many keys and confusable names, alive together, deleted and created again.
func crowd(n int, o vsa.Options) func(*hk.Seq) {
	return func(q *hk.Seq) {
		keys := append(hk.Names(), "")
		for i := 0; len(keys) < n; i++ {
			keys = append(keys, fmt.Sprint("k", i))
		}
		q.Bound("%d keys alive together, every third deleted and created again", len(keys))
		s := core.NewStoreWithOptions(int64(n)+5, o)
		of := make([]*vsa.VSA, len(keys))
		owner := map[*vsa.VSA]string{}
		use := func(i int, what string) {
			v := s.GetOrCreate(keys[i])
			if k, ok := owner[v]; ok {
				q.Fail("%s: key %q received the accumulator of key %q", what, keys[i], k)
			}
			of[i] = v
			owner[v] = keys[i]
			if !v.TryConsume(int64(i + 1)) {
				q.Fail("%s: key %q refused its first %d of %d units", what, keys[i], i+1, n+5)
			}
			q.Step(2)
		}
		check := func(what string) {
			for i, k := range keys {
				v := s.GetOrCreate(k)
				if v != of[i] {
					q.Fail("%s: key %q lost its accumulator", what, k)
				}
				if sc, vec := v.State(); sc != int64(n)+5 || vec != int64(i+1) {
					q.Fail("%s: key %q has State (%d,%d), want (%d,%d)", what, k, sc, vec, n+5, i+1)
				}
				q.Step(2)
			}
			q.Case()
			q.State(rt.Mix(uint64(n), uint64(len(what))))
		}
		for i := range keys {
			use(i, "creation")
		}
		check("after creation")
		for i := 0; i < len(keys); i += 3 {
			s.Delete(keys[i])
		}
		for i := 0; i < len(keys); i += 3 {
			use(i, "second life")
		}
		check("after deletions")
		s.CloseAll()
	}
}

// idleRace: of two accesses that overlap, the later counts for the idle clock,
// however long the earlier is delayed.
func idleRace() {
	const unit = 100 * time.Microsecond
	s := core.NewStore(budget)
	w := core.NewWorker(s, nop{}, 1<<40, 0, time.Hour, 0, 99*unit, 50*unit)
	if rt.Choose(2, false, "warm") == 1 {
		s.GetOrCreate("a")
	}
	w.Start()
	rt.Quiesce()
	start := rt.Now()
	var v2 *vsa.VSA
	var at time.Duration
	a := rt.GoNamed("early", func() { s.GetOrCreate("a") })
	b := rt.GoNamed("late", func() {
		rt.Sleep(40 * unit)
		at = rt.Now().Sub(start)
		v2 = s.GetOrCreate("a")
	})
	a.Join()
	b.Join()
	rt.Sleep(105*unit - rt.Now().Sub(start))
	rt.Quiesce()
	if v, end := s.GetOrCreate("a"), rt.Now().Sub(start); v != v2 && end-at <= 99*unit {
		rt.Fail("an accumulator accessed at %v was evicted before %v (age %v)", at, end, 99*unit)
	}
	w.Stop()
}

// options: new accumulators have the configured budget and options, whatever
// these are.
func options() {
	sets := []vsa.Options{
		{},
		{GroupCount: 3, GroupSlack: 2, Stripes: 9},
		{FastPathGuard: 3, HierarchicalGroups: 5, PerPUpdateChooser: true},
		{UseCachedGate: true, CacheSlack: 2, GroupCount: 2, GroupSlack: 1, FastPathGuard: 1, HierarchicalGroups: 2, CacheInterval: time.Second},
		{UseCachedGate: true, CacheInterval: time.Millisecond, HierarchicalGroups: 2},
	}
	o := sets[rt.Choose(len(sets), false, "options")]
	b := []int64{0, 1, 7, 1 << 33, -3}[rt.Choose(5, false, "budget")]
	s := core.NewStoreWithOptions(b, o)
	for _, k := range []string{"", "a", "b", "a"} {
		v, w := s.GetOrCreate(k), vsa.NewWithOptions(b, o)
		if k == "a" {
			s.Delete(k)
			v = s.GetOrCreate(k)
		}
		rt.Quiesce()
		for i, n := range []int64{b - 2, b - 3, 1, 1, 1, -1, 1, 2} {
			if i == 3 {
				v.Update(-2)
				w.Update(-2)
			}
			if i == 3 && k == "b" && o.UseCachedGate {
				rt.Sleep(o.CacheInterval * 3 / 2)
				rt.Quiesce()
			}
			g, x := v.TryConsume(n), w.TryConsume(n)
			s1, v1 := v.State()
			s2, v2 := w.State()
			if g != x || s1 != s2 || v1 != v2 {
				rt.Fail("budget %d, options %+v: TryConsume(%d)=%v State=(%d,%d) on the store's accumulator, %v (%d,%d) on one built with its budget and options", b, o, n, g, s1, v1, x, s2, v2)
			}
		}
		w.Close()
	}
	s.CloseAll()
	live(0, "after CloseAll")
}

// worked: deletion and CloseAll stop the background work of every key, whatever
// the worker has done to it.
func worked() {
	o := vsa.Options{UseCachedGate: true, CacheInterval: time.Hour, HierarchicalGroups: 2, FastPathGuard: int64(rt.Choose(2, false, "fast"))}
	s := core.NewStoreWithOptions(budget, o)
	w := core.NewWorker(s, nop{}, 3, int64(rt.Choose(2, false, "low")), 10*time.Millisecond, 0, 35*time.Millisecond, 31*time.Millisecond)
	w.Start()
	use := func(k string, n int64) {
		v := s.GetOrCreate(k)
		switch {
		case n > 0:
			v.TryConsume(n)
		case n < 0:
			v.TryConsume(-n)
			v.TryRefund(1)
		}
	}
	trace := ""
	for i := 0; i < 3; i++ {
		k := []string{"a", "b", "c"}[rt.Choose(3, false, "key")]
		n := []int64{0, 1, 3, -3}[rt.Choose(4, false, "use")]
		use(k, n)
		trace += fmt.Sprintf("%s%+d ", k, n)
		if i == 1 {
			rt.Sleep(15 * time.Millisecond)
		}
	}
	rt.Sleep([]time.Duration{1, 12, 50}[rt.Choose(3, false, "wait")] * time.Millisecond)
	if rt.Choose(2, false, "delete") == 1 {
		s.Delete("a")
		s.Delete("b")
		s.Delete("c")
		rt.Quiesce()
		if n := rt.LiveThreads(); n != 2 {
			rt.Fail("%sDelete: %d background goroutines besides the worker, want 0: %s", trace, n-2, rt.LiveNames())
		}
	}
	w.Stop()
	s.CloseAll()
	live(0, trace+"CloseAll")
}

type nop struct{}

func (nop) CommitBatch([]core.Commit) error { return nil }
func (nop) PrintFinalMetrics()              {}

// idleClock: every access, creating or not, restarts the key's idle clock, as
// the eviction worker sees it.
func idleClock(depth int, unit time.Duration) func() {
	tick, age := 50*unit, 99*unit
	return func() {
		s := core.NewStore(budget)
		w := core.NewWorker(s, nop{}, 1<<40, 0, time.Hour, 0, age, tick)
		w.Start()
		rt.Quiesce()
		start := rt.Now()
		var cur *vsa.VSA
		var last, done time.Duration
		trace := ""
		for i := 0; i < depth; i++ {
			var touch bool
			switch rt.Choose(3, false, "op") {
			case 0:
				touch = true
			case 1:
				rt.Sleep(33 * unit)
			case 2:
				rt.Sleep(77 * unit)
			}
			rt.Quiesce()
			now := rt.Now().Sub(start)
			for ; done+tick <= now; done += tick {
				if cur != nil && done+tick-last > age {
					cur = nil
				}
			}
			trace += fmt.Sprintf("%v,%v ", now, touch)
			if !touch {
				continue
			}
			v := s.GetOrCreate("a")
			if cur != nil && cur != v {
				rt.Fail("an accumulator accessed %v ago was evicted (age %v): times and accesses %s", now-last, age, trace)
			}
			cur, last = v, now
		}
		w.Stop()
	}
}

func main() {
	hk.Main(hk.Check{ID: "C07",
		Rule:        "an execution is one schedule of store operations; identities must be explained by a sequential order",
		Assumptions: []string{"sequentially consistent atomics; sync.Map modelled as a linearizable map"},
		Jobs: func(tier string) []hk.Job {
			p, d := 3, 5
			if tier == "thorough" {
				p, d = 4, 7
			}
			var js []hk.Job
			for _, c := range configs() {
				t := 0
				if c.name == "cached-fast" {
					js = append(js,
						hk.Job{Name: c.name + "/create", Weight: 5, Bounds: hk.P(p - 1), Only: true, Body: racing(c, [][]string{{"Ga"}, {"Ga"}})},
						hk.Job{Name: c.name + "/delete-twice", Weight: 5, Bounds: hk.P(p - 2), Only: true, Body: racing(c, [][]string{{"Da"}, {"Da Ga"}})},
					)
					continue
				}
				if c.cached > 0 {
					js = append(js,
						hk.Job{Name: c.name + "/create", Weight: 8, Bounds: hk.P(p - 1), Body: racing(c, [][]string{{"Ga", "Ga Gb"}, {"Ga"}})},
						hk.Job{Name: c.name + "/delete", Weight: 8, Bounds: hk.P(p - 1), Body: racing(c, [][]string{{"Ga"}, {"Da", "Da Ga"}})},
						hk.Job{Name: c.name + "/close", Weight: 8, Bounds: hk.P(p - 1), Body: racing(c, [][]string{{"Ga"}, {"X"}})},
						hk.Job{Name: c.name + "/sequences", Weight: 2, Bounds: hk.P(0), Body: sequences(c, d)},
					)
					continue
				}
				js = append(js,
					hk.Job{Name: c.name + "/create", Weight: 4, Bounds: hk.PTF(p, t, 0), Body: racing(c, [][]string{{"Ga", "Ga Gb"}, {"Ga", "Gb Ga"}, {"Ga", "Gb"}})},
					hk.Job{Name: c.name + "/delete", Weight: 5, Bounds: hk.PTF(p, t, 0), Body: racing(c, [][]string{{"Ga Ga", "Ga Gb"}, {"Ga Da", "Da", "Da Ga"}, {"Ga", "Da"}})},
					hk.Job{Name: c.name + "/close", Weight: 3, Bounds: hk.PTF(p, t, 0), Body: racing(c, [][]string{{"Ga Gb"}, {"X", "X Ga"}, {"Da", "X", "Da Ga"}})},
					hk.Job{Name: c.name + "/sequences", Weight: 2, Bounds: hk.P(0), Body: sequences(c, d)},
				)
			}
			for i, o := range []vsa.Options{{Stripes: 8}, {Stripes: 8, HierarchicalGroups: 2, FastPathGuard: 3}} {
				js = append(js, hk.Job{Name: fmt.Sprintf("crowd%d", i), Weight: 2, Seq: crowd([]int{30000, 5000}[i], o)})
			}
			for _, u := range []time.Duration{100 * time.Millisecond, 100 * time.Microsecond, time.Microsecond, 10} {
				js = append(js, hk.Job{Name: fmt.Sprint("idle-clock-", u), Weight: 2, Bounds: hk.P(0), Body: idleClock(d+1, u)})
			}
			js = append(js,
				hk.Job{Name: "idle-race", Weight: 1, Bounds: []rt.Budget{{P: 1, T: 1}, {P: 2, T: 1}}, Body: idleRace},
				hk.Job{Name: "options", Weight: 1, Bounds: hk.P(0), Body: options},
				hk.Job{Name: "worked", Weight: 1, Only: true, Bounds: hk.P(0), Body: worked},
			)
			return js
		}})
}
