// C01: the accumulator obeys its sequential contract in every configuration.
package main

import (
	"fmt"
	"math"
	"time"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
)

// model is the reference: one pair of integers.
type model struct{ s, v int64 }

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func (m *model) avail() int64 { return m.s - abs(m.v) }

func (m *model) refund(n int64) bool {
	if n <= 0 || m.v <= 0 {
		return false
	}
	if n > m.v {
		n = m.v
	}
	m.v -= n
	return true
}

func (m *model) commit(c int64) {
	d := abs(c)
	if d > abs(m.v) || c == math.MinInt64 {
		d = abs(m.v)
	}
	m.s -= d
	if m.v > 0 {
		m.v -= d
	} else {
		m.v += d
	}
}

// op is one operation; cur means "the current vector".
type op struct {
	k byte
	n int64
}

const cur = -1 << 40

func (o op) String() string {
	if o.n == cur {
		return string(o.k) + "(V)"
	}
	return fmt.Sprintf("%c(%d)", o.k, o.n)
}

var names = map[byte]string{'U': "Update", 'C': "TryConsume", 'R': "TryRefund", 'K': "Commit", 'T': "wait"}

// apply performs o on both; it returns a message when they disagree. A
// refusal of an affordable request is accepted while stale holds.
func apply(v *vsa.VSA, m *model, o op, stale func(n int64) bool) string {
	switch o.k {
	case 'U':
		v.Update(o.n)
		m.v += o.n
	case 'C':
		want := o.n > 0 && m.avail() >= o.n
		got := v.TryConsume(o.n)
		if got != want && !(want && stale != nil && stale(o.n)) {
			return fmt.Sprintf("TryConsume(%d)=%v with S=%d V=%d", o.n, got, m.s, m.v)
		}
		if got {
			m.v += o.n
		}
	case 'R':
		was := *m
		want := m.refund(o.n)
		if got := v.TryRefund(o.n); got != want {
			return fmt.Sprintf("TryRefund(%d)=%v with S=%d V=%d", o.n, got, was.s, was.v)
		}
	case 'K':
		c := o.n
		if c == cur {
			_, c = v.State()
		}
		v.Commit(c)
		m.commit(c)
	}
	return observe(v, m)
}

func observe(v *vsa.VSA, m *model) string {
	if s, vec := v.State(); s != m.s || vec != m.v {
		return fmt.Sprintf("State()=(%d,%d), want (%d,%d)", s, vec, m.s, m.v)
	}
	if a := v.Available(); a != m.avail() {
		return fmt.Sprintf("Available()=%d, want %d", a, m.avail())
	}
	for _, t := range []int64{1, 2, 4, 0, -1, math.MaxInt64} {
		ok, vec := v.CheckCommit(t)
		want, wantVec := abs(m.v) >= t, int64(0)
		if want {
			wantVec = m.v
		}
		if ok != want || vec != wantVec {
			return fmt.Sprintf("CheckCommit(%d)=(%v,%d) with V=%d", t, ok, vec, m.v)
		}
	}
	return ""
}

type config struct {
	name string
	o    vsa.Options
}

func configs(tier string) []config {
	var out []config
	add := func(n string, o vsa.Options) { out = append(out, config{n, o}) }
	add("default", vsa.Options{})
	add("stripes1", vsa.Options{Stripes: 1})
	add("stripes9", vsa.Options{Stripes: 9})
	add("stripes100", vsa.Options{Stripes: 100})
	add("cheap", vsa.Options{CheapUpdateChooser: true})
	add("cheap+hier3", vsa.Options{CheapUpdateChooser: true, HierarchicalGroups: 3})
	add("perp", vsa.Options{PerPUpdateChooser: true})
	add("perp+hier2+fast1", vsa.Options{PerPUpdateChooser: true, HierarchicalGroups: 2, FastPathGuard: 1})
	add("cheap+perp", vsa.Options{CheapUpdateChooser: true, PerPUpdateChooser: true})
	for _, h := range []int{1, 2, 3, 5, 8, 20} {
		add(fmt.Sprintf("hier%d", h), vsa.Options{HierarchicalGroups: h})
	}
	for _, g := range []int{1, 2, 3, 5, 7, 8, 20} {
		add(fmt.Sprintf("group%d", g), vsa.Options{GroupCount: g})
		add(fmt.Sprintf("group%d+slack2", g), vsa.Options{GroupCount: g, GroupSlack: 2})
	}
	for _, f := range []int64{1, 3} {
		add(fmt.Sprintf("fast%d", f), vsa.Options{FastPathGuard: f})
		add(fmt.Sprintf("fast%d+hier3", f), vsa.Options{FastPathGuard: f, HierarchicalGroups: 3})
		add(fmt.Sprintf("fast%d+group3", f), vsa.Options{FastPathGuard: f, GroupCount: 3, GroupSlack: 1})
	}
	add("fast1+group8+hier8+stripes16", vsa.Options{FastPathGuard: 1, GroupCount: 8, HierarchicalGroups: 8, Stripes: 16})
	add("group3+hier2", vsa.Options{GroupCount: 3, HierarchicalGroups: 2})
	add("huge guard", vsa.Options{FastPathGuard: math.MaxInt64})
	add("huge guard+slack+group3", vsa.Options{FastPathGuard: math.MaxInt64 - 1, CacheSlack: math.MaxInt64, GroupCount: 3, GroupSlack: math.MaxInt64})
	add("negative options", vsa.Options{Stripes: -1, GroupCount: -1, FastPathGuard: -1, HierarchicalGroups: -1})
	return out
}

var small = []op{{'C', 1}, {'C', 2}, {'U', 1}, {'U', -2}, {'R', 1}, {'R', 5}, {'K', cur}, {'K', 1}, {'K', -3}, {'C', 3}, {'U', 4}}
var odd = []op{{'C', 0}, {'C', -1}, {'R', 0}, {'R', -2}, {'K', 0}, {'U', 0}, {'C', 1}, {'U', 3}, {'U', -3}, {'K', cur}, {'K', 2}, {'R', 2}}
var wide = []op{{'C', 1 << 31}, {'C', 1<<32 + 1}, {'U', -(1 << 33)}, {'U', 1 << 40}, {'R', 1 << 31}, {'R', 1 << 50}, {'K', cur}, {'K', 1 << 35}, {'K', -1}}

// warmups bring cursors and sums into non-initial states.
func warmups() [][]op {
	rep := func(n int, os ...op) (r []op) {
		for i := 0; i < n; i++ {
			r = append(r, os...)
		}
		return
	}
	return [][]op{
		nil,
		rep(9, op{'C', 1}),
		rep(7, op{'C', 1}, op{'R', 1}),
		rep(5, op{'U', 1}),
		append(rep(4, op{'C', 1}), op{'K', cur}, op{'C', 1}, op{'K', 1}),
		append(rep(3, op{'U', -2}), op{'K', -1}),
		append(rep(9, op{'C', 2}), op{'K', cur}),
		rep(17, op{'U', 3}, op{'U', -3}),
	}
}

// extreme holds values whose sums and negations leave int64; prefixes whose
// outcome the integers cannot represent are not extended.
var extreme = []op{{'C', math.MaxInt64}, {'C', 1}, {'C', 1 << 62}, {'U', math.MaxInt64}, {'U', -math.MaxInt64}, {'U', -3},
	{'R', math.MaxInt64}, {'K', math.MinInt64}, {'K', math.MaxInt64}, {'K', cur}}

// fits tells whether o leaves S, V and S-|V| of m representable.
func fits(m model, o op) bool {
	if o.k == 'U' {
		v := m.v + o.n
		if (v > m.v) != (o.n > 0) && o.n != 0 || v == math.MinInt64 {
			return false
		}
		m.v = v
	}
	a := m.s - abs(m.v)
	return (m.s >= 0 || a < 0) && a != math.MinInt64
}

func sequences(c config, al []op, depth int, inits []int64, warm [][]op) func(s *hk.Seq) {
	return func(s *hk.Seq) {
		s.Bound("all sequences of %d operations out of %d, %d initial scalars, %d starting histories", depth, len(al), len(inits), len(warm))
		rt.Processors(0, 7, 8, 63, 64, 300)
		idx := make([]int, depth)
		for _, init := range inits {
			for _, w := range warm {
				for i := range idx {
					idx[i] = 0
				}
				for {
					if s.Over() {
						return
					}
					v := vsa.NewWithOptions(init, c.o)
					m := &model{s: init}
					bad, at := observe(v, m), -1
					h := uint64(14695981039346656037)
					for i := 0; bad == "" && i < len(w); i++ {
						bad = apply(v, m, w[i], nil)
					}
					for i := 0; bad == "" && i < depth; i++ {
						if !fits(*m, al[idx[i]]) {
							for k := i + 1; k < depth; k++ {
								idx[k] = len(al) - 1
							}
							break
						}
						bad, at = apply(v, m, al[idx[i]], nil), i
						h = (h ^ uint64(m.s)) * 1099511628211
						h = (h ^ uint64(m.v)) * 1099511628211
					}
					v.Close()
					s.Case()
					s.Step(len(w) + depth)
					s.State(h)
					if bad != "" {
						var ops []op
						for i := 0; i <= at; i++ {
							ops = append(ops, al[idx[i]])
						}
						s.Fail("options %s, S=%d, after %v %v: %s", c.name, init, w, ops, bad)
					}
					if h%9973 == 1 {
						var ops []op
						for _, i := range idx {
							ops = append(ops, al[i])
						}
						s.Sample("S=%d %v %v -> S=%d V=%d", init, w, ops, m.s, m.v)
					}
					j := depth - 1
					for ; j >= 0; j-- {
						if idx[j]++; idx[j] < len(al) {
							break
						}
						idx[j] = 0
					}
					if j < 0 {
						break
					}
				}
			}
		}
	}
}

// cycles repeats every short program many times on one accumulator.
func cycles(c config, al []op, length, times int, init int64) func(s *hk.Seq) {
	return func(s *hk.Seq) {
		s.Bound("all programs of %d operations out of %d, repeated %d times", length, len(al), times)
		rt.Processors(1, 9, 300, 2)
		idx := make([]int, length)
		for {
			if s.Over() {
				return
			}
			v := vsa.NewWithOptions(init, c.o)
			m := &model{s: init}
			var prog []op
			for _, i := range idx {
				prog = append(prog, al[i])
			}
			h := uint64(14695981039346656037)
			for r := 0; r < times; r++ {
				for i, o := range prog {
					if bad := apply(v, m, o, nil); bad != "" {
						s.Fail("options %s, S=%d, after %d rounds of %v and %v: %s", c.name, init, r, prog, prog[:i+1], bad)
					}
				}
				h = (h ^ uint64(m.s)) * 1099511628211
				h = (h ^ uint64(m.v)) * 1099511628211
			}
			v.Close()
			s.Case()
			s.Step(times * length)
			s.State(h)
			j := length - 1
			for ; j >= 0; j-- {
				if idx[j]++; idx[j] < len(al) {
					break
				}
				idx[j] = 0
			}
			if j < 0 {
				return
			}
		}
	}
}

// cached runs every sequence with a refresher whose ticks are part of the
// alphabet; a refusal must be explained by the true or the last cached net.
func cached(c config, depth int) func() {
	al := []op{{'C', 1}, {'C', 2}, {'T', 0}, {'R', 1}, {'K', cur}, {'U', 2}, {'U', -1}, {'C', 4}}
	return func() {
		init := []int64{2, 5}[rt.Choose(2, false, "init")]
		v := vsa.NewWithOptions(init, c.o)
		m := &model{s: init}
		var cachedNet int64
		stale := func(n int64) bool { return m.s-abs(cachedNet)-c.o.CacheSlack-c.o.GroupSlack < n }
		interval := c.o.CacheInterval
		if interval <= 0 {
			interval = 100 * time.Microsecond
		}
		var seq []op
		for i := 0; i < depth; i++ {
			o := al[rt.Choose(len(al), false, "op")]
			seq = append(seq, o)
			if o.k == 'T' {
				rt.Sleep(interval + interval/2)
				cachedNet = m.v
				continue
			}
			if bad := apply(v, m, o, stale); bad != "" {
				rt.Fail("options %s, S=%d, after %v: %s", c.name, init, seq, bad)
			}
		}
		v.Close()
	}
}

func main() {
	hk.Main(hk.Check{ID: "C01",
		Rule:        "a case is one operation sequence on one configuration; it is non-trivial by its sequence of (S, V) pairs",
		Assumptions: []string{"S, V and S-|V| stay within int64 (operations that would take them outside are not enumerated)", "CheapUpdateChooser's random stripe choice is not enumerated (results must not depend on it)"},
		Jobs: func(tier string) []hk.Job {
			d, dw := 4, 3
			cd := 4
			if tier == "thorough" {
				d, dw, cd = 6, 4, 5
			}
			long, longer := 300, 1100
			if tier == "thorough" {
				long, longer = 3000, 70000
			}
			var js []hk.Job
			for _, c := range configs(tier) {
				js = append(js,
					hk.Job{Name: c.name + "/small", Weight: 5, Seq: sequences(c, small, d, []int64{0, 2, 5, 9}, [][]op{nil})},
					hk.Job{Name: c.name + "/warm", Weight: 5, Seq: sequences(c, small, dw, []int64{12, 20}, warmups())},
					hk.Job{Name: c.name + "/odd", Weight: 2, Seq: sequences(c, odd, dw, []int64{-3, 0, 5}, [][]op{nil, {{'C', 1}}})},
					hk.Job{Name: c.name + "/wide", Weight: 1, Seq: sequences(c, wide, dw, []int64{1 << 42, 1 << 32}, [][]op{nil})},
					hk.Job{Name: c.name + "/cycles3", Weight: 2, Seq: cycles(c, small, 3, long, 1<<20)},
					hk.Job{Name: c.name + "/cycles2", Weight: 2, Seq: cycles(c, small, 2, longer, 1<<20)},
					hk.Job{Name: c.name + "/cycles1", Weight: 1, Seq: cycles(c, small, 1, 70000, 1<<20)},
					hk.Job{Name: c.name + "/extreme", Weight: 1, Seq: sequences(c, extreme, dw, []int64{math.MaxInt64, 1 << 62, 0, 4, -5}, [][]op{nil, {{'C', 1}, {'C', 1}}})},
				)
			}
			for _, c := range []config{
				{"cached", vsa.Options{UseCachedGate: true}},
				{"cached+slack1", vsa.Options{UseCachedGate: true, CacheSlack: 1, CacheInterval: time.Millisecond}},
				{"cached+fast1+hier2", vsa.Options{UseCachedGate: true, FastPathGuard: 1, HierarchicalGroups: 2}},
				{"cached+negative", vsa.Options{UseCachedGate: true, CacheInterval: -time.Second, HierarchicalGroups: 3}},
				{"cached+group3", vsa.Options{UseCachedGate: true, GroupCount: 3, GroupSlack: 1}},
			} {
				js = append(js, hk.Job{Name: c.name, Weight: 6, Bounds: hk.P(0), Body: cached(c, cd)})
			}
			return js
		}})
}
