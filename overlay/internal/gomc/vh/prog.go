package vh

import (
	"fmt"

	"vsa"
	"vsa/internal/gomc/rt"
)

// Config is a named way of building a VSA.
type Config struct {
	Name string
	Opt  vsa.Options
	Spec Spec
}

// Exact lists the configurations that promise exact admission.
func Exact() []Config {
	return []Config{
		{"hier2", vsa.Options{HierarchicalGroups: 2}, Spec{}},
		{"default", vsa.Options{}, Spec{}},
		{"grouped8", vsa.Options{GroupCount: 8}, Spec{}},
		{"grouped3slack", vsa.Options{GroupCount: 3, GroupSlack: 1, HierarchicalGroups: 2}, Spec{}},
		{"fast1", vsa.Options{FastPathGuard: 1, HierarchicalGroups: 2}, Spec{Fast: true}},
		{"fast2default", vsa.Options{FastPathGuard: 2}, Spec{Fast: true}},
		{"cheap", vsa.Options{CheapUpdateChooser: true, HierarchicalGroups: 3}, Spec{}},
		{"perp", vsa.Options{PerPUpdateChooser: true}, Spec{}},
	}
}

// Cached lists the configurations whose denials may be stale.
func Cached() []Config {
	return []Config{
		{"cached", vsa.Options{UseCachedGate: true, HierarchicalGroups: 2}, Spec{WeakDenial: true}},
		{"cachedfast", vsa.Options{UseCachedGate: true, FastPathGuard: 1, HierarchicalGroups: 2}, Spec{WeakDenial: true, Fast: true}},
		{"cachedgroup", vsa.Options{UseCachedGate: true, GroupCount: 2, GroupSlack: 1, CacheSlack: 1, HierarchicalGroups: 2}, Spec{WeakDenial: true}},
	}
}

// Instr is one instruction of a generated program.
type Instr struct {
	Name string
	Run  func(h *History)
}

func C(n int64) Instr {
	return Instr{fmt.Sprintf("C%d", n), func(h *History) { h.Consume(n) }}
}
func R(n int64) Instr {
	return Instr{fmt.Sprintf("R%d", n), func(h *History) { h.Refund(n) }}
}
func U(n int64) Instr {
	return Instr{fmt.Sprintf("U%d", n), func(h *History) { h.Update(n) }}
}
func K(n int64) Instr {
	return Instr{fmt.Sprintf("K%d", n), func(h *History) { h.Commit(n) }}
}
func UU(a, b int64) Instr {
	return Instr{fmt.Sprintf("U%d,U%d", a, b), func(h *History) { h.Update(a); h.Update(b) }}
}

var (
	A  = Instr{"A", func(h *History) { h.Available() }}
	S  = Instr{"S", func(h *History) { h.State() }}
	X1 = Instr{"X1", func(h *History) { h.CheckCommit(1) }}
	// SK commits what State just showed, as the background worker does.
	SK = Instr{"SK", func(h *History) { _, v := h.State(); h.Commit(v) }}
)

// Seq1 runs several instructions as one.
func Seq1(is ...Instr) Instr {
	n := ""
	for _, i := range is {
		n += i.Name + ";"
	}
	return Instr{n, func(h *History) {
		for _, i := range is {
			i.Run(h)
		}
	}}
}

// Programs runs every assignment of alphabet instructions to the threads: the
// threads are interchangeable, so only sorted assignments are generated.
type Programs struct {
	Init    []int64 // initial scalars
	Setup   []Instr // one of these runs first, alone
	Threads [][]Instr
	Sym     bool // all threads use the same alphabet: sorted choices only
	Finish  func(h *History)
}

// Body explores the programs under one configuration.
func (p Programs) Body(c Config, check func(h *History)) func() {
	return func() {
		init := p.Init[rt.Choose(len(p.Init), false, "init")]
		h := New(init, c.Opt, c.Spec)
		if len(p.Setup) > 0 {
			p.Setup[rt.Choose(len(p.Setup), false, "setup")].Run(h)
		}
		var ins []Instr
		lo := 0
		for t, al := range p.Threads {
			if !p.Sym {
				lo = 0
			}
			k := lo + rt.Choose(len(al)-lo, false, fmt.Sprintf("op%d", t))
			lo = k
			ins = append(ins, al[k])
		}
		var hs []*rt.Handle
		for _, in := range ins {
			in := in
			hs = append(hs, rt.GoNamed(in.Name, func() { in.Run(h) }))
		}
		for _, x := range hs {
			x.Join()
		}
		if p.Finish != nil {
			p.Finish(h)
		}
		check(h)
		h.V.Close()
	}
}

// Same gives n threads the same alphabet.
func Same(n int, al ...Instr) [][]Instr {
	var out [][]Instr
	for i := 0; i < n; i++ {
		out = append(out, al)
	}
	return out
}
