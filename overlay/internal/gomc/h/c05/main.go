// C05: reads of availability and state are consistent and never negative.
package main

import (
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	. "vsa/internal/gomc/vh"
)

func reads(h *History) {
	h.Available()
	h.State()
	raw := false
	for _, o := range h.Ops {
		if o.Kind == 'U' {
			raw = true
		}
	}
	for _, o := range h.Ops {
		if raw {
			break
		}
		if o.Kind == 'A' && (o.Out < 0 || o.Out > h.Init) || o.Kind == 'S' && (o.Out2 < 0 || o.Out > h.Init || o.Out-o.Out2 < 0) || o.Kind == 'X' && o.Out < 0 {
			rt.Fail("a read outside what gated requests can produce: %s in %s", o, h)
		}
	}
	h.Spec.WeakDenial = true
	h.Check("reads")
}

func main() {
	hk.Main(hk.Check{ID: "C05",
		Rule:        "every value read is explained by a sequential order of the operations; lock-free updates still in flight may be seen or not",
		Assumptions: []string{"sequentially consistent atomics (Go memory model)", "|values| far from the int64 limits"},
		Jobs: func(tier string) []hk.Job {
			p := 2
			if tier == "thorough" {
				p = 3
			}
			var js []hk.Job
			for _, c := range Exact() {
				gated := Programs{Init: []int64{4}, Setup: []Instr{C(2), Seq1(C(1), SK, C(2))}, Threads: [][]Instr{{A, S, X1, Seq1(A, A)}, {C(1), SK, R(1), Seq1(C(2), SK)}, {C(2), SK, R(2)}}}
				js = append(js, hk.Job{Name: c.Name + "/gated", Weight: 5, Bounds: hk.P(p), Body: gated.Body(c, reads)})
				if !c.Spec.Fast {
					raw := Programs{Init: []int64{4}, Setup: []Instr{U(2), U(-2)}, Threads: [][]Instr{{A, S, X1}, {U(3), UU(3, -3), UU(-1, 2)}, {SK, C(1), U(1)}}}
					js = append(js, hk.Job{Name: c.Name + "/raw", Weight: 5, Bounds: hk.P(p), Body: raw.Body(c, reads)})
				}
			}
			for _, c := range Cached() {
				gated := Programs{Init: []int64{4}, Setup: []Instr{C(2)}, Threads: [][]Instr{{A, S, X1}, {C(1), SK, Seq1(C(2), SK)}, {SK, R(2)}}}
				js = append(js, hk.Job{Name: c.Name + "/ticks", Weight: 6, Bounds: hk.PTF(p-1, 1, 0), Body: gated.Body(c, reads)})
				js = append(js, hk.Job{Name: c.Name + "/cached", Weight: 6, Bounds: hk.P(p), Body: gated.Body(c, reads)})
			}
			return js
		}})
}
