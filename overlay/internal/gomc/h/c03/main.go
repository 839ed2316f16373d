// C03: gated operations are linearizable; no capacity is lost or invented.
package main

import (
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	. "vsa/internal/gomc/vh"
)

func drain(h *History) {
	// alone now: availability is exact and can be spent to the last unit
	a := h.Available()
	h.State()
	if a > 0 {
		if !h.Consume(a) {
			rt.Fail("with nothing else running, %d units are available but TryConsume(%d) is refused: %s", a, a, h)
		}
	}
	if h.Consume(1) {
		rt.Fail("a unit was granted beyond availability: %s", h)
	}
}

func lin(h *History) { h.Check("linearizability") }

func main() {
	hk.Main(hk.Check{ID: "C03",
		Rule:        "every execution (all interleavings within the preemption bound, all generated programs) yields a history with a sequential explanation",
		Assumptions: []string{"sequentially consistent atomics (Go memory model)", "|values| far from the int64 limits"},
		Jobs: func(tier string) []hk.Job {
			p := 2
			if tier == "thorough" {
				p = 3
			}
			var js []hk.Job
			for _, c := range Exact() {
				gated := Programs{Init: []int64{2, 3}, Setup: []Instr{C(1), Seq1(C(2), SK, C(1))},
					Threads: Same(3, C(1), C(2), R(1), SK), Sym: true, Finish: drain}
				js = append(js, hk.Job{Name: c.Name + "/gated3", Weight: 5, Bounds: hk.P(p), Body: gated.Body(c, lin)})
				seq2 := Programs{Init: []int64{3}, Setup: []Instr{C(1)},
					Threads: Same(2, Seq1(C(2), R(1)), Seq1(R(1), C(2)), Seq1(C(1), SK), Seq1(R(2), C(3)), Seq1(SK, C(2))), Sym: true, Finish: drain}
				js = append(js, hk.Job{Name: c.Name + "/pairs", Weight: 4, Bounds: hk.P(p), Body: seq2.Body(c, lin)})
				upd := Programs{Init: []int64{3}, Setup: []Instr{C(1), U(-1)},
					Threads: [][]Instr{{C(1), C(2), R(1), SK}, {U(1), U(-1), UU(2, -2), UU(-1, 1)}, {C(2), R(2), A}}, Finish: func(h *History) { h.Available(); h.State() }}
				js = append(js, hk.Job{Name: c.Name + "/updates", Weight: 6, Bounds: hk.P(p), Body: upd.Body(c, lin)})
			}
			return js
		}})
}
