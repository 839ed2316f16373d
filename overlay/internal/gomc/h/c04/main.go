// C04: Commit moves units from the vector to the scalar and nothing else.
package main

import (
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	. "vsa/internal/gomc/vh"
)

func conserve(h *History) {
	h.Available()
	s, v := h.State()
	h.Check("commit")
	// conservation in plain arithmetic for histories of positive units
	var in, out, com int64
	raw := false
	for _, o := range h.Ops {
		switch {
		case o.Kind == 'U':
			raw = true
		case o.Kind == 'C' && o.Ok:
			in += o.In
		case o.Kind == 'R' && o.Ok:
			out += o.In
		case o.Kind == 'K':
			com += abs(o.In)
		}
	}
	if raw {
		return
	}
	if v < 0 || s > h.Init || h.Init-s > com || h.Init-s+v > in || h.Init-s+v < in-out {
		rt.Fail("units appeared or vanished: scalar went from %d to %d with vector %d after %d consumed and at most %d refunded: %s", h.Init, s, v, in, out, h)
	}
}

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func main() {
	hk.Main(hk.Check{ID: "C04",
		Rule:        "every execution has a sequential explanation in which each Commit lowers the scalar and the vector by the same magnitude, at most the vector, and availability stays",
		Assumptions: []string{"sequentially consistent atomics (Go memory model)", "|values| far from the int64 limits"},
		Jobs: func(tier string) []hk.Job {
			p := 2
			if tier == "thorough" {
				p = 3
			}
			var js []hk.Job
			for _, c := range Exact() {
				stale := Programs{Init: []int64{9}, Setup: []Instr{C(3)}, Threads: Same(3, K(1), K(3), K(7), K(-2), SK, C(1), R(2)), Sym: true}
				js = append(js, hk.Job{Name: c.Name + "/stale", Weight: 6, Bounds: hk.P(p - 1), Body: stale.Body(c, conserve)})
				if c.Name != "fast1" && c.Name != "fast2default" {
					neg := Programs{Init: []int64{9}, Setup: []Instr{U(-3), U(2), Seq1(U(-3), K(-1))}, Threads: [][]Instr{{SK, K(-2), K(5)}, {U(1), U(-1), UU(4, -4), UU(-4, 4)}, {C(1), SK, A}}}
					js = append(js, hk.Job{Name: c.Name + "/negative", Weight: 6, Bounds: hk.P(p - 1), Body: neg.Body(c, conserve)})
				}
				two := Programs{Init: []int64{9}, Setup: []Instr{C(2)}, Threads: [][]Instr{{Seq1(SK, SK), Seq1(SK, C(1), SK)}, {SK, Seq1(R(1), SK), Seq1(C(1), R(2)), Seq1(C(2), C(1))}}}
				js = append(js, hk.Job{Name: c.Name + "/two", Weight: 3, Bounds: hk.P(p + 1), Body: two.Body(c, conserve)})
			}
			for _, c := range Cached() {
				cach := Programs{Init: []int64{9}, Setup: []Instr{C(2)}, Threads: [][]Instr{{SK, K(9)}, {C(1), R(1)}, {SK, C(2)}}}
				js = append(js, hk.Job{Name: c.Name + "/cached", Weight: 3, Bounds: hk.PTF(p, 1, 0), Body: cach.Body(c, conserve)})
			}
			return js
		}})
}
