// C02: requests are never granted beyond availability.
package main

import (
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	. "vsa/internal/gomc/vh"
)

// admissions keeps only what was granted: denials are always acceptable here.
func admissions(h *History) {
	h.Spec.WeakDenial = true
	h.Check("oversubscription")
	// arithmetic restatement for histories without refunds and raw updates
	var units, refunds int64
	for _, o := range h.Ops {
		switch {
		case o.Kind == 'U' || o.Kind == 'R' && o.Ok:
			refunds++
		case o.Kind == 'C' && o.Ok:
			units += o.In
		}
	}
	if refunds == 0 && units > h.Init {
		rt.Fail("granted %d units out of %d: %s", units, h.Init, h)
	}
}

// Tick lets the cached gate refresh.
var tick = Instr{Name: "tick", Run: func(h *History) { rt.Sleep(150 * time.Microsecond) }}

func main() {
	hk.Main(hk.Check{ID: "C02",
		Rule:        "in every execution the granted requests fit, in some order consistent with real time, into availability",
		Assumptions: []string{"sequentially consistent atomics (Go memory model)", "|values| far from the int64 limits"},
		Jobs: func(tier string) []hk.Job {
			p := 2
			if tier == "thorough" {
				p = 3
			}
			var js []hk.Job
			for _, c := range Exact() {
				last := Programs{Init: []int64{1, 2, 3}, Setup: []Instr{A, Seq1(C(1), SK)}, Threads: Same(3, C(1), C(2), C(3)), Sym: true}
				js = append(js, hk.Job{Name: c.Name + "/last-units", Weight: 3, Bounds: hk.P(p + 1), Body: last.Body(c, admissions)})
				mix := Programs{Init: []int64{3, 6}, Setup: []Instr{Seq1(C(2), C(1))}, Threads: [][]Instr{{C(2), Seq1(C(1), C(1))}, {Seq1(C(1), C(2)), C(3)}, {R(1), SK, Seq1(R(2), C(1)), Seq1(SK, C(1)), U(1), U(-1)}}}
				js = append(js, hk.Job{Name: c.Name + "/mixed", Weight: 5, Bounds: hk.P(p), Body: mix.Body(c, admissions)})
				if c.Name == "hier2" || c.Name == "fast1" {
					four := Programs{Init: []int64{3}, Setup: []Instr{C(1)}, Threads: Same(4, C(1), C(2)), Sym: true}
					js = append(js, hk.Job{Name: c.Name + "/four", Weight: 4, Bounds: hk.P(p), Body: four.Body(c, admissions)})
				}
			}
			for _, c := range Cached() {
				cach := Programs{Init: []int64{2}, Setup: []Instr{A, Seq1(C(1), tick)}, Threads: [][]Instr{{C(1), C(2)}, {Seq1(C(1), C(1)), Seq1(C(2), tick, C(2))}, {R(1), SK, U(1)}}}
				js = append(js, hk.Job{Name: c.Name + "/ticks", Weight: 6, Bounds: hk.PTF(p-1, 1, 0), Body: cach.Body(c, admissions)})
				js = append(js, hk.Job{Name: c.Name + "/cached", Weight: 6, Bounds: hk.P(p), Body: cach.Body(c, admissions)})
			}
			return js
		}})
}
