// Package vh is the reference model of one VSA and a brute-force
// linearizability checker for recorded histories of operations on it.
package vh

import (
	"fmt"
	"strings"

	"vsa"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
)

// Op is one recorded operation.
type Op struct {
	Kind byte // U C R K A S X
	In   int64
	Ok   bool
	Out  int64 // A: availability; S: scalar; X: vector
	Out2 int64 // S: vector
	Done bool
	pred uint64
}

func (o *Op) String() string {
	if !o.Done {
		return fmt.Sprintf("%c(%d)...", o.Kind, o.In)
	}
	switch o.Kind {
	case 'U', 'K':
		return fmt.Sprintf("%s(%d)", map[byte]string{'U': "Update", 'K': "Commit"}[o.Kind], o.In)
	case 'C', 'R':
		return fmt.Sprintf("%s(%d)=%v", map[byte]string{'C': "TryConsume", 'R': "TryRefund"}[o.Kind], o.In, o.Ok)
	case 'L':
		return "Release"
	case 'A':
		return fmt.Sprintf("Available()=%d", o.Out)
	case 'S':
		return fmt.Sprintf("State()=(%d,%d)", o.Out, o.Out2)
	}
	return fmt.Sprintf("CheckCommit(%d)=(%v,%d)", o.In, o.Ok, o.Out)
}

// Spec selects how much the configuration promises.
type Spec struct {
	Fast       bool // lock-free consumption enabled
	WeakDenial bool // denials are never wrong (cached gate between refreshes)
}

// History records operations on one VSA together with real-time precedence.
type History struct {
	V    *vsa.VSA
	Init int64
	Spec Spec
	Ops  []*Op
	resp uint64
}

func New(init int64, o vsa.Options, sp Spec) *History {
	return &History{V: vsa.NewWithOptions(init, o), Init: init, Spec: sp}
}

func (h *History) begin(k byte, in int64) *Op {
	rt.Invoke()
	o := &Op{Kind: k, In: in, pred: h.resp}
	h.Ops = append(h.Ops, o)
	return o
}

func (h *History) end(o *Op) {
	rt.Respond()
	o.Done = true
	for i, p := range h.Ops {
		if p == o {
			h.resp |= 1 << uint(i)
		}
	}
}

func (h *History) Update(n int64) {
	o := h.begin('U', n)
	h.V.Update(n)
	h.end(o)
}

func (h *History) Consume(n int64) bool {
	o := h.begin('C', n)
	o.Ok = h.V.TryConsume(n)
	h.end(o)
	return o.Ok
}

func (h *History) Refund(n int64) bool {
	o := h.begin('R', n)
	o.Ok = h.V.TryRefund(n)
	h.end(o)
	return o.Ok
}

func (h *History) Commit(n int64) {
	o := h.begin('K', n)
	h.V.Commit(n)
	h.end(o)
}

// Call records one request that consumes (kind C) or releases (kind L) a unit
// and may report the availability left (out) at a moment after its decision.
func (h *History) Call(kind byte, f func() (ok bool, left int64, reports bool)) {
	rt.Invoke()
	o := &Op{Kind: kind, In: 1, pred: h.resp}
	i := len(h.Ops)
	h.Ops = append(h.Ops, o)
	ok, left, reports := f()
	rt.Respond()
	o.Ok, o.Done = ok, true
	if reports {
		h.Ops = append(h.Ops, &Op{Kind: 'A', Out: left, Done: true, pred: o.pred | 1<<uint(i)})
		h.resp |= 1 << uint(len(h.Ops)-1)
	}
	h.resp |= 1 << uint(i)
}

func (h *History) Available() int64 {
	o := h.begin('A', 0)
	o.Out = h.V.Available()
	h.end(o)
	return o.Out
}

func (h *History) State() (int64, int64) {
	o := h.begin('S', 0)
	o.Out, o.Out2 = h.V.State()
	h.end(o)
	return o.Out, o.Out2
}

func (h *History) CheckCommit(thr int64) (bool, int64) {
	o := h.begin('X', thr)
	o.Ok, o.Out = h.V.CheckCommit(thr)
	h.end(o)
	return o.Ok, o.Out
}

func (h *History) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "S=%d", h.Init)
	for i, o := range h.Ops {
		fmt.Fprintf(&b, "; #%d %s", i, o)
		if o.pred != 0 {
			b.WriteString(" after{")
			for j := range h.Ops {
				if o.pred>>uint(j)&1 == 1 {
					fmt.Fprintf(&b, "%d,", j)
				}
			}
			b.WriteString("}")
		}
	}
	return b.String()
}

type st struct{ S, N int64 }

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func settled(a, b int64) int64 {
	if (a > 0) != (b > 0) || (a < 0) != (b < 0) {
		return 0
	}
	if abs(a) < abs(b) {
		return a
	}
	return b
}

// lockFree returns the amount by which a lock-free operation moves the vector.
func (h *History) lockFree(o *Op) int64 {
	switch {
	case o.Kind == 'U':
		return o.In
	case o.Kind == 'C' && h.Spec.Fast && o.Ok:
		return o.In
	}
	return 0
}

// views lists the vectors a scan overlapping lock-free operations may see.
func (h *History) views(s st, m uint64, i int) []int64 {
	vs := []int64{s.N}
	o := h.Ops[i]
	for j, p := range h.Ops {
		if j == i {
			continue
		}
		a := h.lockFree(p)
		if a == 0 || o.pred>>uint(j)&1 == 1 || p.pred>>uint(i)&1 == 1 {
			continue
		}
		if m>>uint(j)&1 == 1 {
			a = -a
		}
		for _, v := range vs[:len(vs):len(vs)] {
			vs = append(vs, v+a)
		}
	}
	return vs
}

func (h *History) step(s st, m uint64, i int) []st {
	o := h.Ops[i]
	switch o.Kind {
	case 'U':
		return []st{{s.S, s.N + o.In}}
	case 'C':
		if o.In <= 0 {
			if o.Ok {
				return nil
			}
			return []st{s}
		}
		if o.Ok {
			if s.S-abs(s.N) >= o.In {
				return []st{{s.S, s.N + o.In}}
			}
			return nil
		}
		if h.Spec.WeakDenial {
			return []st{s}
		}
		for _, w := range h.views(s, m, i) {
			if s.S-abs(w) < o.In {
				return []st{s}
			}
		}
		if h.Spec.Fast {
			// a lock-free reservation in flight may be undone later
			ghost := int64(0)
			for j, p := range h.Ops {
				if j != i && p.Kind == 'C' && o.pred>>uint(j)&1 == 0 && p.pred>>uint(i)&1 == 0 && m>>uint(j)&1 == 0 {
					ghost += p.In
				}
			}
			if s.S-abs(s.N)-ghost < o.In && ghost > 0 {
				return []st{s}
			}
		}
		return nil
	case 'R':
		if o.In <= 0 {
			if o.Ok {
				return nil
			}
			return []st{s}
		}
		var out []st
		for _, w := range h.views(s, m, i) {
			k := settled(w, s.N)
			if k < 0 {
				k = 0
			}
			if k > o.In {
				k = o.In
			}
			if o.Ok == (k > 0) {
				out = append(out, st{s.S, s.N - k})
			}
		}
		return out
	case 'L': // a release whose outcome is not reported
		var out []st
		for _, w := range h.views(s, m, i) {
			k := settled(w, s.N)
			if k < 0 {
				k = 0
			}
			if k > o.In {
				k = o.In
			}
			out = append(out, st{s.S, s.N - k})
		}
		return out
	case 'K':
		if o.In == 0 {
			return []st{s}
		}
		var out []st
		for _, w := range h.views(s, m, i) {
			k := settled(w, s.N)
			if abs(k) > abs(o.In) {
				if k > 0 {
					k = abs(o.In)
				} else {
					k = -abs(o.In)
				}
			}
			out = append(out, st{s.S - abs(k), s.N - k})
		}
		return out
	case 'A':
		for _, w := range h.views(s, m, i) {
			if o.Out == s.S-abs(w) {
				return []st{s}
			}
		}
		return nil
	case 'S':
		if o.Out != s.S {
			return nil
		}
		for _, w := range h.views(s, m, i) {
			if o.Out2 == w {
				return []st{s}
			}
		}
		return nil
	case 'X':
		for _, w := range h.views(s, m, i) {
			if abs(w) >= o.In {
				if o.Ok && o.Out == w {
					return []st{s}
				}
			} else if !o.Ok && o.Out == 0 {
				return []st{s}
			}
		}
		return nil
	}
	return nil
}

type key struct {
	s st
	m uint64
}

// Linearizable searches for an order of the operations, consistent with
// real-time precedence, that the reference model accepts.
func (h *History) Linearizable() bool {
	n := len(h.Ops)
	full := uint64(1)<<uint(n) - 1
	seen := map[key]bool{}
	var rec func(s st, m uint64) bool
	rec = func(s st, m uint64) bool {
		if m == full {
			return true
		}
		k := key{s, m}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range h.Ops {
			b := uint64(1) << uint(i)
			if m&b != 0 || o.pred&^m != 0 {
				continue
			}
			for _, t := range h.step(s, m, i) {
				if rec(t, m|b) {
					return true
				}
			}
		}
		return false
	}
	return rec(st{h.Init, 0}, 0)
}

// Check fails the execution when no linearization exists.
func (h *History) Check(what string) {
	if !h.Linearizable() {
		if h.negativeCommit() && hk.Known("fast-path-negative-commit") {
			return
		}
		rt.Fail("%s: no sequential order explains the observed results: %s", what, h)
	}
}

// negativeCommit reports the one combination that is a listed finding: with the
// lock-free path on, a Commit of a negative vector (raw negative Updates)
// overlapping a lock-free consumption.
func (h *History) negativeCommit() bool {
	if !h.Spec.Fast {
		return false
	}
	neg, overlap := false, false
	for i, o := range h.Ops {
		if o.Kind == 'U' && o.In < 0 {
			neg = true
		}
		if o.Kind != 'K' {
			continue
		}
		for j, p := range h.Ops {
			if p.Kind == 'C' && p.Ok && o.pred>>uint(j)&1 == 0 && p.pred>>uint(i)&1 == 0 {
				overlap = true
			}
		}
	}
	return neg && overlap
}
