// C20: the scalar service delivers every accepted delta exactly once.
package main

import (
	"fmt"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/plugin/tfd"
)

const (
	ms       = time.Millisecond
	interval = 10 * ms
)

type config struct {
	name     string
	buffer   int
	shards   int
	thr      int
	cap      time.Duration
	vsa      bool
	pipeline bool
}

// service is what both entry points of the scalar lane offer.
type service interface {
	Start()
	Stop()
	flush()
	ingest(tfd.Envelope)
	try(tfd.Envelope) bool
}

type direct struct{ *tfd.SService }

func (d direct) flush()                  { d.Flush() }
func (d direct) ingest(e tfd.Envelope)   { d.Ingest(e) }
func (d direct) try(e tfd.Envelope) bool { return d.TryIngest(e) }

type piped struct{ *tfd.Pipeline }

func (p piped) flush()                  { p.FlushS() }
func (p piped) ingest(e tfd.Envelope)   { p.Handle(e, nil) }
func (p piped) try(e tfd.Envelope) bool { p.Handle(e, nil); return true }

// world is one execution: envelope i carries a signed power of eight, so the
// sum of a cell tells which envelopes it holds and how often.
type world struct {
	c     config
	s     service
	progs []string

	accObj, delObj rt.Object
	next           int
	cells          [8]int // of envelope i
	firm           uint   // ingest returned before a stop was called, or reported acceptance
	refused        uint
	sums           [2]int64
	stopping       bool // a stop was called
	stopped        bool // a stop returned
}

var keys = [2][2]uint64{{3, 7}, {3, 8}} // alike in key

func delta(i int) int64 {
	d := int64(1) << (3 * i)
	if i%3 == 1 {
		return -d
	}
	return d
}

func (w *world) bad(format string, a ...any) {
	rt.Fail("%s (%s, threads: %s)", fmt.Sprintf(format, a...), w.c.name, strings.Join(w.progs, " | "))
}

// OnSBatches implements tfd.SBatchesSink.
func (w *world) OnSBatches(bs []tfd.SBatch) {
	rt.Point(rt.KWrite, &w.delObj, true, nil)
	if w.stopped {
		w.bad("batches delivered after Stop returned: %v", bs)
	}
	for _, b := range bs {
		switch [2]uint64{b.KeyID, b.BucketID} {
		case keys[0]:
			w.sums[0] += b.NetDelta
		case keys[1]:
			w.sums[1] += b.NetDelta
		default:
			w.bad("a batch of another cell: %v", b)
		}
	}
	w.delivered()
}

// delivered decodes the sums; it fails if they are not those of a set of
// envelopes ingested into their cells.
func (w *world) delivered() (set uint) {
	for c := range w.sums {
		var ids []int
		for i := 0; i < w.next; i++ {
			if w.cells[i] == c {
				ids = append(ids, i)
			}
		}
		found := false
		for m := uint(0); m < 1<<len(ids); m++ {
			var sum int64
			var mask uint
			for j, i := range ids {
				if m>>j&1 == 1 {
					sum += delta(i)
					mask |= 1 << i
				}
			}
			if sum == w.sums[c] {
				found = true
				set = set&^w.cellMask(c) | mask
			}
		}
		if !found {
			w.bad("cell %v sums to %d, which no set of its envelopes gives", keys[c], w.sums[c])
		}
	}
	return set
}

func (w *world) cellMask(c int) (m uint) {
	for i := 0; i < w.next; i++ {
		if w.cells[i] == c {
			m |= 1 << i
		}
	}
	return
}

func (w *world) need(set uint, what string) {
	rt.Point(rt.KRead, &w.delObj, false, nil)
	if miss := set &^ w.delivered(); miss != 0 {
		w.bad("%s returned, but envelopes %b accepted before are not delivered (sums %v)", what, miss, w.sums)
	}
}

func (w *world) accepted() uint {
	rt.Point(rt.KRead, &w.accObj, false, nil)
	return w.firm
}

func (w *world) env(id int) tfd.Envelope {
	k := keys[w.cells[id]]
	return tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: k[0], Time: tfd.TimeFootprint{BucketID: k[1]}}, Delta: delta(id), SeqEnd: uint64(id + 1)}
}

func (w *world) stop() {
	rt.Point(rt.KWrite, &w.accObj, true, nil)
	w.stopping = true
	w.s.Stop()
	w.need(w.accepted(), "Stop")
	w.stopped = true
}

func (w *world) flush() {
	acc := w.accepted()
	w.s.flush()
	w.need(acc, "Flush")
}

func (w *world) offer(id int, blocking bool) bool {
	ok := true
	if blocking {
		w.s.ingest(w.env(id))
	} else {
		ok = w.s.try(w.env(id))
	}
	rt.Point(rt.KWrite, &w.accObj, true, nil)
	if !ok {
		w.refused |= 1 << id
	} else if !w.stopping || !blocking && !w.c.pipeline {
		w.firm |= 1 << id
	}
	return ok
}

// vector offers an envelope of the other lane, which must have no effect here.
func (w *world) vector() {
	e := w.env(0)
	e.Channel = tfd.ChannelVector
	e.Delta = 1 << 40
	w.s.ingest(e)
	if !w.s.try(e) {
		w.bad("TryIngest of a vector envelope reports a full buffer")
	}
}

func build(c config, progs []string) *world {
	w := &world{c: c, progs: progs}
	for _, p := range progs {
		for _, x := range p {
			switch x {
			case 'i', 't':
				w.cells[w.next] = 0
				w.next++
			case 'I', 'T':
				w.cells[w.next] = 1
				w.next++
			}
		}
	}
	w.next += 2 // two more after the end
	var v tfd.VSATransformer
	if c.vsa {
		v = tfd.SimpleVSA{}
	}
	if c.pipeline {
		w.s = piped{tfd.NewPipeline(tfd.PipelineOptions{Shards: c.shards, OrderPow2: 1, CountThresh: c.thr, TimeCap: c.cap, FlushInterval: interval, Buffer: c.buffer, VSA: v, SSink: w})}
	} else {
		w.s = direct{tfd.NewSService(tfd.NewSAccumulator(c.shards, 1, c.thr, c.cap), v, w, tfd.SServiceOptions{Buffer: c.buffer, FlushInterval: interval})}
	}
	return w
}

func (w *world) run(prog string, id int) {
	for _, x := range prog {
		switch x {
		case 'i', 'I':
			w.offer(id, true)
			id++
		case 't', 'T':
			w.offer(id, false)
			id++
		case 'v':
			w.vector()
		case 'f':
			w.flush()
		case 'S':
			w.stop()
		case 'R':
			w.s.Start()
		case 'z':
			rt.Sleep(7 * ms)
		}
	}
}

// end stops the service and checks what is left.
func (w *world) end() {
	w.stop()
	if got := w.delivered(); got&w.refused != 0 {
		w.bad("refused envelopes %b are delivered", got&w.refused)
	}
	rt.Quiesce()
	w.idle("after Stop")
	w.s.flush()
	w.s.Stop()
	w.s.Start()
	if !w.c.pipeline && w.s.try(w.env(w.next-2)) {
		w.bad("TryIngest accepts after Stop")
	}
	for i := 0; i <= w.c.buffer; i++ {
		w.s.ingest(w.env(w.next - 1)) // must return
	}
	w.s.flush()
	w.s.Stop()
	rt.Sleep(3 * interval)
	rt.Quiesce()
	w.idle("at the end")
}

func (w *world) idle(what string) {
	if n := rt.LiveThreads(); n != 0 {
		w.bad("%s: %d background goroutines still run: %s", what, n, rt.LiveNames())
	}
	if n := rt.PendingTimers(); n != 0 {
		w.bad("%s: %d timers still armed", what, n)
	}
}

// body runs the programs in parallel; the first character of the first one
// is '!' if the service is not started beforehand.
func body(c config, progs ...string) func() {
	return func() {
		w := build(c, progs)
		var hs []*rt.Handle
		id := 0
		started := !strings.HasPrefix(progs[0], "!")
		if started {
			w.s.Start()
		}
		for _, p := range progs {
			p, id0 := strings.TrimPrefix(p, "!"), id
			hs = append(hs, rt.GoNamed(p, func() { w.run(p, id0) }))
			id += strings.Count(strings.ToLower(p), "i") + strings.Count(strings.ToLower(p), "t")
		}
		for _, h := range hs {
			h.Join()
		}
		w.end()
	}
}

// sequences: one caller, all sequences of calls; the worker keeps up between
// them, so the buffer's state is known.
func sequences(c config, depth int, started bool) func() {
	return func() {
		w := build(c, []string{strings.Repeat("iI", (depth+1)/2)})
		running := started
		stopped := false
		if started {
			w.s.Start()
			rt.Quiesce()
		}
		held := 0 // in the buffer
		acts := "iIttTfzzSRvn"
		trace := ""
		for id, n := 0, 0; n < depth; n++ {
			x := acts[rt.Choose(len(acts), false, "call")]
			if stopped && x != 'z' && x != 't' {
				x = 'f'
			}
			if !running && !stopped && (x == 'f' || (x == 'i' || x == 'I' || w.c.pipeline && (x == 't' || x == 'T')) && held == c.buffer) {
				x = 'R' // would wait for the start
			}
			trace += string(x)
			w.progs = []string{trace}
			switch x {
			case 'i', 'I', 't', 'T':
				w.cells[id] = 0
				if x == 'I' || x == 'T' {
					w.cells[id] = 1
				}
				if stopped {
					w.cells[id] = id & 1
				}
				ok := w.offer(id, x == 'i' || x == 'I')
				if want := !stopped && held < c.buffer; x != 'i' && x != 'I' && !w.c.pipeline && ok != want {
					w.bad("TryIngest=%v with %d of %d buffered (stopped %v)", ok, held, c.buffer, stopped)
				}
				if !stopped && ok && !running {
					held++
				}
				id++
			case 'v':
				w.vector()
			case 'n': // several at once
				if !running && held > 0 {
					break
				}
				for i := 0; i < c.buffer && id < depth; i++ {
					if ok := w.offer(id, c.pipeline); !ok {
						w.bad("TryIngest refused with %d of %d buffered", i, c.buffer)
					}
					id++
					if !running {
						held++
					}
				}
			case 'f':
				w.flush()
			case 'S':
				w.stop()
				stopped, running, held = true, false, 0
			case 'R':
				w.s.Start()
				running, held = !stopped, 0
			case 'z':
				rt.Sleep(2*interval + 3*ms)
				rt.Quiesce()
				if running {
					w.need(w.firm, "two flush intervals without a call have passed; nothing")
				}
			}
			rt.Quiesce()
		}
		if !stopped {
			w.end()
			return
		}
		rt.Quiesce()
		w.idle("at the end")
	}
}

// bulk sums what is delivered per cell.
type bulk map[[2]uint64]int64

func (b bulk) OnSBatches(bs []tfd.SBatch) {
	for _, x := range bs {
		b[[2]uint64{x.KeyID, x.BucketID}] += x.NetDelta
	}
}

// load: a full buffer of n envelopes over many cells before the worker looks.
func load(n, buffer int, c config) func() {
	return func() {
		rt.MoreSteps(100 * n)
		if n > 100 {
			rt.SelectBias(1 + rt.Choose(2, false, "select"))
		}
		got, want := bulk{}, bulk{}
		var v tfd.VSATransformer
		if c.vsa {
			v = tfd.SimpleVSA{}
		}
		cells := []int{1, 50, n}[rt.Choose(3, false, "cells")]
		end := rt.Choose(4, false, "end")
		var s service
		if c.pipeline {
			s = piped{tfd.NewPipeline(tfd.PipelineOptions{Shards: c.shards, OrderPow2: 4, CountThresh: c.thr, TimeCap: c.cap, FlushInterval: interval, Buffer: buffer, VSA: v, SSink: got})}
		} else {
			s = direct{tfd.NewSService(tfd.NewSAccumulator(c.shards, 4, c.thr, c.cap), v, got, tfd.SServiceOptions{Buffer: buffer, FlushInterval: interval})}
		}
		if end != 3 {
			s.Start()
		}
		for i := 0; i < n; i++ {
			k := uint64(i % cells)
			e := tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: k * 0x9E3779B97F4A7C15, Time: tfd.TimeFootprint{BucketID: k / 3}}, Delta: int64(i%7 - 2), SeqEnd: uint64(i + 1)}
			if i%2 == 0 {
				s.ingest(e)
			} else if !s.try(e) {
				s.ingest(e) // waits for room
			}
			want[[2]uint64{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
		}
		switch end {
		case 0:
			s.flush()
		case 1, 3:
			s.Stop()
		case 2:
			rt.Sleep(3 * interval)
			rt.Quiesce()
		}
		for k, d := range want {
			if got[k] != d {
				rt.Fail("%s: %d envelopes over %d cells, then %s: cell %v got %d instead of %d", c.name, n, cells, []string{"Flush", "Stop", "three intervals", "Stop of a service never started"}[end], k, got[k], d)
			}
		}
		s.Stop()
	}
}

// marathon: n flush intervals of a long life, with bursts, pauses and explicit flushes;
// whatever was accepted two intervals ago is delivered.
func marathon(n, buffer int, c config) func() {
	return func() {
		rt.MoreSteps(400 * n)
		rt.SelectBias(1 + rt.Choose(2, false, "select"))
		got, want := bulk{}, bulk{}
		var v tfd.VSATransformer
		if c.vsa {
			v = tfd.SimpleVSA{}
		}
		var s service
		if c.pipeline {
			s = piped{tfd.NewPipeline(tfd.PipelineOptions{Shards: c.shards, OrderPow2: 4, CountThresh: c.thr, TimeCap: c.cap, FlushInterval: interval, Buffer: buffer, VSA: v, SSink: got})}
		} else {
			s = direct{tfd.NewSService(tfd.NewSAccumulator(c.shards, 4, c.thr, c.cap), v, got, tfd.SServiceOptions{Buffer: buffer, FlushInterval: interval})}
		}
		s.Start()
		rt.Sleep(13)
		seq := uint64(0)
		check := func(i int, when string) {
			for k, d := range want {
				if got[k] != d {
					rt.Fail("%s: interval %d, %s: cell %v got %d instead of %d", c.name, i, when, k, got[k], d)
				}
			}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < i%4*(1+i%3); j++ {
				seq++
				k := uint64((i*i + j) % 101)
				e := tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: k, Time: tfd.TimeFootprint{BucketID: k % 5}}, Delta: int64(seq%11) - 4, SeqEnd: seq}
				if j%2 == 0 {
					s.ingest(e)
				} else if !s.try(e) {
					s.ingest(e)
				}
				want[[2]uint64{k, k % 5}] += e.Delta
			}
			switch {
			case i%10 == 9:
				s.flush()
				check(i, "after Flush")
			case i%3 == 2:
				rt.Sleep(2 * interval)
				rt.Quiesce()
				check(i, "two flush intervals later")
			default:
				rt.Sleep(interval)
			}
		}
		s.Stop()
		check(n, "after Stop")
	}
}

func main() {
	hk.Main(hk.Check{ID: "C20",
		Rule:        "an execution is one interleaving of producers, flushers and stoppers with the service's worker and its ticker; every delivered sum is decoded into the set of envelopes it holds",
		Assumptions: []string{"the sink returns", "sequentially consistent memory (data races are C25)"},
		Jobs: func(tier string) []hk.Job {
			p, t, d := 2, 1, 4
			if tier == "thorough" {
				p, t, d = 3, 2, 5
			}
			one := config{name: "buffer1", buffer: 1, shards: 1, thr: 2, cap: 5 * ms}
			two := config{name: "buffer2-vsa-2shards", buffer: 2, shards: 2, thr: 1, cap: ms, vsa: true}
			pipe := config{name: "pipeline", buffer: 1, shards: 1, thr: 2, cap: 5 * ms, vsa: true, pipeline: true}
			var js []hk.Job
			add := func(c config, name string, w int, b []rt.Budget, progs ...string) {
				js = append(js, hk.Job{Name: c.name + "/" + name, Weight: w, Bounds: b, Body: body(c, progs...)})
			}
			for _, c := range []config{one, two, pipe} {
				q := p
				if c.pipeline || c.vsa && tier == "quick" { // the worker is the same
					q = p - 1
				}
				add(c, "stop", 6, hk.PTF(p, t, 0), "iI", "t", "S")
				add(c, "flush", 6, hk.PTF(q, t, 0), "if", "t", "f")
				add(c, "flush-stop", 8, hk.PTF(q, t, 0), "tf", "i", "S")
				add(c, "stops", 5, hk.PTF(q, t, 0), "iS", "t", "S")
				add(c, "flushes", 6, hk.PTF(p-1, t, 0), "f", "if", "S")
				add(c, "unstarted", 4, hk.PTF(p, t, 0), "!itT", "R", "S")
				add(c, "unstarted-flush", 8, hk.PTF(q, t, 0), "!if", "tfS", "R")
				add(c, "full", 5, hk.PTF(q, t, 0), "tttT", "iI")
				add(c, "ticks", 4, hk.PTF(p, t+1, 0), "izt", "zIf", "zzS")
				if tier == "thorough" {
					add(c, "flush2", 8, hk.PTF(p-1, t, 0), "if", "tI", "f")
					add(c, "flushes2", 8, hk.PTF(p-1, t, 0), "if", "ff", "S")
					add(c, "stops2", 8, hk.PTF(p-1, t, 0), "iS", "tS", "S")
					add(c, "four", 8, hk.PTF(p-2, t-1, 0), "i", "t", "f", "S")
				}
				js = append(js, hk.Job{Name: c.name + "/sequences", Weight: 4, Bounds: hk.P(0), Body: sequences(c, d, true)})
				js = append(js, hk.Job{Name: c.name + "/sequences-unstarted", Weight: 4, Bounds: hk.P(0), Body: sequences(c, d, false)})
			}
			for _, c := range []config{one, two, pipe} {
				c.thr = 1000
				c.cap = time.Second
				for _, n := range []int{17, 65, 257, 1025, 4096} {
					js = append(js, hk.Job{Name: fmt.Sprintf("%s/load-%d", c.name, n), Weight: 1, Bounds: hk.P(0), Body: load(n, (n+1)&^1, c)})
				}
				js = append(js, hk.Job{Name: c.name + "/marathon", Weight: 1, Bounds: hk.P(0), Body: marathon(1500, 64, c)})
				js = append(js, hk.Job{Name: c.name + "/load-default", Weight: 1, Bounds: hk.P(0), Body: load(4000, 0, c)})
			}
			return js
		}})
}
