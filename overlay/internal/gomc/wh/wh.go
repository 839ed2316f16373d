// Package wh holds what the worker harnesses share: a recording storage and a
// ledger of the traffic.
package wh

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"vsa"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/core"
)

// Op is one request of the traffic.
type Op struct {
	Key      string
	N        int64 // units admitted (negative: refunded)
	V        *vsa.VSA
	Acquired time.Duration // when GetOrCreate was called
	Inv, Res time.Duration
	Done     bool
}

// Batch is one CommitBatch call.
type Batch struct {
	Commits  []core.Commit
	In, Out  time.Duration
	Failed   bool
	Finished bool
}

// World is a store, the traffic applied to it and the storage behind it.
type World struct {
	Budget   int64
	Store    *core.Store
	Ops      []*Op
	Batches  []*Batch
	Accepted map[string]int64 // sum of accepted vectors
	Moved    map[string]int64 // sum of accepted |vectors|
	Insts    map[string][]*vsa.VSA
	Slow     time.Duration // how long storage takes
	Faults   bool          // batches may fail
	FailNth  int           // this CommitBatch call fails
	Straight bool          // storage answers without letting others run
	FailAll  bool
	Probe    bool // compare memory with storage inside CommitBatch
	Finals   int
	inside   int
}

func New(budget int64, o vsa.Options) *World {
	w := &World{Budget: budget, Accepted: map[string]int64{}, Moved: map[string]int64{}, Insts: map[string][]*vsa.VSA{}}
	w.Store = core.NewStoreWithOptions(budget, o)
	return w
}

func (w *World) now() time.Duration { return time.Duration(rt.NowNanos()) }

func (w *World) know(key string, v *vsa.VSA) {
	for _, x := range w.Insts[key] {
		if x == v {
			return
		}
	}
	w.Insts[key] = append(w.Insts[key], v)
}

// Consume does what a request does: n times one unit of the key.
func (w *World) Consume(key string, n int64) bool {
	o := &Op{Key: key, Acquired: w.now()}
	v := w.Store.GetOrCreate(key)
	w.know(key, v)
	o.V, o.Inv = v, w.now()
	w.Ops = append(w.Ops, o)
	if v.TryConsume(n) {
		o.N = n
	}
	o.Res, o.Done = w.now(), true
	return o.N != 0
}

// Refund does what a release does.
func (w *World) Refund(key string, n int64) bool {
	o := &Op{Key: key, Acquired: w.now()}
	v := w.Store.GetOrCreate(key)
	w.know(key, v)
	_, before := v.State()
	o.V, o.Inv = v, w.now()
	w.Ops = append(w.Ops, o)
	ok := v.TryRefund(n)
	if ok {
		o.N = -n
		if n != 1 {
			_ = before // harnesses refund single units so that the amount is certain
		}
	}
	o.Res, o.Done = w.now(), true
	return ok
}

// Update adds raw units.
func (w *World) Update(key string, n int64) {
	o := &Op{Key: key, Acquired: w.now()}
	v := w.Store.GetOrCreate(key)
	w.know(key, v)
	o.V, o.Inv, o.N = v, w.now(), n
	w.Ops = append(w.Ops, o)
	v.Update(n)
	o.Res, o.Done = w.now(), true
}

var errStorage = errors.New("storage rejected the batch")

// CommitBatch implements core.Persister.
func (w *World) CommitBatch(cs []core.Commit) error {
	b := &Batch{Commits: append([]core.Commit(nil), cs...), In: w.now()}
	w.Batches = append(w.Batches, b)
	if len(cs) == 0 {
		rt.Fail("an empty batch was offered")
	}
	w.probe("a batch was offered")
	fail := w.FailAll || len(w.Batches) == w.FailNth
	if w.Faults && rt.Choose(2, true, "storage") == 1 {
		fail = true
	}
	if w.Slow > 0 {
		rt.Sleep(w.Slow)
	} else if !w.Straight {
		rt.Yield()
	}
	w.probe("before the batch was accepted")
	if !fail {
		for _, c := range cs {
			w.Accepted[c.Key] += c.Vector
			w.Moved[c.Key] += abs(c.Vector)
		}
	}
	b.Failed, b.Finished, b.Out = fail, true, w.now()
	if fail {
		return errStorage
	}
	return nil
}

func (w *World) PrintFinalMetrics() { w.Finals++ }

// probe: in memory nothing may be committed that storage has not accepted.
func (w *World) probe(when string) {
	if !w.Probe {
		return
	}
	for _, k := range w.Keys() {
		var drop int64
		for _, v := range w.Insts[k] {
			s, _ := v.State()
			drop += w.Budget - s
		}
		if drop > w.Moved[k] {
			rt.Fail("%s: %d units of key %s are committed in memory, storage accepted %d: %s", when, drop, k, w.Moved[k], w)
		}
	}
}

// Keys lists the keys seen, sorted.
func (w *World) Keys() []string {
	var ks []string
	for k := range w.Insts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Net is the traffic of a key: admitted minus refunded.
func (w *World) Net(key string) int64 {
	var n int64
	for _, o := range w.Ops {
		if o.Key == key {
			n += o.N
		}
	}
	return n
}

func (w *World) String() string {
	var b strings.Builder
	for _, o := range w.Ops {
		fmt.Fprintf(&b, "%s%+d@%v ", o.Key, o.N, o.Res)
	}
	b.WriteString("| ")
	for _, x := range w.Batches {
		fmt.Fprintf(&b, "batch@%v-%v%v", x.In, x.Out, x.Commits)
		if x.Failed {
			b.WriteString("FAILED")
		} else if !x.Finished {
			b.WriteString("...")
		}
		b.WriteString(" ")
	}
	return b.String()
}

// Missing reports whether the last batch that offered the key was rejected, and
// the vector it offered.
func (w *World) Missing(key string) (vec int64, failed bool) {
	for i := len(w.Batches) - 1; i >= 0; i-- {
		for _, c := range w.Batches[i].Commits {
			if c.Key == key {
				return c.Vector, w.Batches[i].Failed
			}
		}
	}
	return 0, false
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}
