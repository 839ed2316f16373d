package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
)

// Budget bounds the deviations of one execution from the default schedule:
// P preemptions, T timer firings while some thread could run, F injected faults.
type Budget struct{ P, T, F int }

func (b Budget) add(c Budget) Budget { return Budget{b.P + c.P, b.T + c.T, b.F + c.F} }
func (b Budget) fits(max Budget) bool {
	return b.P <= max.P && b.T <= max.T && b.F <= max.F
}
func (b Budget) minus(c Budget) Budget { return Budget{b.P - c.P, b.T - c.T, b.F - c.F} }
func (b Budget) pack() uint32 {
	return uint32(b.P&0x3ff) | uint32(b.T&0x3ff)<<10 | uint32(b.F&0x3ff)<<20
}
func covers(a, b uint32) bool { // a >= b componentwise
	return a&0x3ff >= b&0x3ff && (a>>10)&0x3ff >= (b>>10)&0x3ff && a>>20 >= b>>20
}

// Scenario is one bounded experiment on the real code.
type Scenario struct {
	Name string
	// Body runs as the main virtual thread.
	Body func()
	// Bounds are explored one after the other (iterative deepening); the last
	// one is the bound claimed when the run is exhaustive.
	Bounds []Budget
	// Weight orders scenarios in the worker pool (heavier first).
	Weight int
}

type node struct {
	nopts  int
	choice int
	cost   []Budget
	before Budget
	sig    uint64
}

// Stats of one scenario.
type Stats struct {
	Scenario    string   `json:"scenario"`
	Executions  int64    `json:"executions"`
	Complete    int64    `json:"complete"` // ran to the end (not pruned)
	Pruned      int64    `json:"pruned"`
	Horizon     int64    `json:"horizon"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Outcomes    int64    `json:"outcomes"` // distinct final states
	Bound       string   `json:"bound"`
	Exhaustive  bool     `json:"exhaustive"`
	Nondet      int64    `json:"nondeterminism"`
	Sample      []string `json:"sample,omitempty"`
	Notes       []string `json:"notes,omitempty"`
	Wall        float64  `json:"wall_s"`
	Violation   *Report  `json:"violation,omitempty"`
	Known       []string `json:"known,omitempty"`
}

// Report is a confirmed violation.
type Report struct {
	Scenario string   `json:"scenario"`
	Msg      string   `json:"message"`
	Choices  []int    `json:"choices"`
	Budget   Budget   `json:"budget"`
	Trace    []string `json:"trace,omitempty"`
	Confirm  string   `json:"confirmed"`
	Race     bool     `json:"race,omitempty"`
}

type explorer struct {
	sc       *Scenario
	max      Budget
	nodes    []node
	nprefix  int
	replay   []int // forced choices (replay mode)
	cache    Tab[uint32]
	outcomes map[uint64]struct{}
	stats    *Stats
	nondet   bool
	noCache  bool
	tracing  bool
}

var ex *explorer

var maxSteps = 60000

// decide picks an option at a decision point; -1 means prune.
func (x *exec) decide(opts []option, t *Thread) int {
	e := ex
	// keep only what the budget affords
	n := 0
	idx := idxBuf[:0]
	for i := range opts {
		if x.used.add(opts[i].cost).fits(e.max) {
			idx = append(idx, i)
			n++
		}
	}
	idxBuf = idx
	if n == 0 {
		return 0
	}
	if n == 1 {
		if o := &opts[idx[0]]; o.th != t && !e.fresh(x, x.stateHash(t)) {
			x.pruned = true
			return -1
		}
		x.used = x.used.add(opts[idx[0]].cost)
		return idx[0]
	}
	costs := func() []Budget {
		c := make([]Budget, n)
		for j, i := range idx {
			c[j] = opts[i].cost
		}
		return c
	}
	sigT := t
	c, ok := e.pick(x, n, x.stateHash(sigT), costs, false)
	if !ok {
		x.pruned = true
		return -1
	}
	i := idx[c]
	x.used = x.used.add(opts[i].cost)
	return i
}

var idxBuf []int

// fresh is the cache test at a forced switch, which needs no node: false when
// the same state was already explored with at least the same budget left.
func (e *explorer) fresh(x *exec, h uint64) bool {
	if e.replay != nil || e.noCache || x.depth < e.nprefix {
		return true
	}
	rem := e.max.minus(x.used).pack()
	key := mix(h, 0x0f0)
	if old, ok := e.cache.Get(key); ok {
		if covers(old, rem) {
			return false
		}
		if covers(rem, old) {
			e.cache.Set(key, rem)
		}
		return true
	}
	e.stats.States++
	e.cache.Set(key, rem)
	return true
}

func (e *explorer) pick(x *exec, n int, h uint64, costs func() []Budget, isChoice bool) (int, bool) {
	d := x.depth
	x.depth++
	if e.replay != nil {
		if d < len(e.replay) {
			c := e.replay[d]
			if c >= n {
				e.nondet = true
				return 0, true
			}
			return c, true
		}
		return 0, true
	}
	if d < e.nprefix {
		nd := &e.nodes[d]
		if nd.nopts != n || nd.sig != h {
			e.nondet = true
			return 0, false
		}
		return nd.choice, true
	}
	if !e.noCache {
		rem := e.max.minus(x.used).pack()
		key := h
		if isChoice {
			key = mix(h, 0xc01ce)
		}
		if old, ok := e.cache.Get(key); ok && covers(old, rem) {
			return 0, false
		} else if !ok {
			e.stats.States++
			e.cache.Set(key, rem)
		} else if covers(rem, old) {
			e.cache.Set(key, rem)
		}
	}
	e.nodes = append(e.nodes[:d], node{nopts: n, choice: 0, cost: costs(), before: x.used, sig: h})
	return 0, true
}

// Choose is an environment choice among n outcomes; outcome i>0 costs one unit
// of the fault budget when fault is true.
func Choose(n int, fault bool, what string) int {
	x := X
	if x == nil || n <= 1 {
		return seqChoose(n, what)
	}
	t := x.cur
	if x.aborting {
		x.exit(t)
		return 0
	}
	e := ex
	idx := make([]int, 0, n)
	for i := 0; i < n; i++ {
		var c Budget
		if fault && i > 0 {
			c.F = 1
		}
		if x.used.add(c).fits(e.max) {
			idx = append(idx, i)
		}
	}
	pick := 0
	if len(idx) > 1 {
		costs := func() []Budget {
			cs := make([]Budget, len(idx))
			for j, i := range idx {
				if fault && i > 0 {
					cs[j].F = 1
				}
			}
			return cs
		}
		c, ok := e.pick(x, len(idx), mix(x.stateHash(t), strHash(what)), costs, true)
		if !ok {
			x.pruned = true
			x.over()
			x.exit(t)
			return 0
		}
		pick = idx[c]
	}
	if fault && pick > 0 {
		x.used.F++
	}
	t.nops++
	t.hist = mix(t.hist, mix(strHash(what), uint64(pick)+1))
	if x.trace != nil {
		x.trace = append(x.trace, fmt.Sprintf("T%d(%s) env %s -> %d", t.id, t.name, what, pick))
	}
	return pick
}

// ---------------------------------------------------------------- one execution

func (e *explorer) run() *exec {
	epoch++
	for _, f := range resets {
		f()
	}
	x := &exec{finished: make(chan struct{}), now: 0}
	if e.tracing {
		x.trace = []string{}
	}
	X = x
	main := x.newThread(nil, "main")
	x.cur = main
	go x.threadMain(main, e.sc.Body, true)
	raceDisable()
	main.sem <- struct{}{}
	<-x.finished
	raceEnable()
	raceAcq(&doneTok)
	X = nil
	return x
}

func (e *explorer) choices(x *exec) []int {
	out := make([]int, 0, x.depth)
	for i := 0; i < x.depth && i < len(e.nodes); i++ {
		out = append(out, e.nodes[i].choice)
	}
	return out
}

// backtrack moves to the next unexplored branch; false when there is none.
func (e *explorer) backtrack() bool {
	for len(e.nodes) > 0 {
		nd := &e.nodes[len(e.nodes)-1]
		if nd.choice+1 < nd.nopts {
			nd.choice++
			e.nprefix = len(e.nodes)
			return true
		}
		e.nodes = e.nodes[:len(e.nodes)-1]
	}
	return false
}

func boundName(b Budget) string { return fmt.Sprintf("P=%d,T=%d,F=%d", b.P, b.T, b.F) }

// cpuNow is the CPU time this process has used.
func cpuNow() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Explore runs the scenario under all its bounds until deadline.
func Explore(sc *Scenario, deadline time.Time, onHang func(*Report)) *Stats {
	st := &Stats{Scenario: sc.Name}
	start := time.Now()
	defer func() { st.Wall = time.Since(start).Seconds() }()
	stopWatch := watchdog(sc, onHang)
	defer stopWatch()
	debug.SetGCPercent(400)
	for bi, b := range sc.Bounds {
		e := &explorer{sc: sc, max: b, outcomes: map[uint64]struct{}{}, stats: st}
		if RaceOn {
			e.noCache = false
		}
		st.States = 0
		var execs, complete, pruned, horizon, trans int64
		ex = e
		timedOut := false
		for {
			e.nondet = false
			x := e.run()
			x.judgeRace()
			execs++
			trans += int64(x.steps)
			if e.nondet {
				st.Nondet++
				if st.Nondet > 50 {
					st.Notes = append(st.Notes, "execution replay was not deterministic; exploration of this scenario stopped")
					goto out
				}
			}
			switch {
			case x.vio != nil:
				ch := e.choices(x)
				rep := confirm(sc, b, ch, x.vio.Msg)
				if rep != nil {
					st.Violation = rep
					st.Bound = boundName(b)
					st.Executions += execs
					st.Transitions += trans
					st.Outcomes = int64(len(e.outcomes))
					return st
				}
				ex = e
				st.Notes = append(st.Notes, "a failure did not reproduce on replay and is not reported: "+x.vio.Msg)
				if len(st.Notes) > 20 {
					goto out
				}
			case x.horizon:
				horizon++
			case x.pruned:
				pruned++
			default:
				complete++
				var f uint64
				for _, u := range x.threads {
					f += mix(u.path, u.hist)
				}
				e.outcomes[f] = struct{}{}
			}
			if !e.backtrack() {
				break
			}
			if execs&63 == 0 && time.Now().After(deadline) {
				timedOut = true
				break
			}
			if execs&4095 == 0 {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					timedOut = true
					st.Notes = append(st.Notes, "memory limit reached")
					break
				}
			}
		}
		st.Executions += execs
		st.Complete += complete
		st.Pruned += pruned
		st.Horizon += horizon
		st.Transitions += trans
		st.Outcomes = int64(len(e.outcomes))
		if timedOut {
			st.Notes = append(st.Notes, fmt.Sprintf("bound %s stopped at its deadline after %d executions", boundName(b), execs))
			break
		}
		st.Bound = boundName(b)
		if bi == len(sc.Bounds)-1 {
			st.Exhaustive = horizon == 0 && st.Nondet == 0
		}
	}
out:
	// one sample trace
	if len(st.Sample) == 0 && len(sc.Bounds) > 0 {
		e := &explorer{sc: sc, max: sc.Bounds[0], replay: []int{}, stats: &Stats{}, tracing: true, noCache: true}
		ex = e
		x := e.run()
		tr := x.trace
		if len(tr) > 40 {
			tr = append(append([]string{}, tr[:40]...), fmt.Sprintf("... %d more", len(x.trace)-40))
		}
		st.Sample = tr
	}
	return st
}

// confirm replays a failing execution five times; all must fail alike.
func confirm(sc *Scenario, b Budget, choices []int, msg string) *Report {
	var tr []string
	if RaceOn {
		return confirmRace(sc, b, choices, msg)
	}
	for i := 0; i < 5; i++ {
		e := &explorer{sc: sc, max: b, replay: choices, stats: &Stats{}, tracing: true, noCache: true}
		ex = e
		x := e.run()
		if x.vio == nil {
			return nil
		}
		msg = x.vio.Msg
		tr = x.trace
	}
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	return &Report{Scenario: sc.Name, Msg: msg, Choices: choices, Budget: b, Trace: tr, Confirm: "5/5 replays"}
}

// judgeRace turns a data race into a violation.
func (x *exec) judgeRace() {
	if !RaceOn {
		return
	}
	newRace() // skip what the teardown caused
	if x.race != "" && x.vio == nil {
		x.vio = &Violation{Msg: x.race}
	}
}

// Replay re-executes a recorded schedule and returns the violation, if any.
func Replay(sc *Scenario, b Budget, choices []int) (*Violation, []string) {
	e := &explorer{sc: sc, max: b, replay: choices, stats: &Stats{}, tracing: true, noCache: true}
	ex = e
	x := e.run()
	x.judgeRace()
	return x.vio, x.trace
}

const hangCPU = 25 * time.Second

// watchdog reports code that burns CPU without ever reaching a synchronisation
// operation (an endless loop).  It counts CPU time of this process, not wall
// time, so that a loaded machine cannot trip it.
func watchdog(sc *Scenario, onHang func(*Report)) func() {
	stop := make(chan struct{})
	go func() {
		last := beat.Load()
		mark := cpuNow()
		tk := time.NewTicker(500 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
			}
			b := beat.Load()
			if b != last || X == nil {
				last, mark = b, cpuNow()
				continue
			}
			if cpuNow()-mark > hangCPU {
				var ch []int
				if ex != nil {
					for i := range ex.nodes {
						ch = append(ch, ex.nodes[i].choice)
					}
					if ex.replay != nil {
						ch = ex.replay
					}
				}
				onHang(&Report{Scenario: sc.Name, Msg: "hang: the code under test used 25 s of CPU without reaching any synchronisation operation (endless loop)", Choices: ch, Budget: ex.max, Confirm: "cpu watchdog"})
				return
			}
		}
	}()
	return func() { close(stop) }
}

// Beat tells the watchdog that a sequential harness is making progress.
func Beat() { beat.Add(1) }

// WriteJSON is a helper for harness drivers.
func WriteJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "gomc: cannot write", path, err)
	}
}

// ---------------------------------------------------------------- sequential choice trees

// seqTree enumerates all outcomes of Choose calls of a sequential program.
type seqTree struct {
	path []int
	lim  []int
	pos  int
}

var tree *seqTree

func seqChoose(n int, what string) int {
	if tree == nil || n <= 1 {
		return 0
	}
	t := tree
	if t.pos == len(t.path) {
		t.path = append(t.path, 0)
		t.lim = append(t.lim, n)
	}
	c := t.path[t.pos]
	if c >= n {
		c = 0
	}
	t.lim[t.pos] = n
	t.pos++
	return c
}

// ForAll runs f once for every combination of the Choose outcomes inside it
// (depth-first); it stops early when stop returns true.  It returns the number
// of runs and whether the tree was exhausted.
func ForAll(f func(), stop func() bool) (runs int64, complete bool) {
	old := tree
	defer func() { tree = old }()
	t := &seqTree{}
	tree = t
	for {
		t.pos = 0
		f()
		runs++
		Beat()
		t.path = t.path[:t.pos]
		t.lim = t.lim[:t.pos]
		for len(t.path) > 0 {
			l := len(t.path) - 1
			if t.path[l]+1 < t.lim[l] {
				t.path[l]++
				break
			}
			t.path, t.lim = t.path[:l], t.lim[:l]
		}
		if len(t.path) == 0 {
			return runs, true
		}
		if stop != nil && runs&15 == 0 && stop() {
			return runs, false
		}
	}
}

// SeqPath returns the current choice path (for reports).
func SeqPath() []int {
	if tree == nil {
		return nil
	}
	return append([]int(nil), tree.path...)
}

// SeqWatchdog is the endless-loop watchdog for sequential jobs.
func SeqWatchdog(name string, onHang func(*Report)) func() {
	stop := make(chan struct{})
	go func() {
		last, mark := beat.Load(), cpuNow()
		tk := time.NewTicker(500 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tk.C:
			}
			if b := beat.Load(); b != last {
				last, mark = b, cpuNow()
				continue
			}
			if cpuNow()-mark > hangCPU {
				onHang(&Report{Scenario: name, Msg: "hang: one case used 25 s of CPU without finishing (endless loop)", Confirm: "cpu watchdog"})
				return
			}
		}
	}()
	return func() { close(stop) }
}

// Stack is the trimmed stack of the caller.
func Stack() string { return trimStack(debug.Stack()) }
