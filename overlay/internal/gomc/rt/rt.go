// Package rt is the controlled runtime of the gomc stateless model checker.
//
// The instrumenter (see /verif/mc) rewrites the code under test so that every
// synchronisation operation (sync, sync/atomic, channels, goroutine creation,
// time) goes through this package.  During an execution exactly one virtual
// thread runs at a time; at every synchronisation operation the running thread
// stops *before* the operation and the explorer decides which thread's pending
// operation happens next.  Outside an execution (X == nil) all operations
// degrade to plain single-threaded semantics.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
)

// ---------------------------------------------------------------- hashing

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

// Mix is exported for harnesses that record observations into the state hash.
func Mix(a, b uint64) uint64 { return mix(a, b) }

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- objects

// Object is the shadow of one synchronisation object: a canonical id and the
// hashes of its last writer and of the readers since.
type Object struct {
	epoch  uint64
	id     uint64
	wh, rh uint64
}

var epoch uint64 // increases with every execution

// Fresh makes sure the shadow belongs to the current execution; it reports
// whether it had to be re-initialised (state left by an earlier execution).
func (o *Object) Fresh() bool {
	if o.epoch != epoch {
		o.epoch = epoch
		o.id, o.wh, o.rh = 0, 0, 0
		return true
	}
	return false
}

type OpKind uint8

const (
	KStart OpKind = iota
	KRead
	KWrite
	KLock
	KUnlock
	KSend
	KRecv
	KClose
	KSelect
	KWait
	KChoose
	KTime
	KInvoke
	KYield
	KJoin
	KQuiesce
)

var kindName = [...]string{"start", "read", "write", "lock", "unlock", "send", "recv", "close", "select", "wait", "choose", "time", "invoke", "yield", "join", "quiesce"}

// ---------------------------------------------------------------- threads

type Thread struct {
	id      int
	path    uint64 // stable id independent of creation order across threads
	name    string
	sem     chan struct{}
	hist    uint64
	nops    uint64
	nkids   uint64
	done    bool
	exiting bool
	enabled func() bool // nil: always enabled
	kind    OpKind
	obj     *Object
	doneObj Object
	daemon  bool
	starter *Thread // creator waiting for the first visible operation
	free    bool    // the decision at the next operation prefers no thread
	raceTok byte
}

func (t *Thread) isEnabled() bool { return t.enabled == nil || t.enabled() }

// ---------------------------------------------------------------- execution

type Violation struct {
	Msg   string
	Trace []string
}

type exec struct {
	threads  []*Thread
	cur      *Thread
	aborting bool
	finished chan struct{}
	vio      *Violation
	steps    int
	streak   int
	timers   []*timer
	now      int64
	timerSeq uint64
	clockObj Object
	histSum  uint64 // responses so far (linearizability precedence)
	chans    Tab[*chanState]
	addrs    Tab[*addrObj]
	keep     []any
	trace    []string
	used     Budget
	depth    int // decision depth
	horizon  bool
	race     string // the first data race seen
	more     int    // steps granted beyond the usual horizon
	bias     int    // of select: 0 explores every ready case, 1 takes the first, 2 the last
	pruned   bool
	out      *strings.Builder
	envHash  uint64
	exitCode int
	exited   bool
	sig      []chan<- sigval
	hooks    []hook
	dbgLast  string
	mem      Object // stands for all plain memory
}

// X is the execution in progress (nil outside).
var X *exec

// beat is a heartbeat for the hang watchdog.
var beat atomic.Uint64

// Active reports whether a controlled execution is in progress.
func Active() bool { return X != nil }

// Aborting reports whether the current execution is being torn down.
func Aborting() bool { return X != nil && X.aborting }

func (x *exec) exit(t *Thread) {
	if !t.exiting {
		t.exiting = true
		runtime.Goexit()
	}
}

// Point is the scheduling point before one visible operation.  It returns when
// the scheduler lets the calling thread perform the operation.  The return
// value is false when the execution is being aborted and the caller must do
// nothing.
func Point(k OpKind, o *Object, write bool, enabled func() bool) bool {
	x := X
	if x == nil {
		if enabled != nil && !enabled() {
			panic("gomc: blocking operation outside a controlled execution")
		}
		return true
	}
	t := x.cur
	if x.aborting {
		x.exit(t)
		return false
	}
	t.enabled, t.kind, t.obj = enabled, k, o
	x.schedule(t)
	if x.aborting {
		x.exit(t)
		return false
	}
	t.enabled = nil
	x.record(t, k, o, write)
	return true
}

// Silent performs an operation that needs no scheduling point of its own: it
// only enables other operations (releasing a lock nobody tests without
// blocking), so every schedule that delays it is equivalent to one that does
// not.
func Silent(k OpKind, o *Object, write bool) bool {
	x := X
	if x == nil {
		return true
	}
	t := x.cur
	if x.aborting {
		x.exit(t)
		return false
	}
	if t.starter != nil {
		return Point(k, o, write, nil)
	}
	x.record(t, k, o, write)
	return true
}

func (x *exec) record(t *Thread, k OpKind, o *Object, write bool) {
	x.steps++
	if o != nil {
		touch(t, o, k, write)
	} else {
		t.nops++
		t.hist = mix(t.hist, uint64(k)+77)
	}
	if x.trace != nil {
		x.note(t, k, o)
	}
}

func (x *exec) note(t *Thread, k OpKind, o *Object) {
	var id uint64
	if o != nil {
		id = o.id & 0xffff
	}
	x.trace = append(x.trace, fmt.Sprintf("T%d(%s) %s obj=%04x %s", t.id, t.name, kindName[k], id, caller()))
}

func caller() string {
	var pcs [24]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "internal/gomc/") && !strings.HasPrefix(f.Function, "runtime.") {
			fn := f.Function
			if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s (%s:%d)", fn, file, f.Line)
		}
		if !more {
			return ""
		}
	}
}

func touch(t *Thread, o *Object, k OpKind, write bool) {
	o.Fresh()
	if o.id == 0 {
		o.id = mix(t.path, t.nops+1) | 1
	}
	t.nops++
	if write {
		t.hist = mix(mix(mix(t.hist, o.id+uint64(k)), o.wh), o.rh)
		o.wh = mix(t.hist, 0x77)
		o.rh = 0
	} else {
		t.hist = mix(mix(t.hist, o.id+uint64(k)), o.wh)
		o.rh += mix(t.path, t.hist)
	}
}

// Touch records an additional object access of the current operation (no
// scheduling point of its own).
func Touch(o *Object, write bool) {
	if x := X; x != nil && !x.aborting {
		touch(x.cur, o, KWrite, write)
	}
}

// Observe folds a value into the current thread's history (used when the
// outcome of an operation is decided by the environment).
func Observe(v uint64) {
	if x := X; x != nil && !x.aborting {
		x.cur.hist = mix(x.cur.hist, v)
	}
}

func (x *exec) stateHash(t *Thread) uint64 {
	var s uint64
	for _, u := range x.threads {
		f := u.hist
		if u.done {
			f = mix(f, 0xdead)
		}
		s += mix(u.path, f)
	}
	s = mix(s, uint64(x.now))
	s = mix(s, x.envHash)
	if t != nil {
		s = mix(s, t.path)
		if t.done {
			s = mix(s, 1)
		}
	}
	return s
}

const (
	streakMax = 3000
)

// schedule decides which thread performs its pending operation next.  It is
// called by the current thread t (whose pending operation is set, or which is
// done) and returns when t has been chosen again (never, if t is done).
func (x *exec) schedule(t *Thread) (passed bool) {
	beat.Add(1)
	if x.steps > maxSteps+x.more+fineMore {
		x.horizon = true
		x.abort(t)
		return false
	}
	if s := t.starter; s != nil {
		// first visible operation of a new thread (or its end): the creator
		// goes on
		t.starter = nil
		x.cur = s
		return x.pass(s, t)
	}
	if t.kind == KJoin && !t.done && t.isEnabled() {
		return false // waiting for a finished thread commutes with everything
	}
	if t.done || t.free {
		// likewise, let the threads that waited for a finished one move on to
		// their next operation; the last of them takes the decision
		for _, u := range x.threads {
			if u != t && !u.done && u.kind == KJoin && u.isEnabled() {
				t.free, u.free = false, true
				x.cur = u
				return x.pass(u, t)
			}
		}
	}
	free := t.free
	t.free = false
	sigT := t
	if free || t.done {
		sigT = nil
	}
	for {
		opts := optBuf[:0]
		tEnabled := !t.done && t.isEnabled()
		yielding := tEnabled && (t.kind == KYield || x.streak > streakMax+x.more+fineMore)
		if tEnabled && !yielding {
			opts = append(opts, option{th: t})
		}
		for _, u := range x.threads {
			if u == t || u.done || !u.isEnabled() {
				continue
			}
			o := option{th: u}
			if tEnabled && !yielding && !free {
				o.cost.P = 1
			}
			opts = append(opts, o)
		}
		if yielding {
			opts = append(opts, option{th: t})
			if len(opts) > 1 {
				// fairness: let the others run first, at no cost, and do not
				// branch on returning to the spinning thread at once
				opts = opts[:len(opts)-1]
			}
		}
		nt := x.nextTimer()
		hasTimer := nt != nil
		if len(opts) == 0 {
			if hasTimer {
				x.fire()
				continue
			}
			x.deadlock()
			x.abort(t)
			return false
		}
		if hasTimer {
			o := option{timer: true, cost: Budget{T: 1}}
			if nt.at <= x.now {
				// already due: like a thread that is ready
				o.cost = Budget{}
				if tEnabled && !yielding && !free {
					o.cost.P = 1
				}
			}
			opts = append(opts, o)
		}
		c := 0
		if len(opts) > 1 || opts[0].th != t {
			c = x.decide(opts, sigT)
			if c < 0 {
				x.abort(t)
				return false
			}
		}
		o := opts[c]
		optBuf = opts[:0]
		if o.timer {
			x.fire()
			continue
		}
		u := o.th
		if u == t {
			x.streak++
			return false
		}
		x.streak = 0
		x.cur = u
		return x.pass(u, t)
	}
}

// pass hands control from t to u and returns when t is chosen again; it
// returns true at once when t is done.
func (x *exec) pass(u, t *Thread) bool {
	if t.done {
		raceDisable()
		u.sem <- struct{}{}
		raceEnable()
		return true
	}
	handoff(u, t)
	return false
}

var optBuf []option

func handoff(u, t *Thread) {
	raceDisable()
	u.sem <- struct{}{}
	<-t.sem
	raceEnable()
}

type option struct {
	th    *Thread
	timer bool
	cost  Budget
}

func (x *exec) deadlock() {
	var b strings.Builder
	for _, u := range x.threads {
		if !u.done {
			fmt.Fprintf(&b, " T%d(%s) waits at %s;", u.id, u.name, kindName[u.kind])
		}
	}
	x.fail("deadlock: no thread can make progress:" + b.String())
}

func (x *exec) fail(msg string) {
	if x.vio == nil {
		x.vio = &Violation{Msg: msg}
	}
}

// Fail records a violation of the property under check and aborts the
// execution.
func Fail(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if X == nil {
		panic(seqFail(msg))
	}
	if X.aborting {
		return
	}
	X.fail(msg)
	X.over()
	X.exit(X.cur)
}

type seqFail string

// abort tears the execution down: every other thread is woken in turn and
// unwinds with Goexit.  Called by the current thread, which unwinds last.
func (x *exec) abort(t *Thread) { x.over() }

// over begins the teardown.  Deferred calls of unwinding threads run without
// the usual synchronisation: races are judged by what came before.
func (x *exec) over() {
	if RaceOn && !x.aborting {
		x.race = newRace()
	}
	x.aborting = true
}

// threadMain is the body of every virtual thread.
func (x *exec) threadMain(t *Thread, f func(), main bool) {
	defer func() {
		normal := false
		raceRel(&doneTok)
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok && !x.aborting {
				println("unsupported:", string(u))
				x.horizon = true
				x.over()
			} else if !x.aborting {
				x.fail(fmt.Sprintf("panic in T%d(%s): %v\n%s", t.id, t.name, r, trimStack(debug.Stack())))
				x.over()
			}
		} else {
			normal = !x.aborting && !t.exiting
		}
		t.done = true
		touchDone(t)
		if main && normal {
			x.over() // scenario over: tear the daemons down
		}
		if x.aborting {
			x.unwindNext(t)
			return
		}
		if !x.schedule(t) {
			x.unwindNext(t)
		}
	}()
	raceDisable()
	<-t.sem
	raceEnable()
	if x.aborting {
		return
	}
	t.enabled = nil
	raceAcquireThread(t)
	f()
	raceReleaseDone(t)
}

// doneTok orders each execution before the next one.
var doneTok byte

func touchDone(t *Thread) { touch(t, &t.doneObj, KJoin, true) }

// unwindNext passes the token to the next thread that still has to unwind.
func (x *exec) unwindNext(t *Thread) {
	for _, u := range x.threads {
		if !u.done {
			x.cur = u
			raceDisable()
			u.sem <- struct{}{}
			raceEnable()
			return
		}
	}
	close(x.finished)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "internal/gomc/rt") || strings.Contains(lines[i], "runtime/") || strings.HasPrefix(lines[i], "panic(") {
			continue
		}
		out = append(out, lines[i])
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (x *exec) newThread(parent *Thread, name string) *Thread {
	t := &Thread{id: len(x.threads), name: name, sem: make(chan struct{}, 1)}
	if parent != nil {
		parent.nkids++
		t.path = mix(parent.path, parent.nkids)
		t.hist = mix(parent.hist, t.path)
	} else {
		t.path = 0x1234567
		t.hist = 1
	}
	t.kind = KStart
	x.threads = append(x.threads, t)
	return t
}

// Go starts f as a new virtual thread (the rewritten go statement).
func Go(f func()) { goNamed("go", f, false) }

// GoNamed is Go with a name for traces; for harnesses.
func GoNamed(name string, f func()) *Handle { return goNamed(name, f, false) }

type Handle struct{ t *Thread }

func goNamed(name string, f func(), daemon bool) *Handle {
	x := X
	if x == nil {
		go f() // background goroutine outside an execution: run natively
		return nil
	}
	if x.aborting {
		return nil
	}
	// creating a thread is a visible event of the parent
	t := x.newThread(x.cur, name)
	t.daemon = daemon
	raceReleaseThread(t)
	go x.threadMain(t, f, false)
	// run it up to its first visible operation: what it does before commutes
	// with everything
	me := x.cur
	t.starter = me
	x.cur = t
	handoff(t, me)
	if x.aborting {
		x.exit(me)
	}
	return &Handle{t}
}

// Join waits for a thread to finish.
func (h *Handle) Join() {
	if X == nil || h == nil {
		return
	}
	if Point(KJoin, &h.t.doneObj, false, func() bool { return h.t.done }) {
		raceAcquireDone(h.t)
	}
}

// Done reports whether the thread has finished (no scheduling point).
func (h *Handle) Done() bool { return h != nil && h.t.done }

// LiveThreads counts the threads that have not finished, except the caller.
func LiveThreads() int {
	n := 0
	if x := X; x != nil {
		for _, u := range x.threads {
			if !u.done && u != x.cur {
				n++
			}
		}
	}
	return n
}

// LiveNames lists what the unfinished threads wait for (for messages).
func LiveNames() string {
	var b []string
	if x := X; x != nil {
		for _, u := range x.threads {
			if !u.done && u != x.cur {
				b = append(b, fmt.Sprintf("T%d(%s)@%s", u.id, u.name, kindName[u.kind]))
			}
		}
	}
	sort.Strings(b)
	return strings.Join(b, ",")
}

// Quiesce lets every other thread run until all of them are blocked or done.
// Timers do not fire.
func Quiesce() {
	x := X
	if x == nil {
		return
	}
	me := x.cur
	Point(KQuiesce, nil, false, func() bool {
		for _, u := range x.threads {
			if u != me && !u.done && u.kind != KQuiesce && u.isEnabled() {
				return false
			}
		}
		return true
	})
}

// ThreadIndex is the number of the running thread (0 outside).
func ThreadIndex() int {
	if X == nil || X.cur == nil {
		return 0
	}
	return X.cur.id
}

// Yield is runtime.Gosched.
func Yield() {
	if X == nil {
		return
	}
	Point(KYield, nil, false, nil)
}

// fineOn makes plain accesses of the code under test scheduling points.
var fineOn bool

var fineMore int // longer horizons, because there are more points

// SetFine turns the plain-access points on or off.
func SetFine(on bool) {
	fineOn, fineMore = on, 0
	if on {
		fineMore = 60000
	}
}

// Fine precedes a statement that touches memory other threads may reach.
func Fine() {
	if fineOn {
		finePoint()
	}
}

// FineV separates the read from the write of a read-modify-write statement.
func FineV[T any](v T) T {
	if fineOn {
		finePoint()
	}
	return v
}

func finePoint() {
	if x := X; x != nil && !x.aborting {
		Point(KWrite, &x.mem, true, nil)
	}
}

var procs []int
var procAt int

// Processors makes sequential code move through the given processors, one
// per call of ProcPin.
func Processors(ids ...int) { procs, procAt = ids, 0 }

// ProcPin models runtime.procPin: threads are spread over processors.
func ProcPin() int {
	if len(procs) > 0 && X == nil {
		procAt++
		return procs[procAt%len(procs)]
	}
	return ThreadIndex()
}

// ---------------------------------------------------------------- histories

// SelectBias makes every select of this execution take its first (1) or last (2)
// ready case: scenarios with thousands of messages explore the two extremes.
func SelectBias(b int) {
	if X != nil {
		X.bias = b
	}
}

// MoreSteps moves the horizon of this execution.
func MoreSteps(n int) {
	if X != nil {
		X.more = n
	}
}

// HObj gives harness recorders real-time precedence: Invoke is a scheduling
// point, Respond is not.
func Invoke() {
	x := X
	if x == nil {
		return
	}
	if Point(KInvoke, nil, false, nil) {
		x.cur.hist = mix(x.cur.hist, x.histSum)
	}
}

// Respond marks the completion of an operation whose invocation was Invoke.
func Respond() {
	x := X
	if x == nil || x.aborting {
		return
	}
	t := x.cur
	t.nops++
	t.hist = mix(t.hist, 0xe5)
	x.histSum += mix(t.path, t.nops)
}

// Hook stores per-execution values for shims and harnesses.
func Hook(name string) any {
	if X != nil {
		for _, h := range X.hooks {
			if h.name == name {
				return h.v
			}
		}
	}
	return nil
}

type hook struct {
	name string
	v    any
}

func SetHook(name string, v any) {
	if X == nil {
		return
	}
	for i := range X.hooks {
		if X.hooks[i].name == name {
			X.hooks[i].v = v
			return
		}
	}
	X.hooks = append(X.hooks, hook{name, v})
}

// ---------------------------------------------------------------- output

// Out receives what the code under test prints.
func Out(s string) {
	if x := X; x != nil && x.out != nil && !x.aborting {
		x.out.WriteString(s)
	}
}

// CaptureOutput turns output capture on for this execution.
func CaptureOutput() {
	if X != nil {
		X.out = &strings.Builder{}
	} else {
		seqOut = &strings.Builder{}
	}
}

var seqOut *strings.Builder

// Capturing reports whether printed text is wanted.
func Capturing() bool {
	if X != nil {
		return X.out != nil
	}
	return seqOut != nil
}

// Write is used by the fmt shim.
func Write(s string) {
	if X != nil {
		Out(s)
	} else if seqOut != nil {
		seqOut.WriteString(s)
	}
}

// Captured returns the text printed since CaptureOutput.
func Captured() string {
	if X != nil {
		if X.out == nil {
			return ""
		}
		return X.out.String()
	}
	if seqOut == nil {
		return ""
	}
	return seqOut.String()
}

// ---------------------------------------------------------------- signals, exit

type sigval = any

// Exit models os.Exit / log.Fatal: the process ends here.
func Exit(code int, why string) {
	if X == nil {
		panic(fmt.Sprintf("gomc: process exit(%d) outside an execution: %s", code, why))
	}
	if X.aborting {
		X.exit(X.cur)
		return
	}
	X.exited, X.exitCode = true, code
	if f, ok := Hook("onexit").(func(int, string)); ok && f != nil {
		f(code, why)
	}
	if X.aborting {
		X.exit(X.cur)
	}
	X.over()
	X.exit(X.cur)
}

// ---------------------------------------------------------------- resets

var resets []func()

// OnReset registers a function that restores package-level variables to their
// initial values; it runs before every execution.
func OnReset(f func()) { resets = append(resets, f) }

// Unsupported is thrown by environment models for requests they do not
// model; the execution is abandoned and the exploration is not exhaustive.
type Unsupported string

// TryReset re-evaluates one initialiser; one that cannot run twice leaves the
// variable as it is.
func TryReset(f func()) {
	defer func() { _ = recover() }()
	f()
}

// ResetGlobals runs the registered resets (harnesses in sequential mode).
func ResetGlobals() {
	epoch++
	for _, f := range resets {
		f()
	}
}
