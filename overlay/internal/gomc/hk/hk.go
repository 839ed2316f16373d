// Package hk is the harness kit: it drives the scenarios of one property.
package hk

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"vsa/internal/gomc/rt"
)

// Check describes the machinery of one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Jobs        func(tier string) []Job
	NoPlain     bool // derive no variants with plain accesses as scheduling points
}

// Job is one scenario: either a controlled concurrent program (Body) or a
// sequential exhaustive enumeration (Seq).
type Job struct {
	Name   string
	Weight int
	Bounds []rt.Budget
	Body   func()
	Seq    func(*Seq)
	Race   bool // run in the race-detector build
	Plain  bool // plain memory accesses of the code under test are scheduling points, too
	Only   bool // no variant with plain accesses is derived
}

// derive adds, for every concurrent scenario, a variant in which plain memory
// accesses are scheduling points as well.
func derive(jobs []Job, tier string) []Job {
	out := jobs
	for _, j := range jobs {
		if j.Body == nil || j.Race || j.Plain || j.Only || len(j.Bounds) == 0 {
			continue
		}
		b := j.Bounds[0]
		for _, c := range j.Bounds {
			if c.P <= 1 {
				b = c
			}
		}
		if l := j.Bounds[len(j.Bounds)-1]; l.P == 0 && l.T == 0 {
			continue // an enumeration of operation sequences
		}
		b.P = 1
		j.Name += "~plain"
		j.Plain = true
		j.Weight -= 1000
		t := b.T
		b.T = 0
		j.Bounds = []rt.Budget{b}
		if tier == "thorough" {
			c := b
			c.P = 2
			j.Bounds = append(j.Bounds, c)
			if t > 0 {
				j.Bounds = append(j.Bounds, rt.Budget{P: 1, T: t, F: b.F})
			}
		}
		out = append(out, j)
	}
	return out
}

// OnExit, if set, removes what the harness left outside the process.
var OnExit func()

func leave() {
	rt.RaceCleanup()
	if OnExit != nil {
		OnExit()
	}
}

// P returns preemption-only bounds 0..n.
func P(n int) []rt.Budget {
	var b []rt.Budget
	for i := 0; i <= n; i++ {
		b = append(b, rt.Budget{P: i})
	}
	return b
}

// F returns fault-only bounds 1..n at p preemptions.
func F(p, n int) []rt.Budget {
	var b []rt.Budget
	for i := 1; i <= n; i++ {
		b = append(b, rt.Budget{P: p, F: i})
	}
	return b
}

// PT returns bounds growing together up to p preemptions, t timer firings and
// f faults.
func PTF(p, t, f int) []rt.Budget {
	var b []rt.Budget
	for i := 0; i <= p || i <= t; i++ {
		pp, tt, ff := i, i, f
		if pp > p {
			pp = p
		}
		if tt > t {
			tt = t
		}
		if i == 0 && f > 1 {
			ff = 1
		}
		b = append(b, rt.Budget{P: pp, T: tt, F: ff})
	}
	return b
}

type jobInfo struct {
	Name   string `json:"name"`
	Weight int    `json:"weight"`
	Race   bool   `json:"race"`
}

// Main is the entry point of every harness binary.
func Main(c Check) {
	list := flag.Bool("list", false, "")
	run := flag.String("run", "", "")
	tier := flag.String("tier", "quick", "")
	dl := flag.Float64("deadline", 30, "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	show := flag.Bool("v", false, "")
	prof := flag.String("prof", "", "")
	flag.Parse()
	runtime.GOMAXPROCS(1) // one thread runs at a time; jobs run in parallel
	debug.SetGCPercent(400)
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	rt.RaceSetup(*tier)
	defer leave()
	loadKnown(c.ID)
	if c.Level == "" {
		c.Level = "model_checking"
	}
	jobs := c.Jobs(*tier)
	if !c.NoPlain {
		jobs = derive(jobs, *tier)
	}
	if *list {
		var ji []jobInfo
		for _, j := range jobs {
			ji = append(ji, jobInfo{j.Name, j.Weight, j.Race})
		}
		b, _ := json.Marshal(map[string]any{"id": c.ID, "level": c.Level, "rule": c.Rule, "assumptions": c.Assumptions, "jobs": ji})
		os.Stdout.Write(b)
		return
	}
	if *replay != "" {
		doReplay(jobs, *replay)
		return
	}
	deadline := time.Now().Add(time.Duration(*dl * float64(time.Second)))
	bad := false
	for i := range jobs {
		j := &jobs[i]
		if *run != "" && j.Name != *run {
			continue
		}
		if *run == "" && j.Race != rt.RaceOn {
			continue
		}
		st := runOne(j, deadline, *out)
		if *out != "" {
			rt.WriteJSON(*out, st)
		} else {
			fmt.Printf("%-40s exec=%d complete=%d pruned=%d states=%d trans=%d outcomes=%d bound=%s exh=%v nondet=%d horizon=%d wall=%.2fs known=%v notes=%v\n", st.Scenario, st.Executions, st.Complete, st.Pruned, st.States, st.Transitions, st.Outcomes, st.Bound, st.Exhaustive, st.Nondet, st.Horizon, st.Wall, st.Known, st.Notes)
			if *show {
				for _, l := range st.Sample {
					fmt.Println("   ", l)
				}
			}
			if st.Violation != nil {
				bad = true
				fmt.Println("  VIOLATION:", st.Violation.Msg, st.Violation.Choices, st.Violation.Confirm)
				for _, l := range st.Violation.Trace {
					fmt.Println("   ", l)
				}
			}
		}
		if *run == "" {
			deadline = time.Now().Add(time.Duration(*dl * float64(time.Second)))
		}
	}
	if bad {
		leave()
		os.Exit(1)
	}
}

func runOne(j *Job, deadline time.Time, out string) *rt.Stats {
	knownSeen = map[string]bool{}
	onHang := func(r *rt.Report) {
		st := &rt.Stats{Scenario: j.Name, Violation: r}
		if out != "" {
			rt.WriteJSON(out, st)
		} else {
			fmt.Println("HANG", r.Msg, r.Choices)
		}
		leave()
		os.Exit(1)
	}
	var st *rt.Stats
	rt.SetFine(j.Plain)
	if j.Seq != nil {
		st = runSeq(j, deadline, onHang)
	} else {
		sc := &rt.Scenario{Name: j.Name, Body: j.Body, Bounds: j.Bounds}
		st = rt.Explore(sc, deadline, onHang)
	}
	for k := range knownSeen {
		st.Known = append(st.Known, k)
	}
	sort.Strings(st.Known)
	return st
}

func doReplay(jobs []Job, path string) {
	b, err := os.ReadFile(path)
	var r struct {
		Report rt.Report `json:"report"`
	}
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		leave()
		os.Exit(2)
	}
	for i := range jobs {
		j := &jobs[i]
		if j.Name != r.Report.Scenario {
			continue
		}
		if j.Seq != nil {
			st := runSeq(j, time.Now().Add(10*time.Minute), func(*rt.Report) {})
			if st.Violation != nil {
				fmt.Println("REPRODUCED:", st.Violation.Msg)
				leave()
				os.Exit(1)
			}
			fmt.Println("not reproduced")
			return
		}
		rt.SetFine(j.Plain)
		v, tr := rt.Replay(&rt.Scenario{Name: j.Name, Body: j.Body, Bounds: j.Bounds}, r.Report.Budget, r.Report.Choices)
		for _, l := range tr {
			fmt.Println(l)
		}
		if v != nil {
			fmt.Println("REPRODUCED:", v.Msg)
			leave()
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	}
	fmt.Println("no such scenario:", r.Report.Scenario)
}

// ---------------------------------------------------------------- sequential jobs

// Seq is the context of a sequential exhaustive enumeration.
type Seq struct {
	st         *rt.Stats
	deadline   time.Time
	seen       map[uint64]struct{}
	samples    int
	incomplete bool
	n          int64
}

type seqStop struct{ msg string }

// Case counts one enumerated case (an execution on the implementation).
func (s *Seq) Case() {
	s.st.Executions++
	s.st.Complete++
	rt.Beat()
}

// Step counts transitions (operations performed).
func (s *Seq) Step(n int) { s.st.Transitions += int64(n) }

// State counts a distinct state or outcome by hash.
func (s *Seq) State(h uint64) {
	if _, ok := s.seen[h]; !ok {
		if len(s.seen) < 4<<20 {
			s.seen[h] = struct{}{}
		}
		s.st.States++
		s.st.Outcomes++
	}
}

// Sample keeps a few written-out cases.
func (s *Seq) Sample(format string, a ...any) {
	if s.samples < 6 {
		s.samples++
		s.st.Sample = append(s.st.Sample, fmt.Sprintf(format, a...))
	}
}

// Bound names the bound explored.
func (s *Seq) Bound(format string, a ...any) { s.st.Bound = fmt.Sprintf(format, a...) }

// Over reports that the time is up; the job is then not exhaustive.
func (s *Seq) Over() bool {
	s.n++
	if s.n&31 != 0 {
		return s.incomplete
	}
	if time.Now().After(s.deadline) {
		s.incomplete = true
	}
	return s.incomplete
}

// Incomplete marks the enumeration as not exhaustive.
func (s *Seq) Incomplete(why string) {
	s.incomplete = true
	s.st.Notes = append(s.st.Notes, why)
}

// Note adds a remark to the evidence.
func (s *Seq) Note(format string, a ...any) {
	s.st.Notes = append(s.st.Notes, fmt.Sprintf(format, a...))
}

// Fail reports a violation and stops the job.
func (s *Seq) Fail(format string, a ...any) { panic(seqStop{fmt.Sprintf(format, a...)}) }

func runSeq(j *Job, deadline time.Time, onHang func(*rt.Report)) (st *rt.Stats) {
	start := time.Now()
	st = &rt.Stats{Scenario: j.Name}
	attempt := func() (msg string, failed bool, s *Seq) {
		s = &Seq{st: &rt.Stats{Scenario: j.Name}, deadline: deadline, seen: map[uint64]struct{}{}}
		stop := rt.SeqWatchdog(j.Name, onHang)
		defer stop()
		defer func() {
			if r := recover(); r != nil {
				failed = true
				switch v := r.(type) {
				case rt.Unsupported:
					failed = false
					s.Incomplete("the environment model does not support " + string(v))
				case seqStop:
					msg = v.msg
				default:
					msg = fmt.Sprintf("panic: %v\n%s", r, rt.Stack())
				}
			}
		}()
		rt.ResetGlobals()
		j.Seq(s)
		return
	}
	msg, failed, s := attempt()
	*st = *s.st
	st.Exhaustive = !s.incomplete && !failed
	if failed {
		// confirm: the enumeration is deterministic, it must fail alike again
		deadline = time.Now().Add(5 * time.Minute)
		msg2, failed2, _ := attempt()
		if failed2 {
			st.Violation = &rt.Report{Scenario: j.Name, Msg: msg, Confirm: "2/2 enumerations: " + firstLine(msg2)}
		} else {
			st.Notes = append(st.Notes, "a failure did not reproduce and is not reported: "+msg)
		}
	}
	st.Wall = time.Since(start).Seconds()
	return st
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---------------------------------------------------------------- known findings

var known = map[string]string{}
var knownSeen = map[string]bool{}

// loadKnown reads lines "known: property=<id> sig=<signature> <text>".
func loadKnown(id string) {
	path := os.Getenv("VSAMC_KNOWN")
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+id+" sig=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" sig=")
		sig, text, _ := strings.Cut(rest, " ")
		known[sig] = text
	}
}

// Known reports whether the finding with this signature is listed; if so it is
// recorded as seen.
func Known(sig string) bool {
	t, ok := known[sig]
	if ok {
		knownSeen["["+sig+"] "+t] = true
	}
	return ok
}

// Names lists names that careless code confuses: by case, white space, length,
// encoding or a 32-bit hash.
func Names() []string {
	return []string{"a", "A", "b", "aa", "a ", " a", "a+b", "a b", "a%20b", "a/b", "a&b", "a=b", "a#b", "é", "e\u0301", "\x00", "a\x00", "0", "00", "-1", "null", "?", "a,b", "a;b", "a:b", "a:", ":a",
		strings.Repeat("k", 300), strings.Repeat("k", 301), strings.Repeat("k", 300) + "l", strings.Repeat("l", 300), "key:1", "key:11", "日本", "A\u0301", "Ł", "\u0410", "a\n", "a\t", "\"a\"", "'a'", "../a", "%", "*", "{a}", "\\", "default",
		"user-120", "user-201", "user-190000", "user-1403756", "user-790763", "user-923910", "user-129599", "user-732382", "user-237081", "user-423190", "user-2536", "user-15615", "user-549599", "user-712382",
		"plumless", "buckeroo", "Aa", "BB", "costarring", "liquid"}
}
