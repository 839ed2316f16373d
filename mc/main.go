// Command vsamc instruments /repo's current working tree, builds a harness of
// one property against it and runs the harness' scenarios.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repo  = envOr("VSAMC_REPO", "/repo")
	verif = ""
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// jobInfo mirrors hk.JobInfo.
type jobInfo struct {
	Name   string `json:"name"`
	Weight int    `json:"weight"`
	Race   bool   `json:"race"`
	Share  int    `json:"share"`
}

type listing struct {
	ID          string    `json:"id"`
	Level       string    `json:"level"`
	Rule        string    `json:"rule"`
	Assumptions []string  `json:"assumptions"`
	Jobs        []jobInfo `json:"jobs"`
}

type report struct {
	Scenario string   `json:"scenario"`
	Msg      string   `json:"message"`
	Choices  []int    `json:"choices"`
	Budget   any      `json:"budget"`
	Race     bool     `json:"race,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Confirm  string   `json:"confirmed"`
}

type stats struct {
	Scenario    string   `json:"scenario"`
	Executions  int64    `json:"executions"`
	Complete    int64    `json:"complete"`
	Pruned      int64    `json:"pruned"`
	Horizon     int64    `json:"horizon"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Outcomes    int64    `json:"outcomes"`
	Bound       string   `json:"bound"`
	Exhaustive  bool     `json:"exhaustive"`
	Nondet      int64    `json:"nondeterminism"`
	Sample      []string `json:"sample,omitempty"`
	Notes       []string `json:"notes,omitempty"`
	Wall        float64  `json:"wall_s"`
	Violation   *report  `json:"violation,omitempty"`
	Known       []string `json:"known,omitempty"`
	err         string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsamc check ID tier | replay FILE | build ID OUT")
		os.Exit(2)
	}
	verif = envOr("VSAMC_VERIF", "")
	if verif == "" {
		wd, _ := os.Getwd()
		verif = wd
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "build":
		work, err := os.MkdirTemp("", "vsamc")
		if err == nil {
			_, err = build(os.Args[2], work, os.Args[3], len(os.Args) > 4)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Println(work)
	default:
		os.Exit(2)
	}
}

func harnessDir(id string) string {
	return filepath.Join(verif, "overlay/internal/gomc/h", strings.ToLower(id))
}

// build instruments the repository into work and builds the harness binary.
func build(id, work, out string, race bool) (string, error) {
	b, err := build1(id, work, out, race, false)
	if err != nil {
		// the finer instrumentation of plain accesses is optional
		if b2, err2 := build1(id, work, out, race, true); err2 == nil {
			if os.Getenv("VSAMC_DEBUG") != "" {
				fmt.Println("note: plain accesses are not instrumented:", err)
			}
			return b2, nil
		}
	}
	return b, err
}

func build1(id, work, out string, race, noFine bool) (string, error) {
	src := filepath.Join(work, "src")
	os.MkdirAll(src, 0o755)
	in, err := newInstrumenter(repo, src)
	if err != nil {
		return "", err
	}
	in.noFine = noFine
	hd := harnessDir(id)
	// a harness may live inside an instrumented main package
	hostPkg := ""
	if b, err := os.ReadFile(filepath.Join(hd, "HOST")); err == nil {
		hostPkg = strings.TrimSpace(string(b))
		in.renameMain[hostPkg] = true
	}
	plain := map[string]bool{}
	if b, err := os.ReadFile(filepath.Join(hd, "PLAIN")); err == nil {
		for _, l := range strings.Fields(string(b)) {
			plain[l] = true
		}
	}
	for p := range in.pkgs {
		if in.ours(p) && !plain[p] {
			if _, err := in.process(p); err != nil {
				return "", err
			}
		}
	}
	// virtual packages
	base := filepath.Join(verif, "overlay")
	err = filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		if strings.HasPrefix(rel, "internal/gomc/h/") {
			dir := filepath.Dir(p)
			if dir != hd {
				return nil
			}
			if hostPkg != "" {
				dst := filepath.Join(repo, strings.TrimPrefix(hostPkg, "vsa/"), "zz_gomc_"+filepath.Base(p))
				in.Replace[dst] = p
				return nil
			}
		}
		in.Replace[filepath.Join(repo, rel)] = p
		return nil
	})
	if err != nil {
		return "", err
	}
	ov := filepath.Join(work, "overlay.json")
	b, _ := json.MarshalIndent(map[string]any{"Replace": in.Replace}, "", " ")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", err
	}
	target := "vsa/internal/gomc/h/" + strings.ToLower(id)
	if hostPkg != "" {
		target = hostPkg
	}
	args := []string{"build", "-buildvcs=false", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race", "-gcflags=vsa/internal/gomc/...=-race=false", "-gcflags=vsa/internal/gomc/graw=-race=true")
	}
	if usesTryLock(repo) {
		args = append(args, "-ldflags=-X vsa/internal/gomc/gsync.tryUsed=1")
	}
	args = append(args, target)
	if _, err := runGo(repo, args...); err != nil {
		return "", err
	}
	return out, nil
}

// usesTryLock reports whether some source probes a lock without blocking (then
// releasing a lock becomes a scheduling point).
func usesTryLock(root string) bool {
	found := false
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || found {
			return nil
		}
		if fi.IsDir() {
			if n := fi.Name(); n == ".git" || n == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if b, err := os.ReadFile(p); err == nil && (bytes.Contains(b, []byte(".TryLock(")) || bytes.Contains(b, []byte(".TryRLock("))) {
				found = true
			}
		}
		return nil
	})
	return found
}

func check(id, tier string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	work, err := os.MkdirTemp("", "vsamc-"+id+"-")
	if err != nil {
		fmt.Println("internal error:", err)
		return 0
	}
	defer os.RemoveAll(work)
	// total wall budget of a check
	total := 75 * time.Second
	switch id { // whole services have the largest spaces
	case "C20":
		total = 110 * time.Second
	case "C10", "C24", "C25":
		total = 170 * time.Second
	}
	if tier == "thorough" {
		total = 13 * time.Minute
	}
	if v, err := strconv.Atoi(os.Getenv("VSAMC_BUDGET")); err == nil && v > 0 {
		total = time.Duration(v) * time.Second
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking"}
	write := func() {
		ev["wall_s"] = time.Since(start).Seconds()
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644)
	}
	bin, err := build(id, work, filepath.Join(work, "h"), false)
	if err != nil {
		// the tree does not build under instrumentation: nothing was decided
		fmt.Println("NOT-DECIDED: the harness could not be built:", err)
		ev["coverage"] = map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{"harness did not build"}, "exhaustive": false, "explanation": err.Error()}
		write()
		return 0
	}
	out, err := exec.Command(bin, "-list", "-tier", tier).Output()
	var l listing
	if err == nil {
		err = json.Unmarshal(out, &l)
	}
	if err != nil {
		fmt.Println("NOT-DECIDED: cannot list scenarios:", err)
		ev["coverage"] = map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{"no scenarios"}, "exhaustive": false}
		write()
		return 0
	}
	// race-instrumented twin, built only when some job wants it
	raceBin := ""
	for _, j := range l.Jobs {
		if j.Race {
			w2 := filepath.Join(work, "race")
			os.MkdirAll(w2, 0o755)
			if b, err := build(id, w2, filepath.Join(work, "hr"), true); err == nil {
				raceBin = b
			} else {
				fmt.Println("note: race build failed:", err)
			}
			break
		}
	}
	jobs := l.Jobs
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].Weight > jobs[b].Weight })
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	deadline := start.Add(total)
	results := make([]*stats, len(jobs))
	given := make([]time.Duration, len(jobs))
	todo := make([]int, len(jobs))
	for i := range todo {
		todo[i] = i
	}
	var mu sync.Mutex
	stop := false
	// Jobs cut off by their share get what the others left over, more than
	// they had before, until all are complete or no time is left.
	for len(todo) > 0 && !stop {
		next := 0
		var again []int
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if next >= len(todo) || stop {
						mu.Unlock()
						return
					}
					i := todo[next]
					left := len(todo) - next
					next++
					mu.Unlock()
					rem := time.Until(deadline)
					per := rem * time.Duration(workers) / time.Duration(left)
					if per > rem {
						per = rem
					}
					if given[i] > 0 && per < given[i]*3/2 {
						continue
					}
					if per < 2*time.Second {
						per = 2 * time.Second
					}
					b := bin
					if jobs[i].Race {
						b = raceBin
					}
					if b == "" {
						continue
					}
					given[i] = per
					st := runJob(b, tier, jobs[i].Name, per, filepath.Join(work, fmt.Sprintf("r%d.json", i)), jobs[i].Race)
					mu.Lock()
					if old := results[i]; old == nil || st.Violation != nil || st.err == "" && (st.Exhaustive || st.Executions >= old.Executions) {
						results[i] = st
					}
					if st.Violation != nil {
						stop = true
					}
					if !st.Exhaustive && st.Wall > 0.8*per.Seconds() {
						again = append(again, i)
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if len(again) == len(todo) || time.Until(deadline) < 3*time.Second {
			break
		}
		todo = again
	}
	return conclude(id, tier, l, jobs, results, ev, write)
}

func runJob(bin, tier, name string, per time.Duration, out string, race bool) *stats {
	cmd := exec.Command(bin, "-run", name, "-tier", tier, "-deadline", fmt.Sprintf("%.1f", per.Seconds()), "-out", out)
	cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Dir(out), "VSAMC_KNOWN="+filepath.Join(verif, "known-findings.txt"))
	var sb strings.Builder
	cmd.Stderr = &limited{b: &sb}
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return &stats{Scenario: name, err: err.Error()}
	}
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(per + 120*time.Second):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("killed after its deadline")
	}
	st := &stats{Scenario: name}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, st)
	}
	if rerr != nil {
		st.err = fmt.Sprintf("%v; stderr: %s", err, tail(sb.String(), 1500))
		st.Notes = append(st.Notes, "job gave no result: "+st.err)
	}
	return st
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func conclude(id, tier string, l listing, jobs []jobInfo, results []*stats, ev map[string]any, write func()) int {
	var states, trans, execs, outcomes, pruned int64
	exh := true
	var samples []any
	var per []any
	var vio *stats
	known := map[string]bool{}
	for i, st := range results {
		if st == nil {
			exh = false
			continue
		}
		states += st.States
		trans += st.Transitions
		execs += st.Executions
		outcomes += st.Outcomes
		pruned += st.Pruned
		if !st.Exhaustive {
			exh = false
		}
		for _, k := range st.Known {
			known[k] = true
		}
		if st.Violation != nil && vio == nil {
			vio = st
		}
		m := map[string]any{"scenario": st.Scenario, "executions": st.Executions, "states": st.States, "transitions": st.Transitions, "distinct_outcomes": st.Outcomes, "bound_completed": st.Bound, "exhaustive": st.Exhaustive, "wall_s": round(st.Wall)}
		if jobs[i].Race {
			m["race_detector"] = true
		}
		if len(st.Notes) > 0 {
			m["notes"] = st.Notes
		}
		per = append(per, m)
		if len(samples) < 3 && len(st.Sample) > 0 {
			samples = append(samples, map[string]any{"scenario": st.Scenario, "trace": st.Sample})
		}
		if st.err != "" {
			fmt.Printf("note: %s gave no result: %s\n", st.Scenario, tail(st.err, 600))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev["level"] = l.Level
	ev["coverage"] = map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": execs,
		"evaluations": execs, "distinct_nontrivial": outcomes, "pruned_executions": pruned,
		"rule": l.Rule, "samples": samples, "exhaustive": exh && vio == nil, "scenarios": per,
	}
	ev["assumptions"] = l.Assumptions
	ev["violations"] = 0
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if len(ks) > 0 {
		ev["coverage"].(map[string]any)["known_findings_seen"] = ks
	}
	fmt.Printf("%s %s: %d scenarios, %d executions on the implementation, %d states, %d transitions, exhaustive within bounds: %v\n", id, tier, len(results), execs, states, trans, exh && vio == nil)
	if vio == nil {
		write()
		return 0
	}
	ev["violations"] = 1
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	rp := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, sanitize(vio.Scenario)))
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "report": vio.Violation}, "", " ")
	os.WriteFile(rp, b, 0o644)
	fmt.Printf("scenario %s: %s\n", vio.Scenario, vio.Violation.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	write()
	return 1
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	var r struct {
		Property string `json:"property"`
		Tier     string `json:"tier"`
		Report   report `json:"report"`
	}
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	work, err := os.MkdirTemp("", "vsamc-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(work)
	bin, err := build(r.Property, work, filepath.Join(work, "h"), r.Report.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(bin, "-replay", path, "-tier", r.Tier)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	if err := cmd.Run(); err != nil {
		return 1
	}
	return 0
}
