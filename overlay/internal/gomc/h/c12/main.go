// C12: telemetry counts exactly what happened.
package main

import (
	"context"
	"fmt"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"

	"vsa"
	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/gomc/wh"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/telemetry/churn"
)

const ms = time.Millisecond

func init() {
	// expensive to collect and not under test
	prometheus.Unregister(collectors.NewGoCollector())
	prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
	os.Setenv("VSA_CHURN_LIVE", "0")
	os.Setenv("NO_COLOR", "1")
}

// metrics is one reading of the exported metrics.
type metrics struct {
	naive, rows, errs  float64
	batches, batchRows float64
	buckets            []float64 // cumulative
	wr, churn, tracked float64
}

func read() metrics {
	var m metrics
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range fs {
		x := f.GetMetric()[0]
		switch f.GetName() {
		case "vsa_naive_writes_total":
			m.naive = x.GetCounter().GetValue()
		case "vsa_commits_rows_total":
			m.rows = x.GetCounter().GetValue()
		case "vsa_commit_errors_total":
			m.errs = x.GetCounter().GetValue()
		case "vsa_rows_per_batch":
			h := x.GetHistogram()
			m.batches, m.batchRows = float64(h.GetSampleCount()), h.GetSampleSum()
			for _, b := range h.GetBucket() {
				m.buckets = append(m.buckets, float64(b.GetCumulativeCount()))
			}
		case "vsa_write_reduction_ratio":
			m.wr = x.GetGauge().GetValue()
		case "vsa_churn_ratio":
			m.churn = x.GetGauge().GetValue()
		case "vsa_keys_tracked":
			m.tracked = x.GetGauge().GetValue()
		}
	}
	return m
}

// ledger is what happened.
type ledger struct {
	base    metrics
	admits  int64
	batches []int
	errs    int64
}

func newLedger() *ledger { return &ledger{base: read()} }

type failer func(format string, a ...any)

// check compares the exported counters with what happened.
func (l *ledger) check(fail failer, what string) metrics {
	m := read()
	rows := 0
	for _, n := range l.batches {
		rows += n
	}
	if g := m.naive - l.base.naive; g != float64(l.admits) {
		fail("%s: %v admitted requests counted, there were %d", what, g, l.admits)
	}
	if g := m.rows - l.base.rows; g != float64(rows) {
		fail("%s: %v persisted rows counted, there were %d (batches %v)", what, g, rows, l.batches)
	}
	if g := m.errs - l.base.errs; g != float64(l.errs) {
		fail("%s: %v failed batches counted, there were %d", what, g, l.errs)
	}
	if g := m.batches - l.base.batches; g != float64(len(l.batches)) {
		fail("%s: %v batches observed, there were %v", what, g, l.batches)
	}
	if g := m.batchRows - l.base.batchRows; g != float64(rows) {
		fail("%s: batch sizes sum to %v, want %d", what, g, rows)
	}
	for i, b := range m.buckets {
		n := 0
		for _, s := range l.batches {
			if s <= 1<<i {
				n++
			}
		}
		if i < len(l.base.buckets) {
			b -= l.base.buckets[i]
		}
		if b != float64(n) {
			fail("%s: %v batches of at most %d rows observed, there were %d", what, b, 1<<i, n)
		}
	}
	return m
}

// ---------------------------------------------------------------- window model

type snap struct {
	at                    int64
	naive, rows, abs, net int64
}

type agg struct{ abs, net, last int64 }

// model predicts what a report shows.
type model struct {
	naive, rows, abs, net int64
	keys                  map[string]*agg
	snaps                 []snap
	window                int64
	unsampled             map[string]bool
}

func newModel(window time.Duration) *model {
	if window <= 0 {
		window = time.Minute
	}
	return &model{keys: map[string]*agg{}, window: int64(window)}
}

func (m *model) key(k string) *agg {
	if m.keys[k] == nil {
		m.keys[k] = &agg{}
	}
	return m.keys[k]
}

func (m *model) admit(k string, now int64) {
	m.naive++
	if !m.unsampled[k] {
		a := m.key(k)
		a.abs++
		a.last = now
		m.abs++
	}
}

func (m *model) commit(k string, v int64, now int64) {
	if v < 0 {
		v = -v
	}
	if v != 0 && !m.unsampled[k] {
		a := m.key(k)
		a.net += v
		a.last = now
		m.net += v
	}
}

type report struct {
	wr, churn      float64
	naive, rows    int64
	tracked        int
	top            []string // admissible top keys
	topChurn       float64
	topAbs, topNet int64
}

func max1(n int64) float64 {
	if n < 1 {
		n = 1
	}
	return float64(n)
}

func (m *model) tick(at int64) report {
	for k, a := range m.keys {
		if a.last < at-2*m.window {
			delete(m.keys, k)
		}
	}
	s := snap{at, m.naive, m.rows, m.abs, m.net}
	m.snaps = append(m.snaps, s)
	for m.snaps[0].at < at-m.window {
		m.snaps = m.snaps[1:]
	}
	o := m.snaps[0]
	r := report{naive: s.naive - o.naive, rows: s.rows - o.rows, tracked: len(m.keys)}
	r.wr = 1 - float64(r.rows)/max1(r.naive)
	r.churn = float64(s.abs-o.abs) / max1(s.net-o.net)
	for k, a := range m.keys {
		c := float64(a.abs) / max1(a.net)
		switch {
		case len(r.top) == 0 || c > r.topChurn || c == r.topChurn && a.abs > r.topAbs:
			r.top, r.topChurn, r.topAbs, r.topNet = []string{k}, c, a.abs, a.net
		case c == r.topChurn && a.abs == r.topAbs:
			r.top = append(r.top, k)
			sort.Strings(r.top)
		}
	}
	return r
}

func used(h map[string]string, s string) bool {
	for _, v := range h {
		if v == s {
			return true
		}
	}
	return false
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

var sumRE = regexp.MustCompile(`churn summary: global_churn=(\S+) write_reduction_est=(\S+) naive=(-?\d+) commits=(-?\d+) sample=(\S+) topN=(\d+)`)
var topRE = regexp.MustCompile(`top key=([0-9a-f]+) churn=(\S+) abs=(-?\d+) net=(-?\d+)`)

// compare checks gauges and printed lines of one report.
func (r report) compare(fail failer, what, out string, hash map[string]string) {
	m := read()
	eq := func(a, b float64) bool { return math.Abs(a-b) < 1e-9 }
	if !eq(m.wr, r.wr) || !eq(m.churn, r.churn) {
		fail("%s: write reduction %v and churn %v exported, the window's counts give %v and %v", what, m.wr, m.churn, r.wr, r.churn)
	}
	if int(m.tracked) != r.tracked {
		fail("%s: %v keys tracked, want %d", what, m.tracked, r.tracked)
	}
	out = ansi.ReplaceAllString(out, "")
	ss := sumRE.FindAllStringSubmatch(out, -1)
	if len(ss) != 1 {
		fail("%s: %d summaries printed by one report: %q", what, len(ss), out)
		return
	}
	s := ss[0]
	want := []string{fmt.Sprintf("%.3f", r.churn), fmt.Sprintf("%.3f", r.wr), strconv.FormatInt(r.naive, 10), strconv.FormatInt(r.rows, 10)}
	for i, w := range want {
		if s[i+1] != w {
			fail("%s: the summary %q should say %s", what, s[0], strings.Join(want, " "))
			return
		}
	}
	t := topRE.FindStringSubmatch(out)
	if len(r.top) == 0 {
		if t != nil {
			fail("%s: a top key is reported, none is tracked: %q", what, t[0])
		}
		return
	}
	if t == nil {
		fail("%s: no top key reported, want %v: %q", what, r.top, out)
		return
	}
	ok := false
	for _, k := range r.top {
		ok = ok || hash[k] == t[1] || hash[k] == "" && !used(hash, t[1])
	}
	if len(r.top) == 1 && ok {
		hash[r.top[0]] = t[1]
	}
	if !ok || t[2] != fmt.Sprintf("%.3f", r.topChurn) || t[3] != strconv.FormatInt(r.topAbs, 10) {
		fail("%s: top line %q, want key %v (%v) churn=%.3f abs=%d net=%d", what, t[0], r.top, hash, r.topChurn, r.topAbs, r.topNet)
	}
	if len(r.top) == 1 && t[4] != strconv.FormatInt(r.topNet, 10) {
		fail("%s: top line %q, want net=%d", what, t[0], r.topNet)
	}
}

// printed returns what was printed since the last call.
type tap struct{ n int }

func (t *tap) next() string {
	s := rt.Captured()
	out := s[t.n:]
	t.n = len(s)
	return out
}

// ---------------------------------------------------------------- window sequences

type winConf struct {
	name   string
	conf   churn.Config
	ops    []string
	length int
	env    map[string]string
	script []string // one fixed sequence
	rate   float64  // share of the keys sampled, all if 0
}

// marathon is one long history: n reports, many keys in a shuffled order, commits of
// growing and shrinking vectors.
func marathon(n, keys int) (ops []string) {
	for i := 0; i < n; i++ {
		for j := 0; j <= i%3; j++ {
			ops = append(ops, fmt.Sprintf("+k%d", (i*i+j*i*7)%keys))
		}
		switch i % 5 {
		case 0:
			ops = append(ops, fmt.Sprintf("Ka%db-%d", i%10, i%7))
		case 3:
			ops = append(ops, fmt.Sprintf("K%c%d", 'c'+rune(i%20), 1+i%9))
		case 4:
			ops = append(ops, "+a")
		}
		ops = append(ops, "z")
	}
	return ops
}

// crowded is a history with reports over n keys at once.
func crowded(n int) (ops []string) {
	for i := 0; i < n; i++ {
		ops = append(ops, fmt.Sprintf("+key-%d", i))
		if i&(i-1) == 0 || i&(i+1) == 0 {
			ops = append(ops, "z")
		}
	}
	return append(ops, "z", "+key-0", "+key-0", "z", "Ka3", "z", "z", "z", "+b", "z")
}

// window: all sequences of events and reports.
func window(c winConf) func() {
	hash := map[string]string{} // how keys are shown
	return func() {
		for k, v := range map[string]string{"VSA_CHURN_LIVE": "0", "NO_COLOR": "1", "TERM": ""} {
			os.Setenv(k, v)
		}
		for k, v := range c.env {
			os.Setenv(k, v)
		}
		rt.CaptureOutput()
		conf := c.conf
		conf.Enabled, conf.SampleRate = true, 1
		m := newModel(conf.Window)
		if c.rate > 0 {
			conf.SampleRate = c.rate
			m.unsampled = probe(c.rate, letters)
			rt.Sleep(3 * conf.Window)
		}
		l := newLedger()
		churn.Enable(conf)
		on := true
		idleRate := int64(conf.LogInterval)
		start := rt.NowNanos()
		rt.Sleep(ms)
		var t tap
		t.next()
		var tr []string
		rt.MoreSteps(2000 * len(c.script))
		for i := 0; i < c.length || i < len(c.script); i++ {
			var op string
			if c.script != nil {
				op = c.script[i]
				tr = []string{fmt.Sprintf("step %d of the history:", i), op}
			} else {
				op = c.ops[rt.Choose(len(c.ops), false, "event")]
				tr = append(tr, op)
			}
			what := strings.Join(tr, " ")
			now := rt.NowNanos()
			switch op[0] {
			case '+':
				churn.ObserveRequest(op[1:], true)
				if on {
					l.admits++
					m.admit(op[1:], now)
				}
			case '-':
				churn.ObserveRequest(op[1:], false)
			case 'K': // a persisted batch
				cs := parseBatch(op[1:])
				churn.ObserveBatch(len(cs))
				for _, x := range cs {
					churn.ObserveCommit(x.Key, x.Vector)
				}
				if on {
					l.batches = append(l.batches, len(cs))
					m.rows += int64(len(cs))
					for _, x := range cs {
						m.commit(x.Key, x.Vector, now)
					}
				}
			case 'E':
				churn.ObserveCommitError(1)
				if on {
					l.errs++
				}
			case 'z':
				rt.Sleep(conf.LogInterval)
				rt.Quiesce()
				out := t.next()
				if on {
					k := (rt.NowNanos() - start) / idleRate
					m.tick(start+k*idleRate).compare(rt.Fail, what, out, hash)
				} else if strings.Contains(out, "churn") {
					rt.Fail("%s: a report was printed while disabled: %q", what, out)
				}
			case 'O': // off and on again
				on = !on
				conf.Enabled = on
				churn.Enable(conf)
				start = rt.NowNanos()
				rt.Sleep(ms)
			case 'R': // reconfigure with the same settings
				if on {
					churn.Enable(conf)
					start = rt.NowNanos()
					rt.Sleep(ms)
				}
			}
			loops(what, on && conf.LogInterval > 0)
			if churn.Enabled() != on {
				rt.Fail("%s: Enabled()=%v", what, churn.Enabled())
			}
		}
		l.check(rt.Fail, strings.Join(tr, " "))
		churn.Enable(churn.Config{})
		loops("disabled at the end", false)
	}
}

var letters = strings.Split("abcdefgh", "")

// probe finds out which keys are not sampled at a rate.
func probe(rate float64, keys []string) map[string]bool {
	out := map[string]bool{}
	for _, k := range keys {
		churn.Enable(churn.Config{Enabled: true, SampleRate: rate, LogInterval: ms, Window: ms})
		rt.Sleep(time.Microsecond)
		churn.ObserveRequest(k, true)
		rt.Sleep(ms)
		rt.Quiesce()
		out[k] = read().tracked == 0
		rt.Sleep(5 * ms) // forget the key
		rt.Quiesce()
		churn.Enable(churn.Config{})
	}
	return out
}

// loops fails unless exactly one reporting loop runs (or none).
func loops(what string, on bool) {
	want := 0
	if on {
		want = 1
	}
	rt.Quiesce()
	if n := rt.LiveThreads(); n != want {
		rt.Fail("%s: %d reporting loops run, want %d: %s", what, n, want, rt.LiveNames())
	}
	if n := rt.PendingTimers(); n != want {
		rt.Fail("%s: %d timers armed, want %d", what, n, want)
	}
}

// parseBatch reads "a2b-1" style batches: letter, signed digit.
func parseBatch(s string) []core.Commit {
	var out []core.Commit
	for _, m := range regexp.MustCompile(`([a-z])(-?\d+)`).FindAllStringSubmatch(s, -1) {
		v, _ := strconv.ParseInt(m[2], 10, 64)
		out = append(out, core.Commit{Key: m[1], Vector: v})
	}
	return out
}

// ---------------------------------------------------------------- real paths

// paths: the counters over every path of the worker and the API, with storage
// failures at every point.
func paths(slow time.Duration, ops []string, length int, thr, low int64, maxAge time.Duration, enabled bool) func() {
	hash := map[string]string{}
	return func() {
		rt.CaptureOutput()
		w := wh.New(6, vsa.Options{HierarchicalGroups: 2})
		w.Faults, w.Slow = true, slow
		mux := http.NewServeMux()
		api.NewServer(w.Store, 6).RegisterRoutes(mux)
		l := newLedger()
		churn.Enable(churn.Config{Enabled: enabled, SampleRate: 1, LogInterval: time.Second + 7, Window: time.Minute})
		mod := newModel(time.Minute)
		var t tap
		wk := core.NewWorker(w.Store, w, thr, low, 10*ms, maxAge, 35*ms, 40*ms)
		wk.Start()
		rt.Sleep(ms)
		var tr []string
		get := func(p string) int {
			rec := httptest.NewRecorder()
			req := httptest.NewRequest("GET", p, nil)
			if i := strings.Index(p, "!"); i >= 0 { // a client that hangs up
				req = httptest.NewRequest("POST", p[:i], nil)
				ctx, cancel := context.WithCancel(req.Context())
				cancel()
				req = req.WithContext(ctx)
			}
			mux.ServeHTTP(rec, req)
			return rec.Code
		}
		for i := 0; i < length; i++ {
			op := ops[rt.Choose(len(ops), false, "op")]
			tr = append(tr, op)
			switch op[0] {
			case '+':
				if get("/check?api_key="+op[1:]) == 200 {
					l.admits++
					mod.admit(op[1:2], rt.NowNanos())
				}
			case '-':
				get("/release?api_key=" + op[1:])
			case '?':
				get("/check")
			case 'z':
				n, _ := strconv.Atoi(op[1:])
				rt.Sleep(time.Duration(n) * ms)
				rt.Quiesce()
			}
		}
		wk.Stop() // its last batch may fail too
		w.Faults = false
		for _, b := range w.Batches {
			if b.Failed {
				l.errs++
			} else {
				l.batches = append(l.batches, len(b.Commits))
				mod.rows += int64(len(b.Commits))
				for _, c := range b.Commits {
					mod.commit(c.Key, c.Vector, rt.NowNanos())
				}
			}
		}
		if !enabled {
			l.admits, l.errs, l.batches = 0, 0, nil
		}
		l.check(rt.Fail, strings.Join(tr, " "))
		if enabled {
			t.next()
			rt.Sleep(time.Second)
			rt.Quiesce()
			mod.tick(rt.NowNanos()).compare(rt.Fail, strings.Join(tr, " "), t.next(), hash)
		}
		churn.Enable(churn.Config{})
		w.Store.CloseAll()
	}
}

// extremes: batches of any size are counted in full, and no two keys as one.
func extremes() {
	rt.CaptureOutput()
	l := newLedger()
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1, LogInterval: 10 * ms, Window: time.Second})
	rt.Sleep(time.Microsecond)
	sizes := []int{1, 2, 3, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 2048, 4097, 65536, 100003}
	for _, n := range sizes {
		churn.ObserveBatch(n)
		l.batches = append(l.batches, n)
		l.check(rt.Fail, fmt.Sprintf("a batch of %d rows", n))
	}
	churn.ObserveBatch(0)
	names := map[string]bool{}
	for _, k := range hk.Names() {
		names[k] = true
		churn.ObserveRequest(k, true)
		l.admits++
	}
	for i := 0; i < 3000; i++ {
		k := fmt.Sprintf("user-%d", i)
		names[k] = true
		churn.ObserveRequest(k, true)
		l.admits++
	}
	rt.Sleep(10 * ms)
	rt.Quiesce()
	if m := l.check(rt.Fail, "many keys"); int(m.tracked) != len(names) {
		rt.Fail("%v keys tracked after requests for %d", m.tracked, len(names))
	}
	churn.Enable(churn.Config{})
}

// race: requests, commits and reports at the same time lose no count.
func race() {
	rt.CaptureOutput()
	l := newLedger()
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1, LogInterval: 10 * ms, Window: 40 * ms})
	rt.Sleep(11 * ms) // the first report is the baseline
	rt.Quiesce()
	progs := []string{"+a", "+a +a", "+a +b"}
	both := false
	var hs []*rt.Handle
	for i := 0; i < 2; i++ {
		prog := progs[rt.Choose(len(progs), false, "client")]
		hs = append(hs, rt.GoNamed(prog, func() {
			for _, op := range strings.Fields(prog) {
				churn.ObserveRequest(op[1:], true)
				l.admits++
				if op == "+b" {
					both = true
				}
			}
		}))
	}
	kind := rt.Choose(3, false, "other")
	hs = append(hs, rt.GoNamed("other", func() {
		switch kind {
		case 0:
			churn.ObserveBatch(2)
			churn.ObserveCommit("a", 2)
			churn.ObserveCommit("b", -1)
			l.batches = append(l.batches, 2)
		case 1:
			churn.ObserveCommitError(1)
			l.errs++
		}
	}))
	for _, h := range hs {
		h.Join()
	}
	rt.Sleep(11 * ms)
	rt.Quiesce()
	m := l.check(rt.Fail, "after concurrent traffic")
	keys := map[string]bool{"a": true}
	if kind == 0 {
		keys["b"] = true
	}
	if both {
		keys["b"] = true
	}
	if int(m.tracked) != len(keys) {
		rt.Fail("%v keys tracked after traffic on %v", m.tracked, keys)
	}
	rows := 0
	if kind == 0 {
		rows = 2
	}
	if want := 1 - float64(rows)/max1(l.admits); math.Abs(m.wr-want) > 1e-9 {
		rt.Fail("write reduction %v, want %v (%d rows, %d admitted)", m.wr, want, rows, l.admits)
	}
	net := int64(0)
	if kind == 0 {
		net = 3
	}
	if want := float64(l.admits) / max1(net); math.Abs(m.churn-want) > 1e-9 {
		rt.Fail("churn ratio %v, want %v", m.churn, want)
	}
	churn.Enable(churn.Config{})
}

// stale: a key that went idle is reported on again as soon as it is active.
func stale() {
	rt.CaptureOutput()
	var t tap
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1, LogInterval: 10 * ms, Window: 10 * ms})
	churn.ObserveRequest("a", true)
	rt.Sleep(25 * ms) // the report at 30 ms will find it idle
	kinds := rt.Choose(3, false, "event")
	abs := int64(1)
	h := rt.GoNamed("event", func() {
		rt.Sleep(5 * ms)
		switch kinds {
		case 0:
			churn.ObserveRequest("a", true)
		case 1:
			churn.ObserveCommit("a", 3)
			abs = 0
		case 2:
			churn.ObserveRequest("a", true)
			churn.ObserveRequest("a", true)
			abs = 2
		}
	})
	h.Join()
	rt.Quiesce()
	t.next()
	rt.Sleep(11 * ms)
	rt.Quiesce()
	out := t.next()
	if i := strings.LastIndex(out, "churn summary"); i >= 0 {
		out = out[i:]
	} else {
		rt.Fail("no report within the reporting interval")
	}
	if m := read(); m.tracked != 1 {
		rt.Fail("%v keys tracked right after traffic on one key", m.tracked)
	}
	s := topRE.FindStringSubmatch(out)
	if s == nil {
		rt.Fail("no top key reported right after traffic: %q", out)
		return
	}
	if n, _ := strconv.ParseInt(s[3], 10, 64); n < abs || n > abs+1 {
		rt.Fail("the active key is reported with abs=%d, its traffic was %d", n, abs)
	}
	churn.Enable(churn.Config{})
}

// ---------------------------------------------------------------- sampling

// sampledBody: whether a key is sampled shows in the tracked-key count.
func sampledBody(keys []string, rates []float64) func() {
	return func() {
		k := keys[rt.Choose(len(keys), false, "key")]
		rt.CaptureOutput()
		prev := false
		l := newLedger()
		for _, r := range rates {
			var g bool
			for round := 0; round < 2; round++ {
				churn.Enable(churn.Config{Enabled: true, SampleRate: r, LogInterval: ms, Window: ms})
				rt.Sleep(time.Microsecond)
				churn.ObserveRequest(k, true)
				churn.ObserveCommit(k, 2)
				l.admits++
				rt.Sleep(ms)
				rt.Quiesce()
				m := l.check(rt.Fail, fmt.Sprintf("rate %v", r))
				if m.tracked != 0 && m.tracked != 1 {
					rt.Fail("%v keys tracked after one request", m.tracked)
				}
				x := m.tracked == 1
				if round == 1 && x != g {
					rt.Fail("key %q is sometimes sampled at rate %v and sometimes not", k, r)
				}
				g = x
				rt.Sleep(5 * ms) // forget the key
				rt.Quiesce()
				churn.Enable(churn.Config{})
			}
			if r <= 0 && g {
				rt.Fail("key %q is sampled at rate %v", k, r)
			}
			if r >= 1 && !g {
				rt.Fail("key %q is not sampled at rate %v", k, r)
			}
			if prev && !g {
				rt.Fail("key %q is sampled at a lower rate but not at %v", k, r)
			}
			prev = g
		}
	}
}

// ---------------------------------------------------------------- reconfiguration

var confs = []churn.Config{
	{},
	{Enabled: true, SampleRate: 1},
	{Enabled: true, SampleRate: 1, LogInterval: 10 * ms},
	{Enabled: true, SampleRate: 1, LogInterval: 7 * ms, Window: 5 * ms},
	{LogInterval: 10 * ms, SampleRate: 1},
	{Enabled: true, SampleRate: 0, LogInterval: 10 * ms},
}

func reporting(c churn.Config) bool { return c.Enabled && c.LogInterval > 0 }

// reconfigure: all sequences of configurations, reports in between.
func reconfigure(length int) func() {
	return func() {
		rt.CaptureOutput()
		var t tap
		for i := 0; i < length; i++ {
			c := confs[rt.Choose(len(confs), false, "config")]
			churn.Enable(c)
			loops(fmt.Sprintf("configuration %d %+v", i, c), reporting(c))
			if churn.Enabled() != c.Enabled {
				rt.Fail("Enabled()=%v after %+v", churn.Enabled(), c)
			}
			t.next()
			rt.Sleep(time.Microsecond)
			l := newLedger()
			churn.ObserveRequest("a", true)
			churn.ObserveBatch(3)
			churn.ObserveCommitError(1)
			if c.Enabled {
				l.admits, l.errs, l.batches = 1, 1, []int{3}
			}
			l.check(rt.Fail, fmt.Sprintf("%+v", c))
			if d := rt.Choose(2, false, "wait"); d == 1 {
				rt.Sleep(22 * ms)
				rt.Quiesce()
				want := 0
				if reporting(c) {
					want = int(22 * ms / c.LogInterval)
				}
				if n := strings.Count(t.next(), "churn summary"); n != want {
					rt.Fail("%d reports in 22 ms under %+v, want %d", n, c, want)
				}
			}
		}
		churn.Enable(churn.Config{})
		loops("disabled at the end", false)
	}
}

// together: two goroutines reconfigure at the same time, possibly while a
// report is being made; one of the two configurations must be in force.
func together() {
	rt.CaptureOutput()
	first := confs[[]int{0, 2}[rt.Choose(2, false, "before")]]
	churn.Enable(first)
	if reporting(first) {
		rt.Sleep(10*ms - time.Microsecond)
	}
	pick := []churn.Config{confs[0], confs[1], confs[2], confs[3]}
	i := rt.Choose(len(pick), false, "one")
	j := i + rt.Choose(len(pick)-i, false, "other")
	a := rt.GoNamed("enable", func() { churn.Enable(pick[i]) })
	b := rt.GoNamed("enable", func() { churn.Enable(pick[j]) })
	a.Join()
	b.Join()
	rt.Quiesce()
	n := rt.LiveThreads()
	en := churn.Enabled()
	match := false
	for _, c := range []churn.Config{pick[i], pick[j]} {
		if c.Enabled == en && (n == 1) == reporting(c) {
			match = true
		}
	}
	if n > 1 || !match {
		rt.Fail("two concurrent configurations %+v and %+v left enabled=%v and %d reporting loops", pick[i], pick[j], en, n)
	}
	if m := rt.PendingTimers(); m != n {
		rt.Fail("%d reporting loops, %d timers", n, m)
	}
	churn.Enable(churn.Config{})
	loops("disabled at the end", false)
}

// endpoint: the standalone metrics endpoint may be configured repeatedly.
func endpoint() {
	rt.CaptureOutput()
	for i := 0; i < 2; i++ {
		churn.Enable(churn.Config{Enabled: true, SampleRate: 1, MetricsAddr: ":9"})
		ghttp.WaitListening(":9")
		rt.Quiesce()
		l := newLedger()
		churn.ObserveRequest("a", true)
		l.admits = 1
		l.check(rt.Fail, "with an endpoint")
		rec := ghttp.Do(":9", "GET", "/metrics")
		if rec == nil || rec.Code != 200 {
			rt.Fail("the metrics endpoint does not answer: %v", rec)
			return
		}
		want := fmt.Sprintf("\nvsa_naive_writes_total %v\n", read().naive)
		if !strings.Contains("\n"+rec.Body.String(), want) {
			rt.Fail("the metrics endpoint does not show %q", want)
		}
		if n := ghttp.Servers(); n != 1 {
			rt.Fail("%d metrics servers run", n)
		}
	}
	churn.Enable(churn.Config{})
}

// ---------------------------------------------------------------- final summary

// summary: sequences of events and batches against the demo storage, then the
// final summary.
func summary(length int) func(*hk.Seq) {
	ops := []string{"attempt", "admit", "refund", "attempt3", "admit2", "zero", "batch1", "batch3", "batch0", "negative"}
	return func(q *hk.Seq) {
		q.Bound("all sequences of %d events over %v", length, ops)
		idx := make([]int, length)
		for {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			rt.ResetGlobals()
			rt.CaptureOutput()
			p := core.NewMockPersister()
			var att, adm, ref, rows, bat int64
			var tr []string
			for _, i := range idx {
				tr = append(tr, ops[i])
				switch ops[i] {
				case "attempt":
					core.RecordAttempt(1)
					att++
				case "attempt3":
					core.RecordAttempt(3)
					att += 3
				case "admit":
					core.RecordAdmit(1)
					adm++
				case "admit2":
					core.RecordAdmit(2)
					adm += 2
				case "refund":
					core.RecordRefund(1)
					ref++
				case "zero":
					core.RecordAdmit(0)
					core.RecordAttempt(0)
					core.RecordRefund(0)
					core.RecordRefund(-1)
				case "batch1":
					p.CommitBatch([]core.Commit{{Key: "a", Vector: 5}})
					rows, bat = rows+1, bat+1
				case "batch3":
					p.CommitBatch([]core.Commit{{Key: "a", Vector: 5}, {Key: "b", Vector: -5}, {Key: "a", Vector: 1}})
					rows, bat = rows+3, bat+1
				case "batch0":
					p.CommitBatch(nil)
				case "negative":
					p.CommitBatch([]core.Commit{{Key: "n", Vector: -2}, {Key: "o", Vector: 0}})
					rows, bat = rows+2, bat+1
				}
			}
			printed := rt.Captured()
			if n := strings.Count(printed, "- KEY:"); int64(n) != rows {
				q.Fail("%v: %d rows printed, %d persisted", tr, n, rows)
			}
			finalSummary(q.Fail, p, strings.Join(tr, " "), att, adm, ref, rows, bat)
			q.Case()
			q.Step(length)
			q.State(rt.Mix(rt.Mix(uint64(att), uint64(adm)), rt.Mix(rt.Mix(uint64(ref), uint64(rows)), uint64(bat))))
			j := length - 1
			for j >= 0 {
				idx[j]++
				if idx[j] < len(ops) {
					break
				}
				idx[j] = 0
				j--
			}
			if j < 0 {
				return
			}
		}
	}
}

func finalSummary(fail failer, p core.Persister, what string, att, adm, ref, rows, bat int64) {
	at := len(rt.Captured())
	p.PrintFinalMetrics()
	out := rt.Captured()[at:]
	got := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 {
			k := strings.Join(f[:len(f)-1], " ")
			if _, ok := got[k]; !ok {
				got[k] = f[len(f)-1]
			}
		}
	}
	wr := "n/a"
	if adm+ref > 0 {
		x := 1 - float64(rows)/float64(adm+ref)
		x = math.Max(0, math.Min(1, x))
		wr = fmt.Sprintf("%.1f%%", x*100)
	}
	d := func(n int64) string { return strconv.FormatInt(n, 10) }
	for k, v := range map[string]string{"Attempted": d(att), "Admits": d(adm), "Refunds": d(ref), "Events (A+R)": d(adm + ref), "Writes": d(rows), "Batches": d(bat), "Write reduction": wr} {
		if got[k] != v {
			fail("%s: the final summary says %s=%q, want %s\n%s", what, k, got[k], v, out)
		}
	}
}

// thresholds: the summary shows each configured threshold with its last value.
func thresholds(q *hk.Seq) {
	q.Bound("all subsets of 4 thresholds, set once or twice")
	names := []string{"commit_threshold", "rate_limit", "a", "z z"}
	for mask := 0; mask < 81; mask++ {
		rt.ResetGlobals()
		rt.CaptureOutput()
		want := map[string]string{}
		x := mask
		for i, n := range names {
			d := x % 3
			x /= 3
			for j := 0; j < d; j++ {
				switch i {
				case 0:
					core.SetThresholdInt64(n, int64(10+j))
					want[n] = strconv.Itoa(10 + j)
				case 1:
					core.SetThresholdDuration(n, time.Duration(j+1)*time.Second)
					want[n] = (time.Duration(j+1) * time.Second).String()
				case 2:
					core.SetThresholdBool(n, j == 0)
					want[n] = strconv.FormatBool(j == 0)
				case 3:
					core.SetThresholdFloat64(n, 0.5+float64(j))
					want[n] = fmt.Sprintf("%g", 0.5+float64(j))
				}
			}
		}
		core.NewMockPersister().PrintFinalMetrics()
		seen := map[string]string{}
		for _, l := range strings.Split(rt.Captured(), "\n") {
			f := strings.Fields(l)
			if len(f) >= 2 {
				for _, n := range names {
					if strings.Join(f[:len(f)-1], " ") == n {
						seen[n] = f[len(f)-1]
					}
				}
			}
		}
		if fmt.Sprint(seen) != fmt.Sprint(want) {
			q.Fail("thresholds shown %v, configured %v", seen, want)
		}
		q.Case()
		q.State(uint64(mask))
	}
}

// summaryRace: concurrent requests and batches, then the summary.
func summaryRace() {
	rt.CaptureOutput()
	st := core.NewStoreWithOptions(2, vsa.Options{HierarchicalGroups: 2})
	mux := http.NewServeMux()
	api.NewServer(st, 2).RegisterRoutes(mux)
	p := core.NewMockPersister()
	var att, adm, ref, rows, bat int64
	progs := []string{"+", "+ +", "+ -", "-"}
	var hs []*rt.Handle
	for i := 0; i < 2; i++ {
		prog := progs[rt.Choose(len(progs), false, "client")]
		method := []string{"GET", "DELETE"}[i]
		hs = append(hs, rt.GoNamed(prog, func() {
			for _, op := range strings.Fields(prog) {
				rec := httptest.NewRecorder()
				path := map[string]string{"+": "/check", "-": "/release"}[op]
				mux.ServeHTTP(rec, httptest.NewRequest(method, path+"?api_key=a", nil))
				if op == "+" {
					att++
				}
				if rec.Code == 200 {
					adm++
				}
			}
		}))
	}
	for i := 0; i < 2; i++ {
		n := 1 + i
		hs = append(hs, rt.GoNamed("batch", func() {
			cs := make([]core.Commit, n)
			for j := range cs {
				cs[j] = core.Commit{Key: "a", Vector: 1}
			}
			p.CommitBatch(cs)
			rows += int64(n)
			bat++
		}))
	}
	for _, h := range hs {
		h.Join()
	}
	_, v := st.GetOrCreate("a").State()
	ref = adm - v // every effective release took one unit back
	finalSummary(rt.Fail, p, "concurrent traffic", att, adm, ref, rows, bat)
}

func jobs(tier string) []hk.Job {
	n := 5
	deep := 1
	if tier == "thorough" {
		n, deep = 6, 2
	}
	var keys []string
	for i := 0; i < 40; i++ {
		keys = append(keys, fmt.Sprintf("key-%d", i))
	}
	keys = append(keys, "a", " ", "\x00", "é", strings.Repeat("x", 500), "tenant:1", "tenant:2")
	rates := []float64{-1, 0, 5e-324, 1e-20, 1e-9, 0.001, 0.01, 0.1, 0.25, 1.0 / 3, 0.5, 0.5000000001, 0.75, 0.9, 0.99, math.Nextafter(1, 0), 1, 100}
	js := []hk.Job{
		{Name: "window", Weight: 6, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 20 * ms, TopN: 3}, length: n, ops: []string{"+a", "+b", "Ka2", "Kb-1a3", "z"}})},
		{Name: "window-boundary", Weight: 6, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 10 * ms, TopN: 1}, length: n + 2, ops: []string{"+a", "Ka1b1", "z"}})},
		{Name: "window-default", Weight: 3, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 35 * time.Second}, length: n + 1, ops: []string{"+a", "Kb2", "z"}})},
		{Name: "window-small", Weight: 3, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 3 * ms, KeyHashLen: 16}, length: n, ops: []string{"+a", "-a", "Ka0", "E", "z"}})},
		{Name: "switching", Weight: 6, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 30 * ms}, length: n + 1, ops: []string{"+a", "Ka1", "z", "O", "R"}})},
		{Name: "live", Weight: 2, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 20 * ms}, length: n, ops: []string{"+a", "Kb3", "z"}, env: map[string]string{"VSA_CHURN_LIVE": "", "NO_COLOR": "", "TERM": "xterm-256color"}})},
		{Name: "simple", Weight: 2, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 20 * ms}, length: n, ops: []string{"+a", "Kb3", "z"}, env: map[string]string{"VSA_CHURN_LIVE": "1", "NO_COLOR": "1", "TERM": ""}})},
		{Name: "sampled", Weight: 4, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10 * ms, Window: 20 * ms, TopN: 3}, rate: 0.5, length: n, ops: []string{"+a", "+b", "+d", "Ka2b1c3d4", "z"}})},
		{Name: "marathon", Weight: 2, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10*ms + 7, Window: 3 * time.Second, TopN: 5}, script: marathon(1500, 53)})},
		{Name: "marathon-narrow", Weight: 2, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10*ms + 7, Window: 55 * ms, TopN: 1}, script: marathon(700, 701)})},
		{Name: "crowded", Weight: 2, Bounds: hk.P(0), Body: window(winConf{conf: churn.Config{LogInterval: 10*ms + 7, Window: 55 * ms, TopN: 3}, script: crowded(2050)})},
		{Name: "paths", Weight: 8, Bounds: []rt.Budget{{F: 1}, {F: 2}}, Body: paths(0, []string{"+a", "+b", "z10", "z42", "-a"}, n-1, 2, 0, 0, true)},
		{Name: "paths-max-age", Weight: 8, Bounds: []rt.Budget{{F: 2}}, Body: paths(0, []string{"+a", "+b", "z10", "z42", "?"}, n-1, 9, 0, 8*ms, true)},
		{Name: "paths-evict", Weight: 4, Bounds: []rt.Budget{{F: 1}}, Body: paths(0, []string{"+a", "-a", "z10", "z80"}, n, 2, 0, 0, true)},
		{Name: "paths-slow", Weight: 4, Bounds: []rt.Budget{{F: 1}}, Body: paths(3*ms, []string{"+a", "-a", "z10", "z44"}, n+1, 2, 0, 0, true)},
		{Name: "paths-gone", Weight: 4, Bounds: []rt.Budget{{F: 1}}, Body: paths(0, []string{"+a!", "-a!", "+a", "z10"}, n, 2, 0, 5*ms, true)},
		{Name: "extremes", Weight: 2, Bounds: hk.P(0), Body: extremes},
		{Name: "paths-disabled", Weight: 4, Bounds: []rt.Budget{{F: 1}}, Body: paths(0, []string{"+a", "+b", "z10", "z42"}, n-1, 1, 0, 0, false)},
		{Name: "race", Weight: 9, Bounds: append(hk.P(deep), rt.Budget{P: deep - 1, T: 1}), Body: race},
		{Name: "stale", Weight: 5, Bounds: hk.PTF(deep+2, 1, 0), Body: stale},
		{Name: "sampling", Weight: 4, Bounds: hk.P(0), Body: sampledBody(keys, rates)},
		{Name: "reconfigure", Weight: 4, Bounds: hk.P(0), Body: reconfigure(3)},
		{Name: "together", Weight: 7, Bounds: append(hk.P(deep+1), rt.Budget{P: deep + 1, T: 1}), Body: together},
		{Name: "endpoint", Weight: 1, Bounds: hk.P(0), Body: endpoint},
		{Name: "summary", Weight: 4, Seq: summary(n - 1)},
		{Name: "thresholds", Weight: 1, Seq: thresholds},
		{Name: "summary-race", Weight: 6, Bounds: hk.P(deep), Body: summaryRace},
	}
	return js
}

func main() {
	hk.Main(hk.Check{ID: "C12",
		Rule:        "an execution is one sequence or schedule of telemetry events and reports; every exported counter, gauge and printed line is compared with a ledger of what happened",
		Assumptions: []string{"sequentially consistent atomics", "the Prometheus client library is correct", "virtual clock: a report takes no time"},
		Jobs:        jobs})
}
