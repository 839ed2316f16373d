// C26: the rate-limiter service does what its flags say.
package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/collectors"

	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/telemetry/churn"
)

const gxMs = time.Millisecond

func init() {
	prometheus.Unregister(collectors.NewGoCollector())
	prometheus.Unregister(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{}))
}

// gxConf is what the flags say; values that are not given have the documented
// default.
type gxConf struct {
	limit, thr, low                  int64
	commit, maxAge, evAge, evictTick time.Duration
	addr                             string
	args                             []string
}

func gxDefaults() gxConf {
	return gxConf{limit: 1000, thr: 50, commit: 100 * gxMs, evAge: time.Hour, evictTick: 10 * time.Minute, addr: ":8080"}
}

type gxKey struct {
	rem, left int64 // pending, available
	last      time.Duration
}

// gxWorld is one run of the service and the model of it.
type gxWorld struct {
	c     gxConf
	main  *rt.Handle
	ended bool
	seen  int
	out   string
	keys  map[string]*gxKey
	now   time.Duration // modelled up to here
	start time.Duration
	tr    []string
}

func (w *gxWorld) bad(format string, a ...any) {
	rt.Fail("%s (flags %v; %s)", fmt.Sprintf(format, a...), w.c.args, strings.Join(w.tr, " "))
}

func gxStart(c gxConf) *gxWorld {
	rt.CaptureOutput()
	for k, v := range map[string]string{"VSA_CHURN_LIVE": "0", "NO_COLOR": "1", "TERM": ""} {
		os.Setenv(k, v)
	}
	flag.CommandLine = flag.NewFlagSet("ratelimiter-api", flag.PanicOnError)
	os.Args = append([]string{"ratelimiter-api"}, c.args...)
	w := &gxWorld{c: c, keys: map[string]*gxKey{}}
	rt.SetHook("onexit", func(code int, why string) {
		rt.Fail("the process ended with status %d: %s (flags %v)", code, why, c.args)
	})
	w.start = time.Duration(rt.NowNanos())
	w.main = rt.GoNamed("service", func() {
		gomcUserMain()
		w.out = rt.Captured()
		w.ended = true
	})
	rt.Quiesce()
	return w
}

func (w *gxWorld) clock() time.Duration { return time.Duration(rt.NowNanos()) - w.start }

func (w *gxWorld) key(k string) *gxKey {
	if w.keys[k] == nil {
		w.keys[k] = &gxKey{left: w.c.limit}
	}
	return w.keys[k]
}

// check sends one request to be admitted and judges the answer.
func (w *gxWorld) check(k string) {
	rec := ghttp.Do(w.c.addr, "GET", "/check?api_key="+k)
	if rec == nil {
		w.bad("nobody listens on %s", w.c.addr)
		return
	}
	x := w.key(k)
	x.last = w.clock()
	code := 429
	if x.left > 0 {
		x.left--
		x.rem++
		code = 200
	}
	if rec.Code != code {
		w.bad("check answered %d, want %d", rec.Code, code)
	}
	d := func(n int64) string { return strconv.FormatInt(n, 10) }
	if l, r := rec.Header().Get("X-RateLimit-Limit"), rec.Header().Get("X-RateLimit-Remaining"); l != d(w.c.limit) || r != d(x.left) {
		w.bad("check answered limit %s and remaining %s, want %d and %d", l, r, w.c.limit, x.left)
	}
}

func (w *gxWorld) release(k string) {
	rec := ghttp.Do(w.c.addr, "GET", "/release?api_key="+k)
	if rec == nil {
		w.bad("nobody listens on %s", w.c.addr)
		return
	}
	x := w.key(k)
	x.last = w.clock()
	if x.rem > 0 {
		x.rem--
		x.left++
	}
}

var gxRow = regexp.MustCompile(`- KEY: +(\S+) +VECTOR: +(-?\d+)`)

// news lists what was persisted since the last call.
func (w *gxWorld) news() []string {
	s := rt.Captured()
	var out []string
	for _, m := range gxRow.FindAllStringSubmatch(s[w.seen:], -1) {
		out = append(out, m[1]+":"+m[2])
	}
	w.seen = len(s)
	sort.Strings(out)
	return out
}

// advance lets time pass and compares what was persisted.
func (w *gxWorld) advance(d time.Duration) {
	rt.Sleep(d)
	rt.Quiesce()
	to := w.clock()
	want := []string{}
	for w.now < to {
		nc := (w.now/w.c.commit + 1) * w.c.commit
		ne := (w.now/w.c.evictTick + 1) * w.c.evictTick
		at := min(nc, ne)
		if at > to {
			break
		}
		w.now = at
		for k, x := range w.keys {
			if at == nc && x.rem != 0 && (x.rem >= w.c.thr || w.c.maxAge > 0 && at-x.last >= w.c.maxAge) {
				want = append(want, fmt.Sprintf("%s:%d", k, x.rem))
				x.rem = 0
			}
			if at == ne && at-x.last > w.c.evAge {
				if x.rem != 0 {
					want = append(want, fmt.Sprintf("%s:%d", k, x.rem))
				}
				delete(w.keys, k)
			}
		}
	}
	w.now = to
	sort.Strings(want)
	if got := w.news(); strings.Join(got, " ") != strings.Join(want, " ") {
		w.bad("until %v, %v were persisted, the configuration says %v", to, got, want)
	}
}

// stop ends the service and returns the rows of its summary.
func (w *gxWorld) stop() map[string]string {
	if !ghttp.Raise(syscall.SIGTERM) {
		w.bad("no signal handler")
	}
	w.main.Join()
	want := []string{}
	for k, x := range w.keys {
		if x.rem != 0 {
			want = append(want, fmt.Sprintf("%s:%d", k, x.rem))
		}
	}
	sort.Strings(want)
	if got := w.news(); strings.Join(got, " ") != strings.Join(want, " ") {
		w.bad("at the end %v were persisted, %v were pending", got, want)
	}
	rows := map[string]string{}
	final := false
	for _, l := range strings.Split(w.out, "\n") {
		f := strings.Fields(l)
		final = final || strings.Contains(l, "Final persistence metrics")
		if final && len(f) >= 2 {
			if k := strings.Join(f[:len(f)-1], " "); rows[k] == "" {
				rows[k] = f[len(f)-1]
			}
		}
	}
	ghttp.Down()
	churn.Enable(churn.Config{})
	return rows
}

func (w *gxWorld) do(op string) {
	w.tr = append(w.tr, op)
	switch op[0] {
	case '+':
		n := 1
		if len(op) > 2 {
			n, _ = strconv.Atoi(op[2:])
		}
		for i := 0; i < n; i++ {
			w.check(op[1:2])
		}
	case '-':
		w.release(op[1:])
	case 'z':
		d, _ := time.ParseDuration(op[1:])
		w.advance(d)
	}
}

// engines are options that must not show.
var gxEngines = [][]string{nil, {"-vsa_stripes=32"}, {"-vsa_cheap_update_chooser"}, {"-vsa_per_p_update_chooser"}, {"-vsa_group_count=4"}, {"-vsa_hierarchical_groups=4"}, {"-vsa_fast_path_guard=1"}, {"-vsa_group_count=2", "-vsa_group_slack=0", "-vsa_stripes=8"}}

// policy: all combinations of values and all histories of a length.
func gxPolicy(maxAge time.Duration, ops []string, length int, engines [][]string) func() {
	return func() {
		c := gxDefaults()
		i64 := func(to *int64, name string, vals ...int64) {
			if i := rt.Choose(len(vals)+1, false, name); i > 0 {
				*to = vals[i-1]
				c.args = append(c.args, fmt.Sprintf("-%s=%d", name, *to))
			}
		}
		dur := func(to *time.Duration, name string, vals ...time.Duration) {
			if i := rt.Choose(len(vals)+1, false, name); i > 0 {
				*to = vals[i-1]
				c.args = append(c.args, fmt.Sprintf("-%s=%v", name, *to))
			}
		}
		i64(&c.limit, "rate_limit", 2)
		i64(&c.thr, "commit_threshold", 1, 3)
		dur(&c.commit, "commit_interval", 10*gxMs)
		dur(&c.maxAge, "commit_max_age", maxAge)
		dur(&c.evAge, "eviction_age", 25*gxMs)
		dur(&c.evictTick, "eviction_interval", 33*gxMs)
		if len(engines) == 1 {
			c.args = append(c.args, engines[0]...)
		} else {
			c.args = append(c.args, engines[rt.Choose(len(engines), false, "engine")]...)
		}
		w := gxStart(c)
		w.do("z500us") // never at the same time as a tick
		for i := 0; i < length; i++ {
			w.do(ops[rt.Choose(len(ops), false, "op")])
		}
		w.stop()
	}
}

// engine options, one fixed configuration.
func gxEngine(ops []string, length int) func() {
	return func() {
		c := gxDefaults()
		c.limit, c.thr, c.commit = 3, 2, 10*gxMs
		c.args = append([]string{"-rate_limit=3", "-commit_threshold=2", "-commit_interval=10ms"}, gxEngines[rt.Choose(len(gxEngines), false, "engine")]...)
		w := gxStart(c)
		w.do("z500us")
		for i := 0; i < length; i++ {
			w.do(ops[rt.Choose(len(ops), false, "op")])
		}
		w.stop()
	}
}

// defaults: the documented defaults, each shown by a history.
func gxDefault() {
	scripts := []struct {
		args string
		set  func(*gxConf)
		ops  string
	}{
		{"", func(*gxConf) {}, "z500us +a49 z150ms +a z49ms z2ms +a51 +b z99ms z2ms z1s"},
		{"", func(*gxConf) {}, "+a999 +a +a +a z90ms z20ms +b1002"},
		{"", func(*gxConf) {}, "z500us +a49 z3s -a z1s"},
		{"-commit_interval=7m", func(c *gxConf) { c.commit = 7 * time.Minute }, "z10s +a3 +b60 z5m z110s z59m z10m z50s z10s z1h +a z10s"},
		{"-commit_interval=7m -eviction_interval=1m", func(c *gxConf) { c.commit, c.evictTick = 7*time.Minute, time.Minute }, "z10s +a3 z59m z30s z29s z2m z10s +a z10s"},
		{"-commit_interval=7m -eviction_age=1m", func(c *gxConf) { c.commit, c.evAge = 7*time.Minute, time.Minute }, "z10s +a3 z9m z49s z20s +a3 z8m +b z1m z2m z10m"},
	}
	s := scripts[rt.Choose(len(scripts), false, "script")]
	c := gxDefaults()
	c.args = strings.Fields(s.args)
	s.set(&c)
	rt.MoreSteps(200000)
	w := gxStart(c)
	for _, op := range strings.Fields(s.ops) {
		w.do(op)
	}
	w.stop()
}

// address: the service listens where it is told, and nowhere else.
func gxAddress() {
	c := gxDefaults()
	if i := rt.Choose(3, false, "address"); i > 0 {
		c.addr = []string{":8081", "127.0.0.1:7000"}[i-1]
		c.args = append(c.args, "-http_addr="+c.addr)
	}
	metrics, enabled := "", rt.Choose(2, false, "churn") == 1
	if rt.Choose(2, false, "metrics") == 1 {
		metrics = ":9100"
		c.args = append(c.args, "-metrics_addr="+metrics)
	}
	if enabled {
		c.args = append(c.args, "-churn_metrics")
	}
	w := gxStart(c)
	want := 1
	if metrics != "" {
		want++
		if rec := ghttp.Do(metrics, "GET", "/metrics"); rec == nil || rec.Code != 200 || !strings.Contains(rec.Body.String(), "vsa_naive_writes_total") {
			w.bad("no metrics on %s: %v", metrics, rec)
		}
	}
	if n := ghttp.Servers(); n != want {
		w.bad("%d addresses are listened on, want %d", n, want)
	}
	w.do("z1ms")
	base := gxNaive()
	w.do("+a")
	if n := gxNaive() - base; (n == 1) != enabled || !enabled && n != 0 {
		w.bad("telemetry counts %v requests, it was given 1", n)
	}
	w.stop()
}

func gxNaive() float64 {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range fs {
		if f.GetName() == "vsa_naive_writes_total" {
			return f.GetMetric()[0].GetCounter().GetValue()
		}
	}
	return -1
}

var gxTop = regexp.MustCompile(`top key=([0-9a-f]+) `)
var gxSum = regexp.MustCompile(`churn summary: .* naive=(\d+) .* sample=(\S+) topN=(\d+)`)

// telemetry: off by default; on, it reports as configured.
func gxTelemetry() {
	c := gxDefaults()
	every, rate, top, hash := 15*time.Second, 1.0, 50, 8
	enabled := rt.Choose(2, false, "enabled") == 1
	if enabled {
		c.args = append(c.args, "-churn_metrics=true")
	}
	if i := rt.Choose(3, false, "interval"); i > 0 {
		every = []time.Duration{5 * time.Second, 0}[i-1]
		c.args = append(c.args, fmt.Sprintf("-churn_log_interval=%v", every))
	}
	if i := rt.Choose(2, false, "sample"); i > 0 {
		rate = 0
		c.args = append(c.args, "-churn_sample=0")
	}
	if i := rt.Choose(2, false, "top"); i > 0 {
		top = 7
		c.args = append(c.args, "-churn_top_n=7")
	}
	if i := rt.Choose(2, false, "hash"); i > 0 {
		hash = 12
		c.args = append(c.args, "-churn_key_hash_len=12")
	}
	c.args = append(c.args, "-commit_interval=10s")
	base := gxNaive()
	w := gxStart(c)
	// the first report is the baseline of the window
	from := len(rt.Captured())
	rt.Sleep(16 * time.Second)
	w.now = w.clock()
	for i := 0; i < 4; i++ {
		w.do("+a")
	}
	rt.Sleep(16 * time.Second)
	rt.Quiesce()
	out := rt.Captured()[from:]
	n, want := 0.0, 0
	if enabled {
		n = 4
		if every > 0 {
			want = int(32 * time.Second / every)
		}
	}
	if g := gxNaive() - base; g != n {
		w.bad("%v admitted requests counted, want %v", g, n)
	}
	sums := gxSum.FindAllStringSubmatch(out, -1)
	if len(sums) != want {
		w.bad("%d reports in 32 s, want %d", len(sums), want)
	} else if want > 0 {
		s := sums[want-1]
		if s[1] != "4" || s[2] != fmt.Sprintf("%.2f", rate) || s[3] != strconv.Itoa(top) {
			w.bad("the report says %q, want naive=4 sample=%v topN=%d", s[0], rate, top)
		}
		t := gxTop.FindStringSubmatch(out)
		if (t != nil) != (rate > 0) || t != nil && len(t[1]) != hash {
			w.bad("the report names the top key %v, want %d digits if sampling at all (%v)", t, hash, rate)
		}
	}
	w.stop()
}

// flags: the summary lists every configured value.
func gxSummary() {
	vals := [][]string{
		{"rate_limit", "1000", "7", "1099511627776"}, {"commit_threshold", "50", "3", "1"}, {"commit_low_watermark", "0", "2", "49"},
		{"commit_interval", "100ms", "20ms", "1m0s"}, {"commit_max_age", "0s", "5s", "1h0m0s"}, {"eviction_age", "1h0m0s", "90s", "2ms"},
		{"eviction_interval", "10m0s", "1s", "3h0m0s"}, {"http_addr", ":8080", ":1", "127.0.0.1:2"}, {"churn_metrics", "false", "true", "true"},
		{"metrics_addr", "", ":3", ":4"}, {"churn_sample", "1", "0.25", "0"}, {"churn_log_interval", "15s", "1s", "0s"},
		{"churn_top_n", "50", "1", "99"}, {"churn_key_hash_len", "8", "2", "16"},
	}
	i := rt.Choose(len(vals)+3, false, "flag")
	k := rt.Choose(3, false, "value")
	c := gxDefaults()
	for j, v := range vals {
		n := 0
		if j == i || i == len(vals) || i == len(vals)+1 && j%2 == 0 || i == len(vals)+2 && j%3 == 0 {
			n = k
		}
		if n > 0 {
			c.args = append(c.args, fmt.Sprintf("-%s=%s", v[0], v[n+1]))
		}
		if v[0] == "http_addr" {
			c.addr = v[n+1]
		}
		vals[j] = []string{v[0], v[n+1]}
	}
	w := gxStart(c)
	rows := w.stop()
	for _, v := range vals {
		want := v[1]
		if d, err := time.ParseDuration(want); err == nil && d > 0 {
			want = d.String()
		}
		if want != "" && rows[v[0]] != want {
			w.bad("the final summary shows %s=%q, it is %q", v[0], rows[v[0]], want)
		}
	}
}

func main() {
	hk.Main(hk.Check{ID: "C26",
		Rule:        "an execution is one combination of flags and one history of requests and time; every answer, every persisted batch and the time it appears are compared with a model of the configured policy",
		Assumptions: []string{"HTTP listener, signals and process exit modelled (ghttp)", "virtual clock: a request takes no time"},
		Jobs: func(tier string) []hk.Job {
			n := 3
			if tier == "thorough" {
				n = 4
			}
			one := [][]string{{"-vsa_hierarchical_groups=2"}}
			js := []hk.Job{
				{Name: "policy", Only: true, Weight: 9, Bounds: hk.P(0), Body: gxPolicy(12*gxMs, []string{"+a", "+b", "-a", "z7ms", "z37ms"}, n, one)},
				{Name: "policy-after-traffic", Only: true, Weight: 9, Bounds: hk.P(0), Body: gxPolicy(38*gxMs, []string{"+a2", "+a", "z10ms", "z40ms"}, n, one)},
				{Name: "engines", Only: true, Weight: 5, Bounds: hk.P(0), Body: gxEngine([]string{"+a", "+a3", "-a", "z10ms"}, n+1)},
				{Name: "defaults", Only: true, Weight: 3, Bounds: hk.P(0), Body: gxDefault},
				{Name: "address", Only: true, Weight: 1, Bounds: hk.P(0), Body: gxAddress},
				{Name: "telemetry", Only: true, Weight: 2, Bounds: hk.P(0), Body: gxTelemetry},
				{Name: "summary", Only: true, Weight: 1, Bounds: hk.P(0), Body: gxSummary},
			}
			return js
		}})
}
