// C10: graceful shutdown persists everything that was admitted.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
)

const gxMs = time.Millisecond

type gxScenario struct {
	name    string
	args    []string
	clients [][]string // per client its alternative programs
	signals []string   // programs of the signaller: z5 sleep, T SIGTERM, I SIGINT
	p, t    int
	pt      int
	watch   bool // the service must stop soon after the signal
	strict  bool // releases follow their own checks and nothing commits before
}

// outcome is what the client side knows.
type gxOutcome struct {
	admitted, releases map[string]int64
	served             int
	trace              []string
	signalled          time.Duration
	killed             bool
}

func (o *gxOutcome) client(prog string) {
	ghttp.WaitListening(":8080")
	for _, x := range strings.Fields(prog) {
		switch x[0] {
		case 'z':
			d, _ := strconv.Atoi(x[1:])
			rt.Sleep(time.Duration(d) * gxMs)
		case '+', '<', '>': // an ordinary one, one that takes a while to arrive, or to be answered
			var send, recv time.Duration
			if x[0] != '+' {
				d, _ := strconv.Atoi(x[2:])
				send = time.Duration(d) * gxMs
				if x[0] == '>' {
					send, recv = 0, send
				}
				x = x[:2]
			}
			rec := ghttp.DoSlow(":8080", "GET", "/check?api_key="+x[1:], send, recv)
			if rec == nil {
				continue
			}
			o.served++
			o.trace = append(o.trace, fmt.Sprintf("check(%s)=%d@%v", x[1:], rec.Code, time.Duration(rt.NowNanos())))
			if rec.Code == 200 {
				o.admitted[x[1:]]++
			} else if rec.Code != 429 {
				rt.Fail("check answered %d during shutdown: %v", rec.Code, o.trace)
			}
		case '-':
			rec := ghttp.Do(":8080", "GET", "/release?api_key="+x[1:])
			if rec == nil {
				continue
			}
			o.served++
			o.trace = append(o.trace, fmt.Sprintf("release(%s)=%d@%v", x[1:], rec.Code, time.Duration(rt.NowNanos())))
			o.releases[x[1:]]++
		}
	}
}

func gxBody(s gxScenario) func() {
	return func() {
		rt.CaptureOutput()
		flag.CommandLine = flag.NewFlagSet("ratelimiter-api", flag.PanicOnError)
		os.Args = append([]string{"ratelimiter-api", "-vsa_hierarchical_groups=2"}, s.args...)
		o := &gxOutcome{admitted: map[string]int64{}, releases: map[string]int64{}}
		rt.SetHook("onexit", func(code int, why string) {
			rt.Fail("the process ended with status %d: %s", code, why)
		})
		var out string
		ended := false
		main := rt.GoNamed("service", func() {
			gomcUserMain()
			out = rt.Captured() // the process ends here, whatever else still runs
			ended = true
			if n := ghttp.InFlight(); n > 0 && time.Duration(rt.NowNanos())-o.signalled < 5*time.Second-gxMs {
				rt.Fail("the service ended with %d requests in progress: %v", n, o.trace)
			}
		})
		var hs []*rt.Handle
		for _, al := range s.clients {
			prog := al[rt.Choose(len(al), false, "client")]
			hs = append(hs, rt.GoNamed("client", func() { o.client(prog) }))
		}
		sig := s.signals[rt.Choose(len(s.signals), false, "signals")]
		hs = append(hs, rt.GoNamed("signaller", func() {
			if !strings.HasPrefix(sig, "N") {
				ghttp.WaitListening(":8080")
			}
			for _, x := range strings.Fields(sig) {
				switch x[0] {
				case 'N':
					ghttp.WaitNotify()
				case 'z':
					d, _ := strconv.Atoi(x[1:])
					rt.Sleep(time.Duration(d) * gxMs)
				default:
					var what os.Signal = syscall.SIGTERM
					if x == "I" {
						what = os.Interrupt
					}
					if o.signalled == 0 {
						o.signalled = time.Duration(rt.NowNanos()) + 1
					}
					if !ghttp.Raise(what) {
						o.killed = true
						rt.Fail("a termination signal met no handler: the process dies without its final flush (served so far: %v)", o.trace)
					}
				}
			}
			if !ended && s.watch {
				rt.Sleep(6*time.Second + gxMs)
				if !ended {
					rt.Fail("the service is still running 6 s after a signal: %v", o.trace)
				}
			}
		}))
		main.Join()
		if d := time.Duration(rt.NowNanos()) - o.signalled; d > 6*time.Second && s.t == 0 { // no timer fires early
			rt.Fail("the service took %v to stop", d)
		}
		ghttp.Down()
		for _, h := range hs {
			h.Join()
		}
		gxJudge(s, o, out)
	}
}

// parse reads the demo storage's log: persisted vectors per key, the number of
// summaries, what follows the first summary, and the rows of the summary.
func gxParse(out string) (sum map[string]int64, rows, batches, finals int, late bool, row map[string]string) {
	sum, row = map[string]int64{}, map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		f := strings.Fields(l)
		switch {
		case strings.Contains(l, "Persisting batch of"):
			batches++
			late = late || finals > 0
		case strings.HasPrefix(strings.TrimSpace(l), "- KEY:") && len(f) == 5:
			n, err := strconv.ParseInt(f[4], 10, 64)
			if err != nil {
				rt.Fail("unreadable commit line %q", l)
			}
			sum[f[2]] += n
			rows++
			late = late || finals > 0
		case strings.Contains(l, "Final persistence metrics"):
			finals++
		case finals > 0 && len(f) >= 2:
			k := strings.Join(f[:len(f)-1], " ")
			if _, ok := row[k]; !ok {
				row[k] = f[len(f)-1]
			}
		}
	}
	return
}

func gxJudge(s gxScenario, o *gxOutcome, out string) {
	sum, rows, batches, finals, late, row := gxParse(out)
	if finals != 1 {
		rt.Fail("the final summary was printed %d times", finals)
	}
	if late {
		rt.Fail("commits after the final summary: %s", out)
	}
	var adm, per int64
	for k, n := range o.admitted {
		adm += n
		lo := n - o.releases[k]
		if lo < 0 {
			lo = 0
		}
		if s.strict {
			lo = n - o.releases[k]
		}
		if sum[k] > n || sum[k] < lo || s.strict && sum[k] != lo {
			rt.Fail("key %s: %d requests admitted, %d released, storage holds %d: %v", k, n, o.releases[k], sum[k], o.trace)
		}
		if o.releases[k] == 0 && sum[k] != n {
			rt.Fail("key %s: %d requests admitted, storage holds %d: %v", k, n, sum[k], o.trace)
		}
	}
	for k, n := range sum {
		per += n
		if n != 0 && o.admitted[k] == 0 {
			rt.Fail("key %s: storage holds %d, nothing was admitted", k, n)
		}
	}
	num := func(k string) int64 {
		v, err := strconv.ParseInt(row[k], 10, 64)
		if err != nil {
			rt.Fail("the final summary has no number for %q (%q)", k, row[k])
		}
		return v
	}
	if a := num("Admits"); a != adm {
		rt.Fail("the final summary reports %d admissions, there were %d: %v", a, adm, o.trace)
	}
	// released units are what the summary says was refunded: net must be stored
	if r := num("Refunds"); adm-r != per {
		rt.Fail("%d admitted, %d refunded, storage holds %d in total: %v", adm, r, per, o.trace)
	}
	if num("Writes") != int64(rows) || num("Batches") != int64(batches) {
		rt.Fail("the final summary reports %d writes in %d batches, there were %d in %d", num("Writes"), num("Batches"), rows, batches)
	}
}

func gxScenarios(tier string) []gxScenario {
	hour := []string{"-commit_interval=1h", "-eviction_interval=1h"}
	ss := []gxScenario{
		{name: "request-vs-signal", args: append([]string{"-rate_limit=3"}, hour...), watch: true, p: 2,
			clients: [][]string{{"+a +b"}}, signals: []string{"T"}},
		{name: "early-signal", args: append([]string{"-rate_limit=3"}, hour...), watch: true, p: 2,
			clients: [][]string{{"+a"}}, signals: []string{"N T"}},
		{name: "more-signals", args: append([]string{"-rate_limit=3"}, hour...), watch: true, p: 2,
			clients: [][]string{{"+a"}}, signals: []string{"I", "T T", "T I"}},
		{name: "slow-requests", args: append([]string{"-rate_limit=3"}, hour...), p: 1,
			clients: [][]string{{"+b <a40", ">a900 +b", "<a2100 +b", ">a4000", "<a4800"}}, signals: []string{"T", "z1 T"}},
		{name: "stuck-request", args: append([]string{"-rate_limit=3"}, hour...), watch: true, p: 1,
			clients: [][]string{{"+b >a9000", ">a7000", "+a +a +b >b60000"}}, signals: []string{"z1 T", "z1 I"}},
		{name: "two-clients", args: append([]string{"-rate_limit=2"}, hour...), p: 1,
			clients: [][]string{{"+a +a"}, {"+a"}}, signals: []string{"T"}},
		{name: "release", args: append([]string{"-rate_limit=3"}, hour...), p: 2, strict: true,
			clients: [][]string{{"+a +a -a", "+a -a", "+a -a +b"}}, signals: []string{"T"}},
		{name: "commit", args: []string{"-rate_limit=5", "-commit_threshold=1", "-commit_interval=10ms", "-eviction_interval=1h"}, p: 1, t: 1,
			clients: [][]string{{"+a z10 +a", "+a +b z10"}}, signals: []string{"z10 T", "T", "z20 T"}},
		{name: "commit-clients", args: []string{"-rate_limit=5", "-commit_threshold=2", "-commit_interval=10ms", "-eviction_interval=1h"}, p: 1, t: 1,
			clients: [][]string{{"+a z10 +a -a", "+a +a +a z10 -a"}, {"+a z10", "z10 +a"}}, signals: []string{"z10 T", "z13 T"}},
		{name: "max-age", args: []string{"-rate_limit=5", "-commit_threshold=9", "-commit_interval=10ms", "-commit_max_age=5ms", "-eviction_interval=1h"}, p: 2, t: 1,
			clients: [][]string{{"+a z10 +a", "+a +b"}}, signals: []string{"z10 T", "z20 T"}},
		{name: "evict", args: []string{"-rate_limit=5", "-commit_interval=1h", "-eviction_interval=10ms", "-eviction_age=5ms"}, p: 2, t: 0,
			clients: [][]string{{"+a +b", "+a z12 +a z10", "+a +a z11"}}, signals: []string{"z10 T", "z20 T", "z25 T"}},
		{name: "evict-commit", args: []string{"-rate_limit=5", "-commit_threshold=1", "-commit_interval=10ms", "-eviction_interval=10ms", "-eviction_age=5ms"}, p: 2, t: 0,
			clients: [][]string{{"+a +b z9 +a", "+a +a"}}, signals: []string{"z10 T", "z20 T"}},
		{name: "cached-gate", args: append([]string{"-rate_limit=3", "-vsa_use_cached_gate=true", "-vsa_cache_interval=1m"}, hour...), p: 1,
			clients: [][]string{{"+a", "+a +b"}}, signals: []string{"T", "z5 T"}},
		{name: "fast-path", args: append([]string{"-rate_limit=5", "-vsa_fast_path_guard=1"}, hour...), p: 1,
			clients: [][]string{{"+a +a"}, {"+a"}}, signals: []string{"T"}},
	}
	if tier == "thorough" {
		for i := range ss {
			ss[i].p++
			ss[i].t++
		}
	}
	return ss
}

func main() {
	{
		hk.Main(hk.Check{ID: "C10",
			Rule:        "an execution is one schedule of the service's main, its worker, clients and a signal; the storage log is compared with what clients saw",
			Assumptions: []string{"sequentially consistent atomics", "HTTP listener, signals and process exit modelled (ghttp)", "requests take less than the 5 s shutdown limit"},
			Jobs: func(tier string) []hk.Job {
				var js []hk.Job
				for _, s := range gxScenarios(tier) {
					b := hk.P(s.p)
					if s.t > 0 {
						b = append(b, rt.Budget{P: s.pt, T: s.t})
					}
					js = append(js, hk.Job{Name: s.name, Weight: 4, Bounds: b, Body: gxBody(s)})
				}
				return js
			}})
	}
}
