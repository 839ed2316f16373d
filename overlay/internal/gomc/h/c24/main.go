// C24: the proxy's state equals the operations it accepted.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/sinks"
	"vsa/plugin/tfd"
)

const (
	gxMs   = time.Millisecond
	gxAddr = ":9090"
)

// gxLife is one run of the process: every client picks one of its programs.
//
//	c:key:bucket:n consume, v:… reverse, l:key set_limit, q whole state,
//	q:key, q:key:bucket, s:key sum, s:key:bucket sum, Q every query, z5 sleep
//	T SIGTERM, I SIGINT, N wait for the subscription to signals
type gxLife struct {
	clients [][]string
	signals []string
}

type gxScenario struct {
	name   string
	args   []string
	lives  []gxLife
	bounds []rt.Budget
	weight int
	setup  func() []gxLife
}

type gxCell struct{ key, bucket string }

type gxOp struct {
	what  string
	cell  gxCell
	delta int64
	done  bool // answered
	ok    bool // accepted
	cut   bool // the process ended before the answer
}

type gxWorld struct {
	ops    []*gxOp
	end    bool // a signal was raised in this life
	dead   bool // main has returned
	signal int64
}

var gxScratch string

func gxDir() string {
	if gxScratch == "" {
		d, err := os.MkdirTemp("", "vsamc-proxy-")
		if err != nil {
			panic(err)
		}
		gxScratch = d
	}
	return gxScratch
}

func gxCleanup() {
	if strings.Contains(gxScratch, "vsamc-proxy-") {
		os.RemoveAll(gxScratch)
		gxScratch = ""
	}
}

func gxID(s string) uint64 {
	if s == "" {
		return 0
	}
	return tfd.HashKey(s)
}

func (w *gxWorld) trace() string {
	var b strings.Builder
	for _, o := range w.ops {
		s := "pending"
		if o.ok {
			s = "accepted"
		} else if o.done {
			s = "refused"
		}
		fmt.Fprintf(&b, " %s=%s", o.what, s)
	}
	return b.String()
}

// gxAsk makes one query; match selects the cells of its answer's sum.
func (w *gxWorld) gxQuery(key, bucket string, sum bool) {
	v := url.Values{}
	if key != "" {
		v.Set("key", key)
	}
	if bucket != "" {
		v.Set("bucket", bucket)
	}
	if sum {
		v.Set("sum", "1")
	}
	rt.Invoke()
	was := map[*gxOp]bool{} // answered before
	for _, o := range w.ops {
		was[o] = o.done
	}
	rec := ghttp.Do(gxAddr, "GET", "/state?"+v.Encode())
	rt.Respond()
	if w.dead {
		return
	}
	if rec == nil {
		if !w.end {
			rt.Fail("the state query was refused")
		}
		return
	}
	what := "query " + v.Encode()
	if rec.Code != 200 {
		rt.Fail("%s answered %d %q", what, rec.Code, rec.Body.String())
	}
	var got map[string]int64
	if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
		rt.Fail("%s answered %q: %v", what, rec.Body.String(), err)
	}
	if sum {
		n, ok := got["sum"]
		if !ok || len(got) != 1 {
			rt.Fail("%s answered %v", what, got)
		}
		w.gxSum(what, n, was, func(c gxCell) bool { return c.key == key && (bucket == "" || c.bucket == bucket) })
		return
	}
	cells := map[string]gxCell{}
	for _, o := range w.ops {
		cells[fmt.Sprintf("%d:%d", gxID(o.cell.key), gxID(o.cell.bucket))] = o.cell
	}
	for name, n := range got {
		c, known := cells[name]
		if n != 0 && (!known || key != "" && c.key != key) {
			rt.Fail("%s: cell %s holds %d;%s", what, name, n, w.trace())
		}
	}
	for name, c := range cells {
		if key != "" && c.key != key {
			continue
		}
		n, there := got[name]
		if !there && bucket != "" && c.bucket != bucket {
			continue
		}
		w.gxSum(what, n, was, func(d gxCell) bool { return d == c })
	}
}

// gxSum checks one number: what was answered before the query and some of
// what was under way.
func (w *gxWorld) gxSum(what string, n int64, was map[*gxOp]bool, match func(gxCell) bool) {
	poss := map[int64]bool{0: true}
	for _, o := range w.ops {
		if !match(o.cell) || o.done && !o.ok && !o.cut {
			continue
		}
		next := map[int64]bool{}
		for v := range poss {
			next[v+o.delta] = true
			if !was[o] || o.cut {
				next[v] = true
			}
		}
		poss = next
	}
	if !poss[n] {
		rt.Fail("%s answers %d, possible are %v;%s", what, n, poss, w.trace())
	}
}

func (w *gxWorld) gxClient(prog string) {
	ghttp.WaitListening(gxAddr)
	for _, x := range strings.Fields(prog) {
		if x[0] == 'z' {
			d, _ := strconv.Atoi(x[1:])
			rt.Sleep(time.Duration(d) * gxMs)
			continue
		}
		if x[0] == 'B' { // a burst
			n, _ := strconv.Atoi(x[1:])
			rt.MoreSteps(100 * n)
			w.gxClient(strings.Repeat("c:a:x ", n))
			continue
		}
		f := strings.Split(x, ":")
		for len(f) < 4 {
			f = append(f, "")
		}
		for i := range f {
			f[i] = strings.ReplaceAll(f[i], "_", " ")
		}
		switch f[0] {
		case "q":
			w.gxQuery(f[1], f[2], false)
			continue
		case "s":
			w.gxQuery(f[1], f[2], true)
			continue
		case "Q":
			w.gxQuery("", "", false)
			seen := map[gxCell]bool{}
			for i, o := range append(w.ops[:len(w.ops):len(w.ops)], &gxOp{cell: gxCell{"never", "b"}}) {
				c, k := o.cell, gxCell{o.cell.key, ""}
				if c.key == "" {
					continue
				}
				if !seen[k] {
					seen[k] = true
					w.gxQuery(c.key, "", i%2 == 0)
					if i == 0 {
						w.gxQuery(c.key, "", true)
						w.gxQuery(c.key, c.bucket, false)
					}
				}
				if !seen[c] {
					seen[c] = true
					w.gxQuery(c.key, c.bucket, true)
				}
			}
			continue
		}
		v := url.Values{}
		o := &gxOp{what: x, cell: gxCell{f[1], f[2]}}
		if f[1] != "" {
			v.Set("key", f[1])
		}
		if f[2] != "" {
			v.Set("bucket", f[2])
		}
		o.delta = 1
		if f[3] != "" {
			v.Set("n", f[3])
			o.delta, _ = strconv.ParseInt(f[3], 10, 64)
		}
		path := "/consume"
		switch f[0] {
		case "v":
			path, o.delta = "/reverse", -o.delta
		case "l":
			path, o.delta = "/set_limit", 0
			v.Set("rps", "5")
		}
		rt.Invoke()
		w.ops = append(w.ops, o)
		rec := ghttp.Do(gxAddr, "POST", path+"?"+v.Encode())
		rt.Respond()
		o.done = true
		switch {
		case w.dead && rec != nil:
			o.cut = true
		case rec == nil:
			if !w.end {
				rt.Fail("%s was refused", x)
			}
		case o.cell.key == "" && rec.Code != 400:
			rt.Fail("%s without a key answered %d", x, rec.Code)
		case rec.Code == 202:
			o.ok = true
		case !w.end && o.cell.key != "":
			rt.Fail("%s answered %d %q", x, rec.Code, rec.Body.String())
		}
	}
}

func (w *gxWorld) gxSignals(prog string) {
	if !strings.HasPrefix(prog, "N") {
		ghttp.WaitListening(gxAddr)
	}
	for _, x := range strings.Fields(prog) {
		switch x[0] {
		case 'N':
			ghttp.WaitNotify()
		case 'z':
			d, _ := strconv.Atoi(x[1:])
			rt.Sleep(time.Duration(d) * gxMs)
		default:
			var sig os.Signal = syscall.SIGTERM
			if x == "I" {
				sig = os.Interrupt
			}
			rt.Invoke()
			w.end = true
			w.signal = rt.NowNanos()
			if !ghttp.Raise(sig) {
				rt.Fail("a termination signal met no handler: the process dies at once;%s", w.trace())
			}
			rt.Respond()
		}
	}
}

// gxLogs compares what a reader of the two logs finds.
func (w *gxWorld) gxLogs(s, v string) {
	sb, err := sinks.ReadAllSLog(s)
	if err != nil {
		rt.Fail("the scalar log cannot be read: %v", err)
	}
	ve, err := sinks.ReadAllVLog(v)
	if err != nil {
		rt.Fail("the vector log cannot be read: %v", err)
	}
	got, poss := map[[2]uint64]int64{}, map[[2]uint64]map[int64]bool{}
	for _, b := range sb {
		got[[2]uint64{b.KeyID, b.BucketID}] += b.NetDelta
	}
	for _, e := range ve {
		got[[2]uint64{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
	}
	for _, o := range w.ops {
		k := [2]uint64{gxID(o.cell.key), gxID(o.cell.bucket)}
		if !o.ok && !o.cut {
			continue
		}
		if _, ok := got[k]; !ok {
			got[k] = 0
		}
		if poss[k] == nil {
			poss[k] = map[int64]bool{0: true}
		}
		next := map[int64]bool{}
		for v := range poss[k] {
			next[v+o.delta] = true
			if o.cut {
				next[v] = true
			}
		}
		poss[k] = next
	}
	for k, n := range got {
		if !poss[k][n] && (n != 0 || poss[k] != nil) {
			rt.Fail("after the process ended its logs hold %d for cell %v, accepted were %v;%s", n, k, poss[k], w.trace())
		}
	}
}

func gxRead(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
	return b
}

func gxBody(s gxScenario) func() {
	return func() {
		rt.CaptureOutput()
		w := &gxWorld{}
		sl, vl := filepath.Join(gxDir(), "s.log"), filepath.Join(gxDir(), "v.log")
		os.Remove(sl)
		os.Remove(vl)
		rt.SetHook("onexit", func(code int, why string) {
			rt.Fail("the process ended with status %d: %s", code, why)
		})
		lives := s.lives
		if s.setup != nil {
			lives = s.setup()
		}
		for i, l := range lives {
			if i > 0 {
				rt.ResetGlobals()
			}
			flag.CommandLine = flag.NewFlagSet("tfd-proxy", flag.PanicOnError)
			os.Args = append([]string{"tfd-proxy", "-s_log=" + sl, "-v_log=" + vl}, s.args...)
			w.end, w.dead = false, false
			var sb, vb []byte
			main := rt.GoNamed("proxy", func() {
				gomcUserMain()
				w.dead = true // what runs on would be gone
				sb, vb = gxRead(sl), gxRead(vl)
			})
			var hs []*rt.Handle
			for _, al := range l.clients {
				prog := al[rt.Choose(len(al), false, "client")]
				hs = append(hs, rt.GoNamed("client", func() { w.gxClient(prog) }))
			}
			sig := l.signals[rt.Choose(len(l.signals), false, "signals")]
			if strings.HasPrefix(sig, "-") { // when all clients are done
				for _, h := range hs {
					h.Join()
				}
				sig = sig[1:]
			}
			hs = append(hs, rt.GoNamed("signaller", func() { w.gxSignals(sig) }))
			main.Join()
			if d := rt.NowNanos() - w.signal; d > int64(6*time.Second) {
				rt.Fail("the proxy took %v to stop", time.Duration(d))
			}
			ghttp.Down()
			for _, h := range hs {
				h.Join()
			}
			os.WriteFile(sl, sb, 0o644)
			os.WriteFile(vl, vb, 0o644)
			w.gxLogs(sl, vl)
			rt.Quiesce()
			if rt.LiveThreads() != 0 {
				return // they would disturb the next life
			}
		}
	}
}

// gxSequences enumerates request sequences of one client over two lives.
func gxSequences(depth int, first, letters []string) func() []gxLife {
	return func() []gxLife {
		var p []string
		second := false
		var lives []gxLife
		for i := 0; i < depth; i++ {
			from := letters
			if i == 0 {
				from = first
			}
			x := from[rt.Choose(len(from), false, "request")]
			if x == "R" { // restart
				if second || i == 0 {
					x = "z3"
				} else {
					lives = append(lives, gxLife{clients: [][]string{{strings.Join(p, " ")}}, signals: []string{"-T"}})
					p, second = nil, true
					continue
				}
			}
			p = append(p, x)
		}
		p = append(p, "Q")
		return append(lives, gxLife{clients: [][]string{{strings.Join(p, " ")}}, signals: []string{"-T"}})
	}
}

func gxScenarios(tier string) []gxScenario {
	more := 0
	if tier == "thorough" {
		more = 1
	}
	hour := []string{"-flush=1h", "-time_cap=1h"}
	slow := append([]string{"-shards=1"}, hour...)
	last := gxLife{clients: [][]string{{"q"}}, signals: []string{"-T"}}
	abc := []string{"c:a:x", "c:a:x:5", "c:a:y:-2", "c:b:x:3", "c:a", "v:a:x:2", "v:b:x", "l:a", "c::x:4", "v:::3", "l:", "Q", "z3", "R"}
	narrow := []string{"c:a:x", "c:a:y:4", "c:b:x:16", "c:c:z:64", "v:a:x:256", "Q", "R"}
	odd := []string{"c:a:x:9223372036854775807", "c:a:x:-9223372036854775808", "v:a:x:9223372036854775807", "c:a:x:0", "c:a_%26&b:x/y?:7", "v:ключ:::1", "q", "R"}
	ss := []gxScenario{
		{name: "sequences-defaults", weight: 2, args: []string{"-shards=0", "-order_pow2=0", "-count_thresh=0", "-time_cap=0", "-flush=0"}, bounds: hk.P(0),
			setup: gxSequences(2, abc, abc)},
		{name: "sequences-narrow", weight: 6, args: append([]string{"-order_pow2=1", "-count_thresh=2"}, slow...), bounds: hk.P(0),
			setup: gxSequences(3+more, narrow, narrow)},
		{name: "extremes", weight: 2, args: hour, bounds: hk.P(0),
			setup: gxSequences(3+more, odd, odd)},
		{name: "clients", args: slow, bounds: hk.P(1 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1 v:a:x:2", "c:a:x:1 q"}, {"c:a:x:4 q", "v:a:x:8 s:a"}}, signals: []string{"-T"}}, last}},
		{name: "query-vs-requests", args: slow, bounds: hk.P(1 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1 c:a:y:2", "v:a:x:4 c:a:x:8", "l:a v:b:x"}, {"q q", "s:a s:a:x", "q:a q"}}, signals: []string{"-T"}}}},
		{name: "three", args: slow, bounds: hk.P(0 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1", "v:a:x:1"}, {"c:a:x:2", "c:b:y:2"}, {"q", "s:a", "c:a:y:4"}}, signals: []string{"-T"}}, last}},
		{name: "ticking", args: []string{"-shards=1", "-flush=2ms", "-time_cap=1ms"}, bounds: append(hk.P(0+more), rt.Budget{T: 1 + more}),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1 z5 c:a:x:2 q", "c:a:x:1 c:a:x:2 z3 q"}, {"c:a:x:4 z2 v:a:x:8 s:a"}}, signals: []string{"-T", "z2 T", "z5 T"}}, last}},
		{name: "two-shards", args: append([]string{"-shards=2", "-count_thresh=1"}, hour...), bounds: hk.P(1 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1 c:b:x:2 q"}, {"c:a:x:4", "q"}}, signals: []string{"-T"}}, last}},
		{name: "signal", args: slow, bounds: hk.P(1 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1", "v:a:x:1", "c:a:x:1 v:a:x:2", "l:a c:a:x"}}, signals: []string{"T", "I", "T T", "T I"}}, last}},
		{name: "early-signal", args: slow, bounds: hk.P(2 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1", "v:a:x:1"}}, signals: []string{"N T"}}, last}},
		{name: "signal-clients", args: slow, bounds: hk.P(1 + more),
			lives: []gxLife{{clients: [][]string{{"c:a:x:1", "v:a:x:2"}, {"c:a:x:4", "v:b:x:8", "q"}}, signals: []string{"T"}}, last}},
		{name: "restarts", args: slow, bounds: hk.P(0 + more),
			lives: []gxLife{
				{clients: [][]string{{"c:a:x:1 v:a:x:2"}}, signals: []string{"T", "-T"}},
				{clients: [][]string{{"c:a:x:4 q v:b:x:8"}}, signals: []string{"T", "-T"}},
				last}},
	}
	ss = append(ss, gxScenario{name: "burst", weight: 8, args: slow, bounds: hk.P(0), lives: []gxLife{{clients: [][]string{{"B8200 s:a"}}, signals: []string{"-T"}}}})
	for i := 0; i < len(abc); i += 4 {
		first := abc[i:min(i+4, len(abc))]
		ss = append(ss,
			gxScenario{name: "sequences" + strconv.Itoa(i/4), weight: 9, args: hour, bounds: hk.P(0), setup: gxSequences(3+more, first, abc)},
			gxScenario{name: "sequences-flushing" + strconv.Itoa(i/4), weight: 6, args: []string{"-shards=2", "-order_pow2=1", "-count_thresh=1"}, bounds: hk.P(0), setup: gxSequences(3, first, abc)})
	}
	return ss
}

// gxRacing runs the proxy under the race detector: an unsynchronised access to
// its logs or tables can lose or garble what was accepted.
func gxRacing(args []string, requests ...string) func() {
	return func() {
		rt.CaptureOutput()
		sl, vl := filepath.Join(gxDir(), "rs.log"), filepath.Join(gxDir(), "rv.log")
		os.Remove(sl)
		os.Remove(vl)
		flag.CommandLine = flag.NewFlagSet("tfd-proxy", flag.PanicOnError)
		os.Args = append([]string{"tfd-proxy", "-s_log=" + sl, "-v_log=" + vl}, args...)
		main := rt.GoNamed("proxy", gomcUserMain)
		var hs []*rt.Handle
		lo := 0
		for i := 0; i < 2; i++ {
			lo += rt.Choose(len(requests)-lo, false, "request")
			q := requests[lo]
			hs = append(hs, rt.GoNamed("client", func() {
				ghttp.WaitListening(gxAddr)
				ghttp.Do(gxAddr, "GET", q)
			}))
		}
		hs = append(hs, rt.GoNamed("signaller", func() {
			ghttp.WaitListening(gxAddr)
			ghttp.Raise(syscall.SIGTERM)
		}))
		main.Join()
		ghttp.Down()
		for _, h := range hs {
			h.Join()
		}
	}
}

func main() {
	hk.OnExit = gxCleanup
	hk.Main(hk.Check{ID: "C24",
		Rule:        "an execution is one schedule of the proxy's main, its service, its clients and the signals, over one or more lives on the same log files; every answer is compared with the accepted requests",
		Assumptions: []string{"an unsynchronised access of the proxy to shared memory counts as a loss (race detector)", "sequentially consistent atomics", "HTTP listener, signals and process exit modelled (ghttp)", "file system calls succeed and are atomic", "requests take less than the 5 s shutdown limit"},
		Jobs: func(tier string) []hk.Job {
			var js []hk.Job
			for _, s := range gxScenarios(tier) {
				wt := s.weight
				if wt == 0 {
					wt = 4
				}
				js = append(js, hk.Job{Name: s.name, Weight: wt, Bounds: s.bounds, Body: gxBody(s), Only: s.name != "query-vs-requests" && s.name != "clients"})
			}
			hour := []string{"-shards=1", "-flush=1h", "-time_cap=1h"}
			js = append(js,
				hk.Job{Name: "race/vector", Weight: 3, Bounds: hk.P(1), Race: true, Body: gxRacing(hour, "/reverse?key=a", "/set_limit?key=b", "/state")},
				hk.Job{Name: "race/scalar", Weight: 3, Bounds: hk.P(1), Race: true, Body: gxRacing(append([]string{"-count_thresh=1"}, hour...), "/consume?key=a", "/reverse?key=a", "/state?key=a")})
			return js
		}})
}
