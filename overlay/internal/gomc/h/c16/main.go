// C16: adapters deliver the worker's commits faithfully with fresh ids.
package main

import (
	"context"
	"crypto/rand"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vsa/internal/gomc/fredis"
	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
)

type gxFailer func(string, ...any)

// ---------------------------------------------------------------- the shim

var gxErrA, gxErrB = errors.New("adapter failed"), errors.New("adapter failed otherwise")

// adapter records what reaches it and fails as told.
type gxAdapter struct {
	obj    rt.Object
	yield  bool
	fault  bool
	answer error
	slow   time.Duration
	inside bool
	got    []persistence.CommitEntry
	calls  int
	err    error // of the latest call
	errs   int
}

func (a *gxAdapter) CommitBatch(ctx context.Context, es []persistence.CommitEntry) error {
	if ctx == nil {
		panic("a nil context reaches the adapter")
	}
	if a.yield {
		rt.Point(rt.KWrite, &a.obj, true, nil)
	}
	a.calls++
	a.inside = true
	if a.slow > 0 {
		rt.Sleep(a.slow)
	}
	a.inside = false
	a.got = append(a.got, es...)
	if len(es) == 0 {
		panic("the adapter is called with an empty batch")
	}
	a.err = a.answer
	if a.fault {
		a.err = []error{nil, gxErrA, gxErrB}[rt.Choose(3, true, "adapter")]
	}
	if a.err != nil {
		a.errs++
	}
	return a.err
}

func gxSameBatch(fail gxFailer, in []core.Commit, out []persistence.CommitEntry, whole bool) {
	if len(out) > len(in) || whole && len(out) != len(in) {
		fail("%d commits became %d entries", len(in), len(out))
	}
	for i, e := range out {
		if e.Key != in[i].Key || e.Vector != in[i].Vector {
			fail("commit %d is (%q, %d), its entry (%q, %d)", i, in[i].Key, in[i].Vector, e.Key, e.Vector)
		}
		if e.CommitID == "" {
			fail("the entry of commit %d has no id", i)
		}
	}
}

func gxUnique(fail gxFailer, gxIds map[string]bool, es []persistence.CommitEntry) {
	for _, e := range es {
		if gxIds[e.CommitID] {
			fail("the id %q is used twice", e.CommitID)
		}
		gxIds[e.CommitID] = true
	}
}

var gxLetters = []core.Commit{{Key: "a", Vector: 1}, {Key: "a", Vector: -3}, {Key: "", Vector: math.MaxInt64}, {Key: "b c:%d", Vector: math.MinInt64}, {Key: "b", Vector: 0}}

// mapping: sequences of batches, the adapter failing anywhere.
func gxMapping(size, count int) func() {
	return func() {
		a := &gxAdapter{fault: true}
		s := persistence.NewIdemShim(a)
		gxIds := map[string]bool{}
		for i := 0; i < count; i++ {
			var in []core.Commit
			for len(in) < size {
				c := rt.Choose(len(gxLetters)+1, false, "commit")
				if c == len(gxLetters) {
					break
				}
				in = append(in, gxLetters[c])
			}
			if in == nil && rt.Choose(2, false, "empty") == 1 {
				in = []core.Commit{}
			}
			was := append([]core.Commit(nil), in...)
			from, calls, errs := len(a.got), a.calls, a.errs
			err := s.CommitBatch(in)
			for j := range in {
				if in[j] != was[j] {
					rt.Fail("the batch handed over was changed")
				}
			}
			if len(in) == 0 && (a.calls != calls || err != nil) {
				rt.Fail("an empty batch reaches the adapter %d times, error %v", a.calls-calls, err)
			}
			gxSameBatch(rt.Fail, in, a.got[from:], err == nil)
			switch {
			case a.errs > errs && (a.err == nil || !errors.Is(err, a.err)):
				rt.Fail("the adapter's error %v became %v", a.err, err)
			case a.errs == errs && err != nil:
				rt.Fail("an error %v although the adapter succeeded", err)
			}
			gxUnique(rt.Fail, gxIds, a.got[from:])
		}
		s.PrintFinalMetrics()
		if n := rt.LiveThreads(); n > 1 {
			rt.Fail("%d threads are left", n-1)
		}
	}
}

// errors: whatever the adapter answers, and however long it takes, is passed on.
func gxErrors() {
	errs := []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, fmt.Errorf("adapter: %w", context.DeadlineExceeded), os.ErrDeadlineExceeded}
	a := &gxAdapter{answer: errs[rt.Choose(len(errs), false, "error")]}
	a.slow = []time.Duration{0, time.Second, 29 * time.Second, 10 * time.Minute}[rt.Choose(4, false, "slow")]
	s := persistence.NewIdemShim(a)
	for i := 0; i < 3; i++ {
		err := s.CommitBatch([]core.Commit{{Key: "a", Vector: 1}, {Key: "b", Vector: 2}})
		if a.calls != i+1 {
			rt.Fail("the adapter was called %d times for %d batches", a.calls, i+1)
		}
		if a.inside {
			rt.Fail("answered %v while the adapter was still working", err)
		}
		if a.err == nil && err != nil || a.err != nil && !errors.Is(err, a.err) {
			rt.Fail("the adapter's error %v became %v", a.err, err)
		}
	}
}

// lengths: batches of every length up to a bound and some longer ones.
func gxLengths(q *hk.Seq) {
	q.Bound("batches of every length up to 300, and 1023, 1024, 1025, 4097, 10001")
	for n := 0; n <= 300+5; n++ {
		l := n
		if n > 300 {
			l = []int{1023, 1024, 1025, 4097, 10001}[n-301]
		}
		a := &gxAdapter{}
		s := persistence.NewIdemShim(a)
		var in []core.Commit
		odd := hk.Names()
		for i := 0; i < l; i++ {
			in = append(in, core.Commit{Key: "k" + strconv.Itoa(i%(1+i%7)), Vector: int64(i)})
			if i%4 == 3 {
				in[i].Key = odd[i/4%len(odd)]
			}
		}
		if err := s.CommitBatch(in); err != nil {
			q.Fail("%v", err)
		}
		gxSameBatch(q.Fail, in, a.got, true)
		gxUnique(q.Fail, map[string]bool{}, a.got)
		q.Case()
		q.Step(l)
		q.State(uint64(l))
	}
}

// concurrent: several callers of one shim or of their own, scheduled at every
// read of randomness and at every call of the adapter.
func gxConcurrent(n, batch int) func() {
	return func() {
		defer gxRandomness(&gxYielding{r: gxSystem})()
		as := []*gxAdapter{{yield: true}}
		shims := []*persistence.IdemShim{persistence.NewIdemShim(as[0])}
		own := rt.Choose(2, false, "own") == 1
		var hs []*rt.Handle
		ins := make([][]core.Commit, n)
		for i := 0; i < n; i++ {
			if own && i > 0 {
				as = append(as, &gxAdapter{yield: true})
				shims = append(shims, persistence.NewIdemShim(as[i]))
			}
			s := shims[len(shims)-1]
			for j := 0; j < batch; j++ {
				ins[i] = append(ins[i], core.Commit{Key: "k" + strconv.Itoa(j), Vector: int64(10*i + j)})
			}
			hs = append(hs, rt.GoNamed("worker", func() {
				for _, b := range [][]core.Commit{ins[i][:batch/2], ins[i][batch/2:]} {
					if err := s.CommitBatch(b); err != nil {
						rt.Fail("%v", err)
					}
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		gxIds := map[string]bool{}
		var got []core.Commit
		for _, a := range as {
			gxUnique(rt.Fail, gxIds, a.got)
			for _, e := range a.got {
				got = append(got, core.Commit{Key: e.Key, Vector: e.Vector})
			}
		}
		for i := range ins {
			var mine []core.Commit
			for _, c := range got {
				if c.Vector/10 == int64(i) {
					mine = append(mine, c)
				}
			}
			if fmt.Sprint(mine) != fmt.Sprint(ins[i]) {
				rt.Fail("caller %d committed %v, the adapter saw %v", i, ins[i], mine)
			}
		}
	}
}

// randomness replaces the source of crypto/rand and returns the undo.
func gxRandomness(r io.Reader) func() {
	rand.Reader = r
	return func() { rand.Reader = gxSystem }
}

var gxSystem = rand.Reader

type gxYielding struct {
	obj rt.Object
	r   io.Reader
}

func (y *gxYielding) Read(p []byte) (int, error) {
	rt.Point(rt.KWrite, &y.obj, true, nil)
	for i := range p { // byte by byte: a torn fill is visible
		if _, err := y.r.Read(p[i : i+1]); err != nil {
			return i, err
		}
		if i == 0 || i == len(p)-1 {
			rt.Point(rt.KWrite, &y.obj, true, nil)
		}
	}
	return len(p), nil
}

// stream is a fixed source of bytes with one bit flipped, in pieces.
type gxStream struct {
	at, flip, piece int
}

func (s *gxStream) Read(p []byte) (int, error) {
	if s.piece > 0 && len(p) > s.piece {
		p = p[:s.piece]
	}
	for i := range p {
		p[i] = byte(s.at*37 + 11)
		if s.flip/8 == s.at && s.flip >= 0 {
			p[i] ^= 1 << (s.flip % 8)
		}
		s.at++
	}
	return len(p), nil
}

// ids: many ids, also under a stopped clock and over restarts, and the number
// of random bits that an id depends on.
func gxIds(total int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		const restarts = 64
		q.Bound("%d ids under a stopped clock over %d restarts; every bit flip of the randomness behind one id", total, restarts)
		gxSeen := make(map[string]struct{}, total)
		one := func(s *persistence.IdemShim, a *gxAdapter, n int) {
			a.got = a.got[:0]
			if err := s.CommitBatch(make([]core.Commit, n)); err != nil || len(a.got) != n {
				q.Fail("%d entries for %d commits, %v", len(a.got), n, err)
			}
			for _, e := range a.got {
				if _, ok := gxSeen[e.CommitID]; ok {
					q.Fail("after %d ids the id %q is used again", len(gxSeen), e.CommitID)
				}
				gxSeen[e.CommitID] = struct{}{}
			}
			q.Step(n)
		}
		// which bits count
		for _, piece := range []int{0, 1} {
			id := func(flip int) (string, int) {
				rt.ResetGlobals()
				s := &gxStream{flip: flip, piece: piece}
				defer gxRandomness(s)()
				a := &gxAdapter{}
				if err := persistence.NewIdemShim(a).CommitBatch(make([]core.Commit, 1)); err != nil {
					q.Fail("%v", err)
				}
				return a.got[0].CommitID, s.at
			}
			base, used := id(-1)
			if used == 0 {
				q.Note("the ids do not come from crypto/rand")
				break
			}
			bits := 0
			for f := 0; f < 8*used && f < 4096; f++ {
				if x, _ := id(f); x != base {
					bits++
				}
				q.Case()
				q.State(uint64(1000 + f))
			}
			if bits < 64 {
				q.Fail("an id depends on %d of the %d random bits read for it", bits, 8*used)
			}
		}
		for r := 0; r < restarts; r++ {
			rt.ResetGlobals()
			a := &gxAdapter{}
			s := persistence.NewIdemShim(a)
			for i, n := 0, 1; i < total/restarts; i += n {
				if n = 1 << (i % 9); i%3 == 0 {
					s = persistence.NewIdemShim(a)
				}
				one(s, a, n)
			}
			q.Case()
			q.State(uint64(r))
		}
		if len(gxSeen) < total {
			q.Fail("%d distinct ids for %d", len(gxSeen), total)
		}
	}
}

// ---------------------------------------------------------------- the selector

// redis is a server on the loopback interface.
type gxRedis struct {
	addr string
	mu   sync.Mutex
	s    *fredis.Server
	sha  map[string]string
	drop int // the next n effective scripts lose their reply
}

var (
	gxServer     *gxRedis
	gxServerOnce sync.Once
)

func gxRedisServer() *gxRedis {
	gxServerOnce.Do(func() { gxServer = &gxRedis{}; gxServer.listen() })
	gxServer.mu.Lock()
	defer gxServer.mu.Unlock()
	gxServer.s, gxServer.drop = fredis.New(), 0
	return gxServer
}

func (r *gxRedis) script(script string, args []string) (any, bool) {
	n, err := strconv.Atoi(args[0])
	if err != nil || n < 0 || n > len(args)-1 {
		return fredis.Err("ERR Number of keys can't be greater than number of args"), false
	}
	v := r.s.Eval(script, args[1:1+n], args[1+n:])
	lost := r.drop > 0
	if lost {
		r.drop--
	}
	return v, lost
}

func (r *gxRedis) command(a []string) (gxReply any, lost bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	defer func() {
		if e := recover(); e != nil {
			gxReply = fredis.Err(fmt.Sprint("ERR ", e))
		}
	}()
	switch strings.ToUpper(a[0]) {
	case "EVAL":
		r.sha[gxSha1hex(a[1])] = a[1]
		return r.script(a[1], a[2:])
	case "EVALSHA":
		s, ok := r.sha[strings.ToLower(a[1])]
		if !ok {
			return fredis.Err("NOSCRIPT No matching script. Please use EVAL."), false
		}
		return r.script(s, a[2:])
	case "HELLO":
		return fredis.Err("ERR unknown command 'hello'"), false
	case "CLIENT":
		return fredis.Status("OK"), false
	case "PING":
		return fredis.Status("PONG"), false
	}
	return r.s.Do(a...), false
}

// state lists the counters and the markers' lifetimes.
func (r *gxRedis) state() (counters map[string]string, markers map[string]time.Duration) {
	r.mu.Lock()
	defer r.mu.Unlock()
	counters, markers = map[string]string{}, map[string]time.Duration{}
	for _, k := range r.s.Keys() {
		if h, ok := r.s.Hashes[k]; ok {
			counters[strings.TrimPrefix(k, "counter:")] = h["scalar"]
		} else if t, ok := r.s.Expiry[k]; ok {
			markers[k] = t.Sub(r.s.Now)
		} else {
			markers[k] = 0
		}
	}
	return
}

type gxOption struct {
	name    string
	o       persistence.DemoOptions
	topic   string
	life    time.Duration
	commits []core.Commit
}

var (
	gxRedisLine = regexp.MustCompile(`\[redis-demo\] EVAL .*KEYS=\[counter:(\S*) commit:(\S*):(\S+)\] ARGS=\[(-?\d+) (\d+)\]`)
	gxKafkaLine = regexp.MustCompile(`\[kafka-demo\] TOPIC=(\S*) KEY=(\S*) VALUE=(\{.*?\}) HEADERS`)
	gxMockLine  = regexp.MustCompile(`- KEY: (\S+) +VECTOR: (-?\d+)`)
)

// seen is one commit that reached an adapter, as printed.
type gxSeen struct {
	kind, key, id, topic string
	vector               int64
	life                 time.Duration
}

func gxParse(out string) (all []gxSeen) {
	for _, l := range strings.Split(out, "\n") {
		if m := gxRedisLine.FindStringSubmatch(l); m != nil {
			v, _ := strconv.ParseInt(m[4], 10, 64)
			t, _ := strconv.ParseInt(m[5], 10, 64)
			all = append(all, gxSeen{kind: "redis", key: m[1], id: m[3], vector: v, life: time.Duration(t) * time.Second})
		} else if m := gxKafkaLine.FindStringSubmatch(l); m != nil {
			var p struct {
				Key string `json:"key"`
				VC  int64  `json:"vc"`
				ID  string `json:"commit_id"`
			}
			if err := json.Unmarshal([]byte(m[3]), &p); err != nil {
				rt.Fail("unreadable message %q: %v", l, err)
			}
			if p.ID != m[2] {
				rt.Fail("message key %q and commit id %q differ", m[2], p.ID)
			}
			all = append(all, gxSeen{kind: "kafka", key: p.Key, id: p.ID, vector: p.VC, topic: m[1]})
		} else if m := gxMockLine.FindStringSubmatch(l); m != nil {
			v, _ := strconv.ParseInt(m[2], 10, 64)
			all = append(all, gxSeen{kind: "mock", key: m[1], vector: v})
		} else if strings.Contains(l, "[redis-demo] EVAL") || strings.Contains(l, "[kafka-demo] TOPIC") || strings.Contains(l, "- KEY:") {
			rt.Fail("unreadable line %q", l)
		}
	}
	return
}

func gxLifetime(d time.Duration) time.Duration {
	if d <= 0 {
		return 24 * time.Hour
	}
	return (d + time.Second - 1) / time.Second * time.Second
}

var gxNames = []string{"", "mock", "redis", "kafka", "postgres"}
var gxOthers = []string{"Mock", "MOCK", "Redis", "REDIS", "Kafka", "kafka ", " mock", "mock2", "mysql", "postgresql", "Postgres", "pg", "none", "redis,kafka", "0", "\x00"}

var gxBatchesOf = [][]core.Commit{
	{{Key: "a", Vector: 5}},
	{{Key: "a", Vector: -7}, {Key: "b", Vector: 1}, {Key: "a", Vector: 2}},
	{{Key: "b", Vector: math.MaxInt64 - 9}, {Key: "c", Vector: 0}},
}

// selector: every adapter name with every combination of options.
func gxSelector() {
	rt.CaptureOutput()
	ttls := []time.Duration{0, -1, math.MinInt64, time.Second, 90 * time.Second, 48 * time.Hour, 1500 * time.Millisecond}
	topics := []string{"", "t", "orders.v2", "VSA-commits"}
	i := rt.Choose(len(gxNames)+len(gxOthers), false, "adapter")
	o := persistence.DemoOptions{RedisMarkerTTL: ttls[rt.Choose(len(ttls), false, "ttl")], KafkaTopic: topics[rt.Choose(len(topics), false, "topic")]}
	var srv *gxRedis
	if rt.Choose(2, false, "addr") == 1 {
		srv = gxRedisServer()
		o.RedisAddr = srv.addr
	}
	if i >= len(gxNames) || gxNames[i] == "postgres" {
		name := "postgres"
		if i >= len(gxNames) {
			name = gxOthers[i-len(gxNames)]
		}
		if p, err := persistence.BuildPersister(name, o); err == nil {
			rt.Fail("adapter %q is not refused: %T", name, p)
		}
		return
	}
	p, err := persistence.BuildPersister(gxNames[i], o)
	if err != nil {
		rt.Fail("adapter %q: %v", gxNames[i], err)
		return
	}
	var all []core.Commit
	for _, b := range gxBatchesOf {
		if err := p.CommitBatch(b); err != nil {
			rt.Fail("adapter %q: %v", gxNames[i], err)
		}
		all = append(all, b...)
	}
	if err := p.CommitBatch(nil); err != nil {
		rt.Fail("adapter %q: empty batch: %v", gxNames[i], err)
	}
	kind := gxNames[i]
	if kind == "" {
		kind = "mock"
	}
	gxReached(kind, o, srv, all, true, rt.Captured())
}

// reached compares what an adapter got with the commits (exact) or with their
// sums per key.
func gxReached(kind string, o persistence.DemoOptions, srv *gxRedis, all []core.Commit, exact bool, out string) {
	got := gxParse(out)
	if kind == "redis" && srv != nil {
		if len(got) > 0 {
			rt.Fail("commits are printed instead of going to the Redis server: %v", got)
		}
		counters, markers := srv.state()
		want := map[string]string{}
		for k, v := range gxSums(all) {
			want[k] = strconv.FormatInt(-v, 10)
		}
		if fmt.Sprint(counters) != fmt.Sprint(want) {
			rt.Fail("the Redis server holds %v, want %v", counters, want)
		}
		if exact && len(markers) != len(all) {
			rt.Fail("%d markers for %d commits", len(markers), len(all))
		}
		for k, d := range markers {
			if d != gxLifetime(o.RedisMarkerTTL) {
				rt.Fail("marker %s lives for %v, configured %v", k, d, o.RedisMarkerTTL)
			}
		}
		return
	}
	topic := o.KafkaTopic
	if topic == "" {
		topic = "vsa-commits"
	}
	gxIds := map[string]bool{}
	var commits []core.Commit
	for _, s := range got {
		if s.kind != kind {
			rt.Fail("a commit reaches adapter %s instead of %s", s.kind, kind)
		}
		if kind == "kafka" && s.topic != topic {
			rt.Fail("topic %q, configured %q", s.topic, o.KafkaTopic)
		}
		if kind == "redis" && s.life != gxLifetime(o.RedisMarkerTTL) {
			rt.Fail("marker lifetime %v, configured %v", s.life, o.RedisMarkerTTL)
		}
		if kind != "mock" && (s.id == "" || gxIds[s.id]) {
			rt.Fail("id %q is empty or used twice", s.id)
		}
		gxIds[s.id] = true
		commits = append(commits, core.Commit{Key: s.key, Vector: s.vector})
	}
	if exact && fmt.Sprint(commits) != fmt.Sprint(all) || fmt.Sprint(gxSums(commits)) != fmt.Sprint(gxSums(all)) {
		rt.Fail("committed %v, adapter %s got %v", all, kind, commits)
	}
}

func gxSums(cs []core.Commit) map[string]int64 {
	m := map[string]int64{}
	for _, c := range cs {
		m[c.Key] += c.Vector
	}
	return m
}

// strange: keys of any content reach a Redis server; lost replies and errors.
func gxStrange() {
	rt.CaptureOutput()
	srv := gxRedisServer()
	keys := []string{"", " ", "a b", "a:b", "%", "é", "\r\n", "\x00\xff", "*1\r\n$4\r\nPING\r\n", strings.Repeat("k", 70000)}
	p, err := persistence.BuildPersister("redis", persistence.DemoOptions{RedisAddr: srv.addr, RedisMarkerTTL: time.Minute})
	if err != nil {
		rt.Fail("%v", err)
		return
	}
	vs := []int64{1, -1, 0, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MinInt64 + 1}
	i, j := rt.Choose(len(keys), false, "key"), rt.Choose(len(vs), false, "vector")
	b := []core.Commit{{Key: keys[i], Vector: vs[j]}, {Key: "other", Vector: 3}}
	want := map[string]string{keys[i]: strconv.FormatInt(-vs[j], 10), "other": "-3"}
	// the server fails first
	mode := rt.Choose(3, false, "trouble")
	switch mode {
	case 1: // refuses writes
		srv.mu.Lock()
		srv.s.Full = true
		srv.mu.Unlock()
		if p.CommitBatch(b) == nil {
			rt.Fail("the server's error is not passed on")
		}
		if c, m := srv.state(); len(c)+len(m) > 0 {
			rt.Fail("a refused batch leaves %v %v", c, m)
		}
		srv.mu.Lock()
		srv.s.Full = false
		srv.mu.Unlock()
	case 2: // the reply is lost after the effect: the client may repeat the command
		if i > 1 {
			return
		}
		srv.mu.Lock()
		srv.drop = 1
		srv.mu.Unlock()
	}
	if err := p.CommitBatch(b); err != nil {
		rt.Fail("%v", err)
	}
	if c, _ := srv.state(); fmt.Sprint(c) != fmt.Sprint(want) {
		rt.Fail("the server holds %v, want %v", c, want)
	}
}

// unreachable: no server at the address is an error, not silence.
func gxUnreachable() {
	rt.CaptureOutput()
	for _, addr := range []string{"127.0.0.1:1", "nonsense"} {
		p, err := persistence.BuildPersister("redis", persistence.DemoOptions{RedisAddr: addr})
		if err == nil && p.CommitBatch([]core.Commit{{Key: "a", Vector: 1}}) == nil {
			rt.Fail("a commit to the unreachable server %s succeeds: %s", addr, rt.Captured())
		}
	}
}

// ---------------------------------------------------------------- the service

// service runs main with adapter flags, a few requests and a termination.
func gxService() {
	rt.CaptureOutput()
	flag.CommandLine = flag.NewFlagSet("ratelimiter-api", flag.PanicOnError)
	args := []string{"ratelimiter-api", "-vsa_hierarchical_groups=2", "-rate_limit=9", "-commit_threshold=2", "-commit_interval=10ms", "-eviction_interval=1h"}
	var o persistence.DemoOptions
	var srv *gxRedis
	o.RedisMarkerTTL, o.KafkaTopic = 24*time.Hour, "vsa-commits"
	k := rt.Choose(6, false, "adapter")
	kind := []string{"mock", "mock", "redis", "kafka", "postgres", "Kafka"}[k]
	if k > 0 {
		args = append(args, "-persistence_adapter="+kind)
	}
	if rt.Choose(2, false, "options") == 1 {
		o.RedisMarkerTTL, o.KafkaTopic = 90*time.Second, "t2"
		args = append(args, "-kafka_topic=t2", "-redis_marker_ttl=90s")
	}
	if k == 2 && rt.Choose(2, false, "addr") == 1 {
		srv = gxRedisServer()
		o.RedisAddr = srv.addr
		args = append(args, "-redis_addr="+srv.addr)
	}
	os.Args = args
	exited := -1
	rt.SetHook("onexit", func(code int, why string) {
		exited = code
		if k < 4 {
			rt.Fail("the process ended with status %d: %s", code, why)
		} else if code == 0 {
			rt.Fail("adapter %s: the process ends with status 0", kind)
		}
	})
	if k >= 4 {
		rt.GoNamed("service", func() {
			gomcUserMain()
			rt.Fail("the service ran with adapter %s", kind)
		})
		rt.Quiesce()
		if ghttp.Servers() != 0 {
			rt.Fail("the service listens with adapter %s", kind)
		}
		_ = exited
		return
	}
	main := rt.GoNamed("service", gomcUserMain)
	ghttp.WaitListening(":8080")
	var all []core.Commit
	for _, x := range [][]string{{"a", "a", "a", "b"}, {"b", "c"}, {"a"}} {
		for _, key := range x {
			if r := ghttp.Do(":8080", "GET", "/check?api_key="+key); r == nil || r.Code != 200 {
				rt.Fail("check(%s) is not admitted", key)
			}
			all = append(all, core.Commit{Key: key, Vector: 1})
		}
		rt.Sleep(11 * time.Millisecond)
	}
	if !ghttp.Raise(syscall.SIGTERM) {
		rt.Fail("SIGTERM is not handled")
	}
	main.Join()
	gxReached(kind, o, srv, all, false, rt.Captured())
}

func main() {
	hk.Main(hk.Check{ID: "C16",
		Rule:        "an execution is one sequence of batches through the shim, one schedule of concurrent callers, one combination of adapter and options, or one run of the service with adapter flags",
		Assumptions: []string{"crypto/rand delivers independent random bits", "the go-redis client is correct", "the demo clients' log lines are their effect"},
		Jobs: func(tier string) []hk.Job {
			size, f, p, n := 3, 1, 3, 400_000
			if tier == "thorough" {
				size, f, p, n = 4, 2, 5, 4_000_000
			}
			return []hk.Job{
				{Name: "mapping", Weight: 4, Bounds: hk.F(0, f), Body: gxMapping(size, 1)},
				{Name: "mapping-2", Weight: 5, Bounds: hk.F(0, f), Body: gxMapping(2, 2)},
				{Name: "errors", Weight: 1, Bounds: hk.P(0), Body: gxErrors},
				{Name: "lengths", Weight: 2, Seq: gxLengths},
				{Name: "concurrent", Weight: 5, Bounds: hk.P(p), Body: gxConcurrent(2, 3)},
				{Name: "concurrent-3", Weight: 5, Bounds: hk.P(p - 1), Body: gxConcurrent(3, 2)},
				{Name: "ids", Weight: 4, Seq: gxIds(n)},
				{Name: "selector", Weight: 3, Bounds: hk.P(0), Body: gxSelector},
				{Name: "redis-server", Weight: 3, Bounds: hk.P(0), Body: gxStrange},
				{Name: "unreachable", Weight: 1, Bounds: hk.P(0), Body: gxUnreachable},
				{Name: "service", Weight: 4, Bounds: hk.P(1), Body: gxService},
			}
		}})
}
