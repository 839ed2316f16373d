// C25: the public API is free of data races, and what is handed over stays as
// it was.
package main

import (
	"context"
	"flag"
	"fmt"
	"maps"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"time"

	"vsa"
	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/gomc/vh"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/internal/sinks"
	"vsa/plugin/tfd"
)

const gxMs = time.Millisecond

var gxScratch string

func gxDir() string {
	if gxScratch == "" {
		d, err := os.MkdirTemp("", "vsamc-public-")
		if err != nil {
			panic(err)
		}
		gxScratch = d
	}
	return gxScratch
}

func gxCleanup() {
	if strings.Contains(gxScratch, "vsamc-public-") {
		os.RemoveAll(gxScratch)
		gxScratch = ""
	}
}

// ---------------------------------------------------------------- races

// gxCall is one public operation.
type gxCall struct {
	name string
	f    func()
}

// gxFix is a fixture: the operations that threads may choose from and the end.
type gxFix struct {
	calls []gxCall
	fin   func()
}

// gxRace runs threads of some operations each, all choices of them.  The race
// detector watches; nothing else is judged.
func gxRace(threads, length int, mk func() gxFix) func() {
	return func() {
		rt.CaptureOutput()
		fx := mk()
		var hs []*rt.Handle
		lo := 0
		for t := 0; t < threads; t++ {
			var prog []gxCall
			for i := 0; i < length; i++ {
				from := 0
				if i == 0 {
					from = lo
				}
				c := from + rt.Choose(len(fx.calls)-from, false, fmt.Sprintf("call%d", t))
				if i == 0 {
					lo = c
				}
				prog = append(prog, fx.calls[c])
			}
			hs = append(hs, rt.GoNamed("caller", func() {
				for _, c := range prog {
					c.f()
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		if fx.fin != nil {
			fx.fin()
		}
	}
}

func gxVSA(o vsa.Options, init int64) func() gxFix {
	return func() gxFix {
		v := vsa.NewWithOptions(init, o)
		return gxFix{[]gxCall{
			{"Update(1)", func() { v.Update(1) }},
			{"Update(-1)", func() { v.Update(-1) }},
			{"TryConsume(1)", func() { v.TryConsume(1) }},
			{"TryRefund(1)", func() { v.TryRefund(1) }},
			{"Available", func() { v.Available() }},
			{"State", func() { v.State() }},
			{"CheckCommit+Commit", func() {
				if ok, n := v.CheckCommit(1); ok {
					v.Commit(n)
				}
			}},
			{"Commit(1)", func() { v.Commit(1) }},
			{"Close", func() { v.Close() }},
			{"sleep", func() { rt.Sleep(250 * time.Microsecond) }},
		}, v.Close}
	}
}

// gxStorage is a persister that takes a moment.
type gxStorage struct{ o rt.Object }

func (s *gxStorage) CommitBatch(cs []core.Commit) error {
	rt.Point(rt.KWrite, &s.o, true, nil)
	if rt.Choose(2, true, "storage") == 1 {
		return fmt.Errorf("storage failed")
	}
	return nil
}
func (s *gxStorage) PrintFinalMetrics() {}

func gxGet(mux http.Handler, path string) {
	mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", path, nil))
}

func gxService(o vsa.Options, mock, telemetry bool, only ...string) func() gxFix {
	return func() gxFix {
		if telemetry {
			churn.Enable(churn.Config{Enabled: true, SampleRate: 1, LogInterval: 10 * gxMs, Window: 20 * gxMs})
		}
		store := core.NewStoreWithOptions(2, o)
		mux := http.NewServeMux()
		api.NewServer(store, 2).RegisterRoutes(mux)
		var p core.Persister = &gxStorage{}
		if mock {
			p = core.NewMockPersister()
		}
		w := core.NewWorker(store, p, 1, 0, 10*gxMs, 15*gxMs, 12*gxMs, 10*gxMs)
		w.Start()
		gxGet(mux, "/check?api_key=a")
		gxGet(mux, "/check?api_key=b")
		fx := gxFix{calls: []gxCall{
			{"check a", func() { gxGet(mux, "/check?api_key=a") }},
			{"check c", func() { gxGet(mux, "/check?api_key=c") }},
			{"release a", func() { gxGet(mux, "/release?api_key=a") }},
			{"tick", func() { rt.Sleep(10 * gxMs) }},
			{"later", func() { rt.Sleep(21 * gxMs) }},
			{"Delete", func() { store.Delete("a") }},
			{"CloseAll", store.CloseAll},
			{"Stop", w.Stop},
		}}
		if only != nil {
			fx.calls = slices.DeleteFunc(fx.calls, func(c gxCall) bool { return !slices.Contains(only, c.name) })
		}
		if mock {
			fx.calls = append(fx.calls, gxCall{"PrintFinalMetrics", p.PrintFinalMetrics})
		}
		fx.fin = func() {
			w.Stop()
			p.PrintFinalMetrics()
			store.CloseAll()
			churn.Enable(churn.Config{})
		}
		return fx
	}
}

// gxEvict has the committer and the evictor work on the same idle keys while callers
// come back to them.
func gxEvict(threshold int64) func() gxFix {
	return func() gxFix {
		store := core.NewStore(5)
		mux := http.NewServeMux()
		api.NewServer(store, 5).RegisterRoutes(mux)
		p := &gxStorage{}
		w := core.NewWorker(store, p, threshold, 0, 10*gxMs, 15*gxMs, 12*gxMs, 10*gxMs)
		gxGet(mux, "/check?api_key=a")
		w.Start()
		at := func(path string) gxCall {
			return gxCall{path, func() { rt.Sleep(20 * gxMs); gxGet(mux, path) }}
		}
		return gxFix{[]gxCall{
			at("/check?api_key=a"), at("/release?api_key=a"), {"nothing", func() {}},
		}, func() { rt.Sleep(31 * gxMs); w.Stop(); store.CloseAll() }}
	}
}

func gxStore() gxFix {
	s := core.NewStore(3)
	return gxFix{[]gxCall{
		{"GetOrCreate(a).TryConsume", func() { s.GetOrCreate("a").TryConsume(1) }},
		{"GetOrCreate(b).Update", func() { s.GetOrCreate("b").Update(1) }},
		{"Delete(a)", func() { s.Delete("a") }},
		{"CloseAll", s.CloseAll},
	}, s.CloseAll}
}

func gxChurn() gxFix {
	on := churn.Config{Enabled: true, SampleRate: 1, LogInterval: 10 * gxMs, Window: 20 * gxMs}
	churn.Enable(on)
	half := on
	half.SampleRate, half.TopN = 0.5, 1
	return gxFix{[]gxCall{
		{"ObserveRequest(a)", func() { churn.ObserveRequest("a", true) }},
		{"ObserveRequest(b)", func() { churn.ObserveRequest("b", false) }},
		{"ObserveCommit(a)", func() { churn.ObserveBatch(1); churn.ObserveCommit("a", 2) }},
		{"ObserveCommitError", func() { churn.ObserveCommitError(1) }},
		{"Enabled", func() { churn.Enabled() }},
		{"tick", func() { rt.Sleep(10 * gxMs) }},
		{"Enable", func() { churn.Enable(half) }},
		{"disable", func() { churn.Enable(churn.Config{}) }},
	}, func() { churn.Enable(churn.Config{}) }}
}

func gxMetrics() gxFix {
	p, q := core.NewMockPersister(), core.NewMockPersister()
	return gxFix{[]gxCall{
		{"RecordAttempt", func() { core.RecordAttempt(1) }},
		{"RecordAdmit", func() { core.RecordAdmit(1) }},
		{"RecordRefund", func() { core.RecordRefund(1) }},
		{"SetThreshold", func() { core.SetThresholdInt64("commit_threshold", 3) }},
		{"SetThreshold2", func() { core.SetThresholdBool("churn_metrics", true) }},
		{"CommitBatch", func() { p.CommitBatch([]core.Commit{{Key: "a", Vector: 1}, {Key: "b", Vector: -1}}) }},
		{"CommitBatch2", func() { q.CommitBatch([]core.Commit{{Key: "a", Vector: 1}}) }},
		{"PrintFinalMetrics", p.PrintFinalMetrics},
	}, nil}
}

// gxClient stands for the clients of all adapters.
type gxClient struct{ o rt.Object }

func (c *gxClient) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	rt.Point(rt.KWrite, &c.o, true, nil)
	return int64(1), nil
}
func (c *gxClient) Produce(ctx context.Context, topic string, key, value []byte, h map[string]string) error {
	rt.Point(rt.KWrite, &c.o, true, nil)
	return nil
}

func gxAdapters() gxFix {
	c := &gxClient{}
	r := persistence.NewRedisPersister(c, time.Hour)
	k := persistence.NewKafkaPersister(c, "t")
	rs, ks := persistence.NewIdemShim(r), persistence.NewIdemShim(k)
	build := func(adapter string) core.Persister {
		p, err := persistence.BuildPersister(adapter, persistence.DemoOptions{})
		if err != nil {
			rt.Fail("%s: %v", adapter, err)
		}
		return p
	}
	dr, dk, dm := build("redis"), build("kafka"), build("mock")
	ab := []core.Commit{{Key: "a", Vector: 1}, {Key: "b", Vector: 2}}
	es := []persistence.CommitEntry{{Key: "a", Vector: 1, CommitID: "1"}, {Key: "b", Vector: 1, CommitID: "2"}}
	return gxFix{[]gxCall{
		{"redis", func() { r.CommitBatch(context.Background(), es) }},
		{"kafka", func() { k.CommitBatch(context.Background(), es) }},
		{"shim+redis", func() { rs.CommitBatch(ab) }},
		{"shim+kafka", func() { ks.CommitBatch(ab) }},
		{"demo redis", func() { dr.CommitBatch(ab) }},
		{"demo kafka", func() { dk.CommitBatch(ab) }},
		{"demo mock", func() { dm.CommitBatch(ab) }},
		{"final", func() { dm.PrintFinalMetrics(); dr.PrintFinalMetrics(); rs.PrintFinalMetrics() }},
		{"build", func() { build("redis").CommitBatch(ab[:1]) }},
	}, nil}
}

func gxScalar(key, bucket uint64, d int64) tfd.Envelope {
	return tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: key, Time: tfd.TimeFootprint{BucketID: bucket}, Scope: tfd.ChannelScalar}, Delta: d, SeqEnd: uint64(d)}
}

func gxVector(key, seq uint64) tfd.Envelope {
	return tfd.Envelope{Channel: tfd.ChannelVector, Footprint: tfd.Footprint{KeyID: key, Scope: tfd.ChannelVector}, Delta: 1, SeqEnd: seq}
}

// gxSink reads what it is given.
type gxSink struct{ o rt.Object }

func (s *gxSink) OnSBatches(b []tfd.SBatch) { rt.Point(rt.KWrite, &s.o, true, nil) }

func gxPipe(buffer, thresh int) func() gxFix {
	return func() gxFix {
		sv, err := sinks.NewVEnvFileSink(filepath.Join(gxDir(), "v.log"))
		if err != nil {
			panic(err)
		}
		p := tfd.NewPipeline(tfd.PipelineOptions{Shards: 2, OrderPow2: 2, CountThresh: thresh, TimeCap: gxMs, FlushInterval: 10 * gxMs, Buffer: buffer, VSA: tfd.SimpleVSA{}, SSink: &gxSink{}})
		p.Start()
		return gxFix{[]gxCall{
			{"scalar a", func() { p.Handle(gxScalar(1, 1, 1), nil) }},
			{"scalar b", func() { p.Handle(gxScalar(2, 1, -1), nil) }},
			{"vector a", func() { p.Handle(gxVector(1, 1), sv.Append) }},
			{"vector b", func() { p.Handle(gxVector(2, 1), sv.Append) }},
			{"FlushS", p.FlushS},
			{"DrainV a", func() { p.DrainV(1) }},
			{"tick", func() { rt.Sleep(10 * gxMs) }},
			{"Stop", p.Stop},
		}, func() { p.Stop(); sv.Close() }}
	}
}

func gxSServiceFix() gxFix {
	acc := tfd.NewSAccumulator(2, 1, 2, gxMs)
	s := tfd.NewSService(acc, tfd.SimpleVSA{}, &gxSink{}, tfd.SServiceOptions{Buffer: 1, FlushInterval: 10 * gxMs})
	s.Start()
	return gxFix{[]gxCall{
		{"Ingest", func() { s.Ingest(gxScalar(1, 1, 1)) }},
		{"Ingest2", func() { s.Ingest(gxScalar(2, 1, 1)); s.Ingest(gxScalar(1, 1, 2)) }},
		{"TryIngest", func() { s.TryIngest(gxScalar(3, 1, 1)) }},
		{"Flush", s.Flush},
		{"tick", func() { rt.Sleep(10 * gxMs) }},
		{"Stop", s.Stop},
	}, s.Stop}
}

func gxSinks() gxFix {
	s, err := sinks.NewSBatchFileSink(filepath.Join(gxDir(), "s.log"))
	if err != nil {
		panic(err)
	}
	v, err := sinks.NewVEnvFileSink(filepath.Join(gxDir(), "v.log"))
	if err != nil {
		panic(err)
	}
	bs := []tfd.SBatch{{KeyID: 1, BucketID: 2, NetDelta: 3, SeqEnd: 4}, {KeyID: 5}}
	vs := []tfd.Envelope{gxVector(1, 1), gxVector(2, 2)}
	return gxFix{[]gxCall{
		{"OnSBatches", func() { s.OnSBatches(bs) }},
		{"Append", func() { v.Append(vs[0]) }},
		{"AppendAll", func() { v.AppendAll(vs) }},
		{"S flush", func() { s.Flush() }},
		{"V flush", func() { v.Flush() }},
		{"pause", func() { rt.Sleep(150 * gxMs); s.OnSBatches(bs[:1]) }},
		{"S close", func() { s.Close() }},
		{"V close", func() { v.Close() }},
	}, func() { s.Close(); v.Close() }}
}

func gxLane() gxFix {
	r := tfd.NewVRouter()
	a := r.Route(1)
	return gxFix{[]gxCall{
		{"Route(1).Enqueue", func() { r.Route(1).Enqueue(gxVector(1, 1)) }},
		{"Route(2).Enqueue", func() { r.Route(2).Enqueue(gxVector(2, 1)) }},
		{"Enqueue", func() { a.Enqueue(gxVector(1, 7)) }},
		{"Drain", func() { a.Drain() }},
		{"Route(2).Drain", func() { r.Route(2).Drain() }},
	}, nil}
}

// gxProxy runs the whole proxy.
func gxProxy(requests ...string) func() {
	return func() {
		rt.CaptureOutput()
		sl, vl := filepath.Join(gxDir(), "ps.log"), filepath.Join(gxDir(), "pv.log")
		os.Remove(sl)
		os.Remove(vl)
		flag.CommandLine = flag.NewFlagSet("tfd-proxy", flag.PanicOnError)
		os.Args = []string{"tfd-proxy", "-s_log=" + sl, "-v_log=" + vl, "-shards=1", "-flush=1h", "-time_cap=1h"}
		main := rt.GoNamed("proxy", gomcUserMain)
		var hs []*rt.Handle
		lo := 0
		for i := 0; i < 2; i++ {
			lo += rt.Choose(len(requests)-lo, false, "request")
			q := requests[lo]
			hs = append(hs, rt.GoNamed("client", func() {
				ghttp.WaitListening(":9090")
				ghttp.Do(":9090", "GET", q)
			}))
		}
		hs = append(hs, rt.GoNamed("signaller", func() {
			ghttp.WaitListening(":9090")
			ghttp.Raise(syscall.SIGTERM)
		}))
		main.Join()
		ghttp.Down()
		for _, h := range hs {
			h.Join()
		}
	}
}

// ---------------------------------------------------------------- hand-over

// gxKept are values that were handed over, with copies of what they were.
type gxKept struct{ checks []func() string }

func (k *gxKept) verify() {
	for _, f := range k.checks {
		if m := f(); m != "" {
			rt.Fail("%s", m)
		}
	}
}

func gxKeep[T comparable](k *gxKept, what string, s []T) {
	was := slices.Clone(s)
	k.checks = append(k.checks, func() string {
		if !slices.Equal(was, s) {
			return fmt.Sprintf("%s handed over as %v became %v", what, was, s)
		}
		return ""
	})
}

func (k *gxKept) CommitBatch(cs []core.Commit) error {
	gxKeep(k, "commits", cs)
	if rt.Choose(2, true, "storage") == 1 {
		return fmt.Errorf("storage failed")
	}
	return nil
}
func (k *gxKept) PrintFinalMetrics() {}

func (k *gxKept) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	gxKeep(k, "keys of a script", keys)
	gxKeep(k, "arguments of a script", args)
	return int64(1), nil
}

func (k *gxKept) Produce(ctx context.Context, topic string, key, value []byte, h map[string]string) error {
	gxKeep(k, "key of a message", key)
	gxKeep(k, "value of a message", value)
	was := maps.Clone(h)
	k.checks = append(k.checks, func() string {
		if !maps.Equal(was, h) {
			return fmt.Sprintf("headers of a message handed over as %v became %v", was, h)
		}
		return ""
	})
	return nil
}

func (k *gxKept) OnSBatches(b []tfd.SBatch) { gxKeep(k, "batches", b) }

// gxEntries passes entries on to two adapters.
type gxEntries struct {
	k  *gxKept
	to []persistence.IdempotentPersister
}

func (e gxEntries) CommitBatch(ctx context.Context, es []persistence.CommitEntry) error {
	gxKeep(e.k, "entries", es)
	for _, t := range e.to {
		if err := t.CommitBatch(ctx, es); err != nil {
			return err
		}
	}
	return nil
}

// gxHand runs all sequences of some calls; after each one all that was handed
// over so far must be as it was.
func gxHand(length int, mk func(k *gxKept) gxFix) func() {
	return func() {
		rt.CaptureOutput()
		k := &gxKept{}
		fx := mk(k)
		for i := 0; i < length; i++ {
			fx.calls[rt.Choose(len(fx.calls), false, "call")].f()
			k.verify()
		}
		fx.fin()
		k.verify()
	}
}

func gxHandWorker(k *gxKept) gxFix {
	store := core.NewStore(5)
	mux := http.NewServeMux()
	api.NewServer(store, 5).RegisterRoutes(mux)
	w := core.NewWorker(store, k, 1, 0, 10*gxMs, 0, 25*gxMs, 10*gxMs)
	w.Start()
	return gxFix{[]gxCall{
		{"a", func() { gxGet(mux, "/check?api_key=a") }},
		{"b", func() { gxGet(mux, "/check?api_key=b") }},
		{"tick", func() { rt.Sleep(10 * gxMs); rt.Quiesce() }},
		{"idle", func() { rt.Sleep(30 * gxMs); rt.Quiesce() }},
	}, func() { w.Stop(); rt.Quiesce() }}
}

func gxHandAdapters(k *gxKept) gxFix {
	s := persistence.NewIdemShim(gxEntries{k, []persistence.IdempotentPersister{persistence.NewRedisPersister(k, time.Hour), persistence.NewKafkaPersister(k, "t")}})
	give := func(cs ...core.Commit) func() {
		return func() {
			gxKeep(k, "commits", cs)
			s.CommitBatch(cs)
		}
	}
	return gxFix{[]gxCall{
		{"a", give(core.Commit{Key: "a", Vector: 1})},
		{"bc", give(core.Commit{Key: "b", Vector: 2}, core.Commit{Key: "c", Vector: -7})},
		{"abcd", give(core.Commit{Key: "a", Vector: 1}, core.Commit{Key: "b", Vector: 9}, core.Commit{Key: "longer key", Vector: 1 << 40}, core.Commit{Key: "d", Vector: -1})},
		{"time", func() { rt.Sleep(gxMs) }},
	}, func() {}}
}

func gxHandPipe(k *gxKept) gxFix {
	p := tfd.NewPipeline(tfd.PipelineOptions{Shards: 2, OrderPow2: 1, CountThresh: 2, TimeCap: gxMs, FlushInterval: 10 * gxMs, Buffer: 4, VSA: tfd.SimpleVSA{}, SSink: k})
	p.Start()
	seq := uint64(0)
	return gxFix{[]gxCall{
		{"scalar a", func() { seq++; p.Handle(gxScalar(1, 1, int64(seq)), nil) }},
		{"scalar b", func() { seq++; p.Handle(gxScalar(2, 1, int64(seq)), nil) }},
		{"scalar c", func() { seq++; p.Handle(gxScalar(3, 5, -int64(seq)), nil) }},
		{"vector", func() {
			seq++
			p.Handle(gxVector(1, seq), func(e tfd.Envelope) { gxKeep(k, "envelope", []tfd.Envelope{e}) })
		}},
		{"FlushS", p.FlushS},
		{"tick", func() { rt.Sleep(10 * gxMs); rt.Quiesce() }},
		{"DrainV", func() { gxKeep(k, "drained envelopes", p.DrainV(1)) }},
	}, func() { p.Stop(); gxKeep(k, "drained envelopes", p.DrainV(1)) }}
}

func gxHandAcc(k *gxKept) gxFix {
	a := tfd.NewSAccumulator(2, 1, 2, gxMs)
	seq := int64(0)
	fs, err := sinks.NewSBatchFileSink(filepath.Join(gxDir(), "hs.log"))
	if err != nil {
		panic(err)
	}
	fv, err := sinks.NewVEnvFileSink(filepath.Join(gxDir(), "hv.log"))
	if err != nil {
		panic(err)
	}
	return gxFix{[]gxCall{
		{"a", func() { seq++; a.Ingest(gxScalar(1, 1, seq)) }},
		{"b", func() { seq++; a.Ingest(gxScalar(2, 1, seq)) }},
		{"c", func() { seq++; a.Ingest(gxScalar(3, 5, -seq)) }},
		{"FlushAll", func() { b := a.FlushAll(); gxKeep(k, "batches", b); fs.OnSBatches(b); fs.Flush() }},
		{"AppendAll", func() {
			vs := []tfd.Envelope{gxVector(1, uint64(seq)), gxVector(2, 3)}
			gxKeep(k, "envelopes", vs)
			fv.AppendAll(vs)
			fv.Flush()
		}},
		{"time", func() { rt.Sleep(2 * gxMs) }},
	}, func() { fs.Close(); fv.Close() }}
}

func gxJobs(tier string) []hk.Job {
	more := 0
	if tier == "thorough" {
		more = 1
	}
	var js []hk.Job
	race := func(name string, weight int, b []rt.Budget, body func()) {
		js = append(js, hk.Job{Name: "race/" + name, Weight: weight, Bounds: b, Body: body, Race: true})
	}
	for _, c := range append(vh.Exact(), vh.Cached()...) {
		o := c.Opt
		if o.UseCachedGate {
			o.CacheInterval = 100 * time.Microsecond
		}
		race("accumulator/"+c.Name, 3, hk.P(1+more), gxRace(2, 1+more, gxVSA(o, 2)))
	}
	race("accumulator/three", 3, hk.P(more), gxRace(3, 1, gxVSA(vsa.Options{HierarchicalGroups: 2}, 1)))
	race("store", 3, hk.P(2+more), gxRace(2, 2, gxStore))
	race("service", 6, hk.P(more), gxRace(2, 2, gxService(vsa.Options{HierarchicalGroups: 2}, false, false, "check a", "release a", "later", "Stop")))
	race("service/calls", 6, hk.P(1+more), gxRace(2, 1, gxService(vsa.Options{HierarchicalGroups: 2}, false, false)))
	race("service/ticks", 4, append(hk.P(more), rt.Budget{T: 1 + more}), gxRace(2, 1, gxService(vsa.Options{HierarchicalGroups: 2}, false, false)))
	race("service/eviction", 4, append(append(hk.F(more, 1), rt.Budget{T: 1}, rt.Budget{P: 1}), rt.Budget{P: 1, T: 1, F: more}), gxRace(1, 1, gxEvict(9)))
	race("service/eviction-failing", 3, append(hk.F(0, 1), rt.Budget{P: more, F: 2}), gxRace(1, 1, gxEvict(1)))
	race("service/mock", 4, hk.P(more), gxRace(2, 1+more, gxService(vsa.Options{HierarchicalGroups: 2, FastPathGuard: 1}, true, true)))
	race("service/telemetry", 4, hk.P(more), gxRace(2, 1+more, gxService(vsa.Options{HierarchicalGroups: 2, UseCachedGate: true, CacheInterval: 5 * gxMs}, false, true)))
	race("telemetry", 5, append(hk.P(1+more), rt.Budget{P: more, T: 1}), gxRace(2, 1+more, gxChurn))
	race("telemetry/three", 3, hk.P(more), gxRace(3, 1, gxChurn))
	race("metrics", 3, hk.P(1+more), gxRace(2, 2, gxMetrics))
	race("adapters", 3, hk.P(1+more), gxRace(2, 1, gxAdapters))
	race("pipeline", 6, append(hk.P(more), rt.Budget{T: 1}), gxRace(2, 2, gxPipe(1, 1)))
	race("pipeline/calls", 6, hk.P(2+more), gxRace(2, 1, gxPipe(1, 1)))
	race("scalar-service", 4, hk.P(more), gxRace(2, 2, gxSServiceFix))
	race("scalar-service/three", 4, hk.P(1+more), gxRace(3, 1, gxSServiceFix))
	race("logs", 4, hk.P(1+more), gxRace(2, 1+more, gxSinks))
	race("vector-lane", 3, hk.P(2+more), gxRace(2, 2, gxLane))
	race("proxy", 4, hk.P(1+more), gxProxy("/consume?key=a", "/reverse?key=a", "/set_limit?key=b", "/state", "/state?key=a&sum=1", "/healthz"))
	for _, h := range []struct {
		name string
		n    int
		mk   func(*gxKept) gxFix
	}{{"worker", 5, gxHandWorker}, {"adapters", 4, gxHandAdapters}, {"pipeline", 5, gxHandPipe}, {"accumulator", 6, gxHandAcc}} {
		b := hk.P(0)
		if h.name == "worker" {
			b = hk.F(0, 1+more)
		}
		js = append(js, hk.Job{Name: "hand-over/" + h.name, Weight: 4, Bounds: b, Body: gxHand(h.n+more, h.mk)})
	}
	return js
}

func main() {
	hk.OnExit = gxCleanup
	hk.Main(hk.Check{ID: "C25",
		Rule:        "an execution is one schedule of two or three threads of public operations under the happens-before race detector, or one sequence of operations after which all values handed over are compared with copies",
		Assumptions: []string{"races are judged per execution by vector clocks over the synchronisation that the code performs", "two or three threads, up to two operations each"},
		Jobs:        gxJobs})
}
