// C11: the HTTP API enforces the per-key limit and reports it faithfully.
package main

import (
	"context"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"time"

	"vsa"
	"vsa/internal/gomc/ghttp"
	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/gomc/vh"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
)

type failer func(format string, a ...any)

// service is one API server on one store.
type service struct {
	store *core.Store
	mux   *http.ServeMux
	limit int64
	fail  failer
}

func newService(limit int64, o vsa.Options, fail failer) *service {
	s := &service{store: core.NewStoreWithOptions(limit, o), mux: http.NewServeMux(), limit: limit, fail: fail}
	api.NewServer(s.store, limit).RegisterRoutes(s.mux)
	return s
}

func (s *service) get(path string) *http.Response {
	rec := httptest.NewRecorder()
	s.mux.ServeHTTP(rec, httptest.NewRequest("GET", path, nil))
	return rec.Result()
}

func q(key string) string { return "?api_key=" + url.QueryEscape(key) }

// answer validates one answer to a check and returns whether it admitted and
// the remaining count.
func (s *service) answer(what string, r *http.Response) (bool, int64) {
	return verdict(s.fail, s.limit, what, r)
}

func verdict(fail failer, limit int64, what string, r *http.Response) (bool, int64) {
	h := r.Header
	ok := r.StatusCode == 200
	if !ok && r.StatusCode != 429 {
		fail("%s answered %d", what, r.StatusCode)
	}
	want := map[bool]string{true: "OK", false: "Exceeded"}[ok]
	if g := h.Get("X-RateLimit-Status"); g != want {
		fail("%s answered %d with status header %q", what, r.StatusCode, g)
	}
	if g := h.Get("X-RateLimit-Limit"); g != strconv.FormatInt(limit, 10) {
		fail("%s answered with limit header %q, the limit is %d", what, g, limit)
	}
	n, err := strconv.ParseInt(h.Get("X-RateLimit-Remaining"), 10, 64)
	if err != nil || n < 0 {
		fail("%s answered with remaining header %q", what, h.Get("X-RateLimit-Remaining"))
	}
	for _, k := range []string{"X-Ratelimit-Status", "X-Ratelimit-Limit", "X-Ratelimit-Remaining"} {
		if len(h[k]) != 1 {
			fail("%s answered with %d %s headers", what, len(h[k]), k)
		}
	}
	if ra := h.Get("Retry-After"); !ok {
		if v, err := strconv.Atoi(ra); err != nil || v < 0 {
			fail("%s refused with Retry-After %q", what, ra)
		}
	}
	return ok, n
}

// ---------------------------------------------------------------- sequences

// model of one key
type cell struct{ s, n int64 }

func (c *cell) avail() int64 {
	if c.n < 0 {
		return c.s + c.n
	}
	return c.s - c.n
}

var ops = []string{"+a", "+b", "-a", "-b", "+?", "-=", "Ka"}

// step performs one operation on the service and the model and compares.
func (s *service) step(m map[string]*cell, op string, trace func() string) {
	k := op[1:]
	of := func() *cell {
		if m[k] == nil {
			m[k] = &cell{s: s.limit}
		}
		return m[k]
	}
	switch {
	case k == "?" || k == "=":
		path := map[byte]string{'+': "/check", '-': "/release"}[op[0]]
		if k == "=" {
			path += "?api_key="
		}
		if r := s.get(path); r.StatusCode != 400 {
			s.fail("%s: a request without a key was answered %d", trace(), r.StatusCode)
		}
		s.keys(m, trace)
	case op[0] == '+':
		c := of()
		ok, left := s.answer(trace(), s.get("/check"+q(k)))
		if ok != (c.avail() >= 1) {
			s.fail("%s: admitted=%v with %d available", trace(), ok, c.avail())
		}
		if ok {
			c.n++
		}
		if left != c.avail() {
			s.fail("%s: remaining %d reported, %d are available", trace(), left, c.avail())
		}
	case op[0] == '-':
		c := of()
		if c.n > 0 {
			c.n--
		}
		if r := s.get("/release" + q(k)); r.StatusCode != 204 {
			s.fail("%s: release answered %d", trace(), r.StatusCode)
		}
	case op[0] == 'K':
		c := of()
		c.s -= c.n
		v := s.store.GetOrCreate(k)
		_, n := v.State()
		if n != c.n {
			s.fail("%s: pending %d, want %d", trace(), n, c.n)
		}
		v.Commit(n)
		c.n = 0
	}
}

// keys compares the store's content with the model.
func (s *service) keys(m map[string]*cell, trace func() string) {
	n := 0
	for k, c := range m {
		n++
		if sc, v := s.store.GetOrCreate(k).State(); sc != c.s || v != c.n {
			s.fail("%s: key %q is (%d,%d), want (%d,%d)", trace(), k, sc, v, c.s, c.n)
		}
	}
	if g := count(s.store); g != n {
		s.fail("%s: the store holds %d keys, want %d", trace(), g, n)
	}
}

func sequences(o vsa.Options, limits []int64, length int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		q.Bound("all sequences of %d requests over %v, limits %v", length, ops, limits)
		for _, lim := range limits {
			idx := make([]int, length)
			for {
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				s := newService(lim, o, q.Fail)
				m := map[string]*cell{}
				i := 0
				tr := func() string {
					var b []string
					for j := 0; j <= i && j < length; j++ {
						b = append(b, ops[idx[j]])
					}
					return fmt.Sprintf("limit %d: %s", lim, strings.Join(b, " "))
				}
				for ; i < length; i++ {
					s.step(m, ops[idx[i]], tr)
				}
				i = length - 1
				s.keys(m, tr)
				s.store.CloseAll()
				h := uint64(lim)
				for _, k := range []string{"a", "b"} {
					if c := m[k]; c != nil {
						h = rt.Mix(h, rt.Mix(uint64(c.s)*64, uint64(c.n)+3))
					} else {
						h = rt.Mix(h, 5)
					}
				}
				q.Case()
				q.Step(length)
				q.State(h)
				if q != nil && idx[0] == 1 && idx[length-1] == 2 {
					q.Sample("%s -> %v", tr(), *mOf(m, "a"))
				}
				j := length - 1
				for j >= 0 {
					idx[j]++
					if idx[j] < len(ops) {
						break
					}
					idx[j] = 0
					j--
				}
				if j < 0 {
					break
				}
			}
		}
	}
}

func mOf(m map[string]*cell, k string) *cell {
	if m[k] == nil {
		return &cell{}
	}
	return m[k]
}

// long runs: a key is admitted exactly limit times, for limits of any size.
func longRuns(q *hk.Seq) {
	limits := []int64{0, 1, 2, 3, 7, 8, 63, 64, 65, 100, 255, 256, 257, 1000, 1024, 1025}
	big := []int64{1 << 31, 1<<31 + 1, 1 << 32, 1<<53 + 1, 1<<62 + 3}
	opts := []vsa.Options{{}, {HierarchicalGroups: 2}, {FastPathGuard: 8}, {GroupCount: 4, GroupSlack: 2}, {Stripes: 64, PerPUpdateChooser: true}}
	q.Bound("limits %v consumed to the end, released to the end and consumed again; the first requests of limits %v; %d option sets", limits, big, len(opts))
	for oi, o := range opts {
		for _, lim := range limits {
			s := newService(lim, o, q.Fail)
			for round := 0; round < 2; round++ {
				for i := int64(0); i < lim+3; i++ {
					w := fmt.Sprintf("options %d, limit %d, check %d of round %d", oi, lim, i, round)
					ok, left := s.answer(w, s.get("/check?api_key=k"))
					want := lim - 1 - i
					if want < 0 {
						want = 0
					}
					if ok != (i < lim) || left != want {
						q.Fail("%s: admitted=%v remaining=%d", w, ok, left)
					}
					q.Step(1)
				}
				for i := int64(0); i < lim+2 && round == 0; i++ {
					if c := s.get("/release?api_key=k").StatusCode; c != 204 {
						q.Fail("release answered %d", c)
					}
				}
			}
			q.Case()
			q.State(rt.Mix(uint64(oi), uint64(lim)))
			s.store.CloseAll()
		}
		for _, lim := range big {
			s := newService(lim, o, q.Fail)
			for i := int64(0); i < 5; i++ {
				ok, left := s.answer("check", s.get("/check?api_key=k"))
				if !ok || left != lim-1-i {
					q.Fail("limit %d, check %d: admitted=%v remaining=%d", lim, i, ok, left)
				}
			}
			if v := s.store.GetOrCreate("k"); !v.TryConsume(lim - 6) {
				q.Fail("limit %d: %d of %d units refused", lim, lim-6, lim-5)
			}
			for i := 0; i < 4; i++ {
				if i == 2 {
					s.get("/release?api_key=k")
				}
				ok, left := s.answer("check", s.get("/check?api_key=k"))
				if ok != (i%2 == 0) || left != 0 {
					q.Fail("limit %d, check %d at its end: admitted=%v remaining=%d", lim, i, ok, left)
				}
			}
			q.Case()
			s.store.CloseAll()
		}
	}
}

// distinctKeys: exhausting one key leaves every other key untouched.
func distinctKeys(q *hk.Seq) {
	keys := append(hk.Names(), "api_key", "tenant:a", "tenant:b")
	q.Bound("all ordered pairs of %d keys", len(keys))
	for _, a := range keys {
		for _, b := range keys {
			if a == b {
				continue
			}
			s := newService(2, vsa.Options{HierarchicalGroups: 2}, q.Fail)
			for i := 0; i < 4; i++ {
				ok, _ := s.answer(fmt.Sprintf("check %q", a), s.get("/check"+qk(a)))
				if ok != (i < 2) {
					q.Fail("key %q: check %d admitted=%v, the limit is 2", a, i, ok)
				}
			}
			s.get("/release" + qk(a))
			if ok, left := s.answer(fmt.Sprintf("check %q", b), s.get("/check"+qk(b))); !ok || left != 1 {
				q.Fail("key %q answered admitted=%v remaining=%d after traffic on key %q only", b, ok, left, a)
			}
			if ok, left := s.answer(fmt.Sprintf("check %q", a), s.get("/check"+qk(a))); !ok || left != 0 {
				q.Fail("key %q: admitted=%v remaining=%d after a release", a, ok, left)
			}
			q.Case()
			q.Step(7)
			q.State(rt.Mix(uint64(len(a)), uint64(len(b))*7+uint64(a[0])))
		}
	}
}

func qk(k string) string { return q(k) }

// requestShapes: whatever the method, the body, further parameters or the state
// of the client, a request acts on the first api_key of its query, once.
func requestShapes(q *hk.Seq) {
	type shape struct {
		name, method, query, body string
		gone                      bool
		key                       string // "": refused
	}
	var shapes []shape
	for _, m := range []string{"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS"} {
		for _, gone := range []bool{false, true} {
			shapes = append(shapes,
				shape{"plain", m, "?api_key=a", "", gone, "a"},
				shape{"body with another key", m, "?api_key=a", "api_key=b", gone, "a"},
				shape{"two keys", m, "?api_key=a&api_key=b", "", gone, "a"},
				shape{"key after others", m, "?x=b&api_key=a&y=b", "", gone, "a"},
				shape{"key only in the body", m, "", "api_key=b", gone, ""},
				shape{"empty first key", m, "?api_key=&api_key=b", "", gone, ""},
				shape{"other case", m, "?API_KEY=b", "", gone, ""},
				shape{"no query", m, "", "", gone, ""},
			)
		}
	}
	q.Bound("%d request shapes on /check and /release in every pair", len(shapes))
	for _, c := range shapes {
		for _, r := range shapes {
			s := newService(2, vsa.Options{HierarchicalGroups: 2}, q.Fail)
			send := func(path string, x shape) *http.Response {
				req := httptest.NewRequest(x.method, path+x.query, strings.NewReader(x.body))
				if x.body != "" {
					req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				}
				req.Header.Set("X-Api-Key", "b")
				if x.gone {
					ctx, cancel := context.WithCancel(req.Context())
					cancel()
					req = req.WithContext(ctx)
				}
				rec := httptest.NewRecorder()
				s.mux.ServeHTTP(rec, req)
				return rec.Result()
			}
			what := fmt.Sprintf("check %+v", c)
			res := send("/check", c)
			m := map[string]*cell{}
			trace := func() string { return what }
			if c.key == "" {
				if res.StatusCode != 400 {
					q.Fail("%s was answered %d", what, res.StatusCode)
				}
			} else {
				m[c.key] = &cell{s: 2, n: 1}
				if ok, left := s.answer(what, res); !ok || left != 1 {
					q.Fail("%s: admitted=%v remaining=%d", what, ok, left)
				}
			}
			s.keys(m, trace)
			what = fmt.Sprintf("check %+v then release %+v", c, r)
			res = send("/release", r)
			if want := map[bool]int{true: 400, false: 204}[r.key == ""]; res.StatusCode != want {
				q.Fail("%s was answered %d, not %d", what, res.StatusCode, want)
			}
			if r.key != "" {
				m[r.key] = &cell{s: 2}
			}
			s.keys(m, trace)
			s.store.CloseAll()
			q.Case()
			q.Step(2)
			q.State(rt.Mix(uint64(len(c.name)), uint64(len(r.name))*64+uint64(len(c.method)*8+len(r.method))))
		}
	}
}

// ---------------------------------------------------------------- interleavings

type config struct {
	name string
	o    vsa.Options
	spec vh.Spec
}

func configs() []config {
	return []config{
		{"hier2", vsa.Options{HierarchicalGroups: 2}, vh.Spec{}},
		{"fast", vsa.Options{HierarchicalGroups: 2, FastPathGuard: 1}, vh.Spec{Fast: true}},
		{"grouped", vsa.Options{HierarchicalGroups: 2, GroupCount: 2, GroupSlack: 1}, vh.Spec{}},
	}
}

// client performs requests recorded in the histories of their keys.
func (s *service) client(h map[string]*vh.History, prog string) {
	for _, op := range strings.Fields(prog) {
		k := op[1:]
		switch {
		case k == "?":
			if r := s.get("/check"); r.StatusCode != 400 {
				rt.Fail("a check without a key was answered %d", r.StatusCode)
			}
		case op[0] == '+':
			h[k].Call('C', func() (bool, int64, bool) {
				ok, left := s.answer("check "+k, s.get("/check"+q(k)))
				return ok, left, true
			})
		case op[0] == '-':
			h[k].Call('L', func() (bool, int64, bool) {
				if r := s.get("/release" + q(k)); r.StatusCode != 204 {
					rt.Fail("release answered %d", r.StatusCode)
				}
				return true, 0, false
			})
		case op[0] == 'K': // what the background worker does
			_, n := h[k].State()
			h[k].Commit(n)
		}
	}
}

type program struct {
	name    string
	limit   []int64
	setup   []string
	clients [][]string
	p       int
}

func programs(tier string) []program {
	ps := []program{
		{"last-unit", []int64{1, 2}, []string{"", "+a"}, [][]string{{"+a", "+a +a"}, {"+a", "-a +a"}}, 3},
		{"release", []int64{1, 2}, []string{"+a", "+a +a", ""}, [][]string{{"-a", "-a -a", "+a -a"}, {"+a", "-a", "+a +a"}}, 3},
		{"three", []int64{1, 2}, []string{""}, [][]string{{"+a"}, {"+a"}, {"+a", "-a"}}, 2},
		{"commit", []int64{2, 3}, []string{"+a"}, [][]string{{"+a", "+a -a", "-a"}, {"Ka"}}, 3},
		{"two-keys", []int64{1}, []string{"", "+a"}, [][]string{{"+a +b"}, {"+b +a", "-a +b"}, {"+?"}}, 2},
	}
	if tier == "thorough" {
		for i := range ps {
			ps[i].p++
		}
		ps = append(ps, program{"commit-three", []int64{2}, []string{"+a"}, [][]string{{"+a", "-a"}, {"+a"}, {"Ka"}}, 2})
	}
	return ps
}

func body(c config, p program) func() {
	return func() {
		s := newService(p.limit[rt.Choose(len(p.limit), false, "limit")], c.o, rt.Fail)
		h := map[string]*vh.History{}
		pre := p.setup[rt.Choose(len(p.setup), false, "setup")]
		fresh := rt.Choose(2, false, "first-access") == 0
		for _, k := range []string{"a", "b"} {
			h[k] = &vh.History{Init: s.limit, Spec: c.spec}
			if !fresh || k == "a" && strings.Contains(fmt.Sprint(p.clients), "Ka") {
				h[k].V = s.store.GetOrCreate(k)
			}
		}
		s.client(h, pre)
		var hs []*rt.Handle
		for i, al := range p.clients {
			prog := al[rt.Choose(len(al), false, fmt.Sprintf("client%d", i))]
			hs = append(hs, rt.GoNamed(prog, func() { s.client(h, prog) }))
		}
		for _, x := range hs {
			x.Join()
		}
		s.client(h, "+a +a +b")
		h["a"].Check("key a")
		h["b"].Check("key b")
		if n := count(s.store); n != 2 {
			rt.Fail("the store holds %d keys, want 2", n)
		}
		s.store.CloseAll()
	}
}

// cached: the cached gate may refuse, never admit too much or report wrongly.
func cached() {
	s := newService(2, vsa.Options{HierarchicalGroups: 2, UseCachedGate: true, CacheInterval: time.Millisecond}, rt.Fail)
	h := map[string]*vh.History{"a": {Init: 2, Spec: vh.Spec{WeakDenial: true}}}
	progs := []string{"+a", "+a +a", "+a -a"}
	var hs []*rt.Handle
	for i := 0; i < 2; i++ {
		prog := progs[rt.Choose(len(progs), false, "client")]
		hs = append(hs, rt.GoNamed(prog, func() { s.client(h, prog) }))
	}
	for _, x := range hs {
		x.Join()
	}
	s.client(h, "+a")
	h["a"].Check("cached gate")
	s.store.CloseAll()
}

// nop is a storage that accepts everything.
type nop struct{}

func (nop) CommitBatch([]core.Commit) error { return nil }
func (nop) PrintFinalMetrics()              {}

// withWorker: sequences of requests while the real worker commits every 10 ms.
func withWorker() {
	s := newService(4, vsa.Options{HierarchicalGroups: 2}, rt.Fail)
	w := core.NewWorker(s.store, nop{}, 2, 0, 10*time.Millisecond, 0, time.Hour, time.Hour)
	w.Start()
	rt.Quiesce()
	m := cell{s: 4}
	var tr []string
	for i := 0; i < 7; i++ {
		op := []string{"+", "-", "z"}[rt.Choose(3, false, "op")]
		tr = append(tr, op)
		what := strings.Join(tr, " ")
		switch op {
		case "+":
			ok, left := s.answer(what, s.get("/check?api_key=a"))
			if ok != (m.avail() >= 1) {
				rt.Fail("%s: admitted=%v with %d available", what, ok, m.avail())
			}
			if ok {
				m.n++
			}
			if left != m.avail() {
				rt.Fail("%s: remaining %d reported, %d available", what, left, m.avail())
			}
		case "-":
			if m.n > 0 {
				m.n--
			}
			if r := s.get("/release?api_key=a"); r.StatusCode != 204 {
				rt.Fail("%s: release answered %d", what, r.StatusCode)
			}
		case "z":
			rt.Sleep(10 * time.Millisecond)
			rt.Quiesce()
			if m.n >= 2 {
				m.s, m.n = m.s-m.n, 0
			}
		}
	}
	w.Stop()
	s.store.CloseAll()
}

// listening: the same answers through the listening server.
func listening() {
	st := core.NewStoreWithOptions(2, vsa.Options{HierarchicalGroups: 2})
	rt.GoNamed("server", func() { api.NewServer(st, 2).ListenAndServe(":99") })
	ghttp.WaitListening(":99")
	for i := 0; i < 4; i++ {
		rec := ghttp.Do(":99", "GET", "/check?api_key=a")
		if rec == nil {
			rt.Fail("the server refuses connections")
		}
		ok, left := verdict(rt.Fail, 2, "check", rec.Result())
		if ok != (i < 2) || ok && left != int64(1-i) {
			rt.Fail("check %d over the listener: admitted=%v remaining=%d", i, ok, left)
		}
	}
	if rec := ghttp.Do(":99", "GET", "/release?api_key=a"); rec.Code != 204 {
		rt.Fail("release over the listener: %d", rec.Code)
	}
	if rec := ghttp.Do(":99", "POST", "/check?api_key=a"); rec.Code != 200 {
		rt.Fail("POST check over the listener after a release: %d", rec.Code)
	}
	if rec := ghttp.Do(":99", "GET", "/check"); rec.Code != 400 {
		rt.Fail("check without a key over the listener: %d", rec.Code)
	}
	if rec := ghttp.Do(":99", "GET", "/release?api_key="); rec.Code != 400 {
		rt.Fail("release without a key over the listener: %d", rec.Code)
	}
}

func jobs(tier string) []hk.Job {
	n := 5
	if tier == "thorough" {
		n = 7
	}
	js := []hk.Job{
		{Name: "sequences/hier2", Weight: 5, Seq: sequences(vsa.Options{HierarchicalGroups: 2}, []int64{0, 1, 2, 3}, n)},
		{Name: "sequences/default", Weight: 5, Seq: sequences(vsa.Options{}, []int64{1, 2}, n)},
		{Name: "sequences/fast", Weight: 5, Seq: sequences(vsa.Options{HierarchicalGroups: 2, FastPathGuard: 1}, []int64{1, 2, 3}, n)},
		{Name: "sequences/grouped", Weight: 5, Seq: sequences(vsa.Options{HierarchicalGroups: 2, GroupCount: 2, GroupSlack: 1}, []int64{1, 2}, n)},
		{Name: "long-runs", Weight: 2, Seq: longRuns},
		{Name: "distinct-keys", Weight: 1, Seq: distinctKeys},
		{Name: "request-shapes", Weight: 1, Seq: requestShapes},
		{Name: "with-worker", Weight: 2, Bounds: hk.P(0), Body: withWorker},
		{Name: "listening", Bounds: hk.P(1), Body: listening},
		{Name: "cached", Weight: 9, Bounds: []rt.Budget{{P: 1}, {P: 1, T: 1}}, Body: cached},
	}
	for _, c := range configs() {
		for _, p := range programs(tier) {
			js = append(js, hk.Job{Name: c.name + "/" + p.name, Weight: 6, Bounds: hk.P(p.p), Body: body(c, p)})
		}
	}
	return js
}

func main() {
	hk.Main(hk.Check{ID: "C11",
		Rule:        "an execution is one sequence or one schedule of requests through the registered handlers; every answer is compared with the reference counter, concurrent ones through a linearizability search per key",
		Assumptions: []string{"sequentially consistent atomics", "requests are delivered to the mux directly; the TCP layer is not modelled"},
		Jobs:        jobs})
}

func each[T any](visit func(func(string, T)), f func(string)) { visit(func(k string, _ T) { f(k) }) }

// count is the number of keys the store holds.
func count(s *core.Store) int {
	n := 0
	each(s.ForEach, func(string) { n++ })
	return n
}
