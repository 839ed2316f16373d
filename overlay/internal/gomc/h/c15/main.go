// C15: Kafka commits carry stable ids so that consumers can deduplicate.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/ratelimiter/persistence"
)

type entry = persistence.CommitEntry

type failer func(string, ...any)

type message struct {
	topic      string
	key, value []byte // as handed over, not copied: clients batch
	keyCopy    string
	valCopy    string
	lost       bool
}

var errBroker = errors.New("broker unavailable")

// broker is a producer that may fail before or after the message is written.
type broker struct {
	obj     rt.Object
	faults  bool
	fault   func(i int) int // sequential jobs: 1 fails before, 2 after
	all     []message
	failed  int
	refused func(ctx context.Context) error
}

func (b *broker) Produce(ctx context.Context, topic string, key, value []byte, headers map[string]string) error {
	if b.faults || b.fault == nil {
		rt.Point(rt.KWrite, &b.obj, true, nil)
	}
	m := message{topic: topic, key: key, value: value, keyCopy: string(key), valCopy: string(value)}
	if ctx == nil {
		panic("a nil context reaches the producer")
	}
	f := 0
	switch {
	case ctx.Err() != nil:
		b.failed++
		return ctx.Err()
	case b.fault != nil:
		f = b.fault(len(b.all))
	case b.faults:
		f = rt.Choose(3, true, "produce")
	}
	m.lost = f == 1
	b.all = append(b.all, m)
	if f != 0 {
		b.failed++
		return errBroker
	}
	return nil
}

// payload reads a value and compares it with the entry.
func (m message) payload(e entry, topic string) string {
	if m.topic != topic {
		return fmt.Sprintf("topic %q instead of %q", m.topic, topic)
	}
	if m.keyCopy != e.CommitID {
		return fmt.Sprintf("message key %q instead of %q", m.keyCopy, e.CommitID)
	}
	if string(m.key) != m.keyCopy || string(m.value) != m.valCopy {
		return fmt.Sprintf("message overwritten after it was produced: %q -> %q", m.valCopy, m.value)
	}
	d := json.NewDecoder(bytes.NewReader(m.value))
	d.UseNumber()
	var o map[string]any
	if err := d.Decode(&o); err != nil {
		return fmt.Sprintf("payload %q: %v", m.value, err)
	}
	if d.More() {
		return fmt.Sprintf("payload %q holds more than one value", m.value)
	}
	num := func(name string, want int64) string {
		n, ok := o[name].(json.Number)
		if !ok {
			return fmt.Sprintf("payload %s: %s is not a number", m.value, name)
		}
		if r, ok := new(big.Rat).SetString(string(n)); !ok || r.Cmp(new(big.Rat).SetInt64(want)) != 0 {
			return fmt.Sprintf("payload %s: %s is %s, want %d", m.value, name, n, want)
		}
		return ""
	}
	if o["key"] != e.Key || o["commit_id"] != e.CommitID {
		return fmt.Sprintf("payload %s: want key %q and commit id %q", m.value, e.Key, e.CommitID)
	}
	if s := num("vc", e.Vector); s != "" {
		return s
	}
	if e.FencingToken == nil {
		if t, ok := o["fencing_token"]; ok && t != nil {
			return fmt.Sprintf("payload %s: a fencing token that was not given", m.value)
		}
	} else if s := num("fencing_token", *e.FencingToken); s != "" {
		return s
	}
	return ""
}

type world struct {
	b     *broker
	p     *persistence.KafkaPersister
	topic string
	ctx   func() context.Context
	log   []string
}

func newWorld(topic string, b *broker) *world {
	return &world{b: b, p: persistence.NewKafkaPersister(b, topic), topic: topic, ctx: func() context.Context { return nil }}
}

func (w *world) String() string { return strings.Join(w.log, "; ") }

// send hands over one batch and validates what it produced.
func (w *world) send(fail failer, es []entry) error {
	in := append([]entry(nil), es...)
	from, failed := len(w.b.all), w.b.failed
	err := w.p.CommitBatch(w.ctx(), es)
	out := w.b.all[from:]
	w.log = append(w.log, fmt.Sprintf("batch%s: %d produced, %v", show(in), len(out), err))
	for i := range in {
		if in[i] != es[i] {
			fail("the batch handed over was changed from %+v to %+v", in[i], es[i])
		}
	}
	valid := len(es) // entries before the first without an id
	for i, e := range es {
		if e.CommitID == "" {
			valid = i
			break
		}
	}
	if len(out) > valid {
		fail("%d messages for %d producible entries: %s", len(out), valid, w)
		return err
	}
	for i, m := range out {
		if s := m.payload(in[i], w.topic); s != "" {
			fail("message %d: %s: %s", i, s, w)
		}
	}
	fails := w.b.failed - failed
	switch {
	case fails > 1 || fails == 1 && err == nil:
		fail("production went on after a failure, or did not report it: %s", w)
	case err == nil && (len(out) != len(es)):
		fail("success without producing every entry: %s", w)
	case err != nil && fails == 0 && valid == len(es):
		fail("an error although nothing failed: %s", w)
	case fails == 1 && !errors.Is(err, errBroker) && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded):
		// reported, but not as what failed; the statement asks for a report only
	}
	return err
}

// consume deduplicates by message key and adds up the vectors.
func (w *world) consume() map[string]int64 {
	seen, sum := map[string]bool{}, map[string]int64{}
	for _, m := range w.b.all {
		if m.lost || seen[m.keyCopy] {
			continue
		}
		seen[m.keyCopy] = true
		var o struct {
			Key string `json:"key"`
			VC  int64  `json:"vc"`
		}
		if json.Unmarshal(m.value, &o) == nil {
			sum[o.Key] += o.VC
		}
	}
	return sum
}

func want(es []entry) map[string]int64 {
	seen, sum := map[string]bool{}, map[string]int64{}
	for _, e := range es {
		if !seen[e.CommitID] {
			seen[e.CommitID] = true
			sum[e.Key] += e.Vector
		}
	}
	return sum
}

func (w *world) compare(fail failer, es []entry) {
	if g, x := w.consume(), want(es); fmt.Sprint(g) != fmt.Sprint(x) {
		fail("a deduplicating consumer arrives at %v instead of %v: %s", g, x, w)
	}
}

func show(es []entry) string {
	var b []string
	for i, e := range es {
		if i == 6 {
			b = append(b, fmt.Sprintf("... %d", len(es)))
			break
		}
		t := ""
		if e.FencingToken != nil {
			t = " t" + strconv.FormatInt(*e.FencingToken, 10)
		}
		b = append(b, fmt.Sprintf("(%.40q %.40q %d%s)", e.Key, e.CommitID, e.Vector, t))
	}
	return "[" + strings.Join(b, " ") + "]"
}

func tk(n int64) *int64 { return &n }

var alphabet = []entry{
	{Key: "a", CommitID: "1", Vector: 1},
	{Key: "a", CommitID: "2", Vector: -4, FencingToken: tk(5)},
	{Key: "b", CommitID: "3", Vector: 16, FencingToken: tk(0)},
	{Key: "", CommitID: "4", Vector: 64},
	{Key: "b", CommitID: "5", Vector: 0, FencingToken: tk(-9)},
	{Key: "b", Vector: 1 << 40},
}

// histories: one or two batches, each repeated until it succeeds, with
// failures before and after the effect anywhere.
func histories(size, count int) func() {
	return func() {
		w := newWorld("commits", &broker{faults: true})
		var all []entry
		if i := rt.Choose(3, false, "context"); i > 0 {
			w.ctx = func() context.Context { return []context.Context{context.Background(), context.TODO()}[i-1] }
		}
		for i := 0; i < count; i++ {
			var es []entry
			bad := false
			for len(es) < size {
				c := rt.Choose(len(alphabet)+1, false, "entry")
				if c == len(alphabet) {
					break
				}
				es = append(es, alphabet[c])
				bad = bad || alphabet[c].CommitID == ""
			}
			for try := 0; ; try++ {
				err := w.send(rt.Fail, es)
				if bad {
					if err == nil {
						rt.Fail("a batch with an entry without id succeeds: %s", w)
					}
					// what was produced before it counts as delivered
					for _, e := range es {
						if e.CommitID == "" {
							break
						}
						for _, m := range w.b.all {
							if !m.lost && m.keyCopy == e.CommitID {
								all = append(all, e)
								break
							}
						}
					}
					break
				}
				if err == nil {
					all = append(all, es...)
					break
				}
				if try > 6 {
					rt.Fail("the batch never succeeds: %s", w)
					return
				}
			}
		}
		w.compare(rt.Fail, all)
	}
}

// values: extreme vectors, tokens and strings survive the encoding.
func values(q *hk.Seq) {
	ints := []int64{0, 1, -1, 255, 1 << 31, -1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), 1e18 + 1, -1e18 - 1, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}
	strs := []string{"k", " ", " k ", "a\"b", "a\\b", "<&>", "\x00", "\x1f\n\t\r\b\f", "\x7f", "é", "日本語", "\u2028\u2029", "\U0001F600", "\ufffd", "\ufeff", "null", "{}", "{\"key\":\"x\"}", "0", "-1", "a:b", "a,b;c=d", "%41", "../x", strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("y", 257), strings.Repeat("é", 5000)}
	for c := 0; c < 128; c++ {
		strs = append(strs, "c"+string(rune(c))+"d")
	}
	topics := []string{"commits", "vsa-commits", "", "a.b_c-1", "T"}
	q.Bound("%d x %d integers as vector and token; %d x 3 strings as key, id and both; %d topics", len(ints), len(ints)+1, len(strs), len(topics))
	run := func(topic string, es []entry) {
		w := newWorld(topic, &broker{fault: func(int) int { return 0 }})
		for i := 0; i < 2; i++ {
			if w.send(q.Fail, es) != nil {
				q.Fail("a batch fails without a fault: %s", w)
			}
		}
		w.compare(q.Fail, es)
		q.Case()
		q.Step(len(es))
	}
	for i, v := range ints {
		for j := -1; j < len(ints); j++ {
			e := entry{Key: "k", CommitID: "id", Vector: v}
			if j >= 0 {
				e.FencingToken = tk(ints[j])
			}
			run("commits", []entry{e})
			q.State(uint64(i*100 + j + 1))
		}
	}
	for i, s := range strs {
		for _, t := range topics {
			run(t, []entry{{Key: s, CommitID: "id", Vector: 3}, {Key: "k", CommitID: s, Vector: 5}, {Key: s, CommitID: s + "2", Vector: 7, FencingToken: tk(int64(i))}})
		}
		q.State(uint64(1<<20 + i))
	}
	if newWorld("t", &broker{fault: func(int) int { return 0 }}).send(q.Fail, nil) != nil {
		q.Fail("an empty batch fails")
	}
}

// sizes: batches of any size with one failure at every position.
func sizes(q *hk.Seq) {
	var ns []int
	for n := 1; n <= 24; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 2049, 20011)
	q.Bound("%d batch sizes up to 20011, one failure before or after the effect at every position (up to 257) or at some, or an entry without id", len(ns))
	for _, n := range ns {
		var es []entry
		for i := 0; i < n; i++ {
			es = append(es, entry{Key: "k" + strconv.Itoa(i%3), CommitID: "c" + strconv.Itoa(i), Vector: int64(i + 1)})
			if i%2 == 1 {
				es[i].FencingToken = tk(int64(i))
			}
		}
		step := 1
		if n > 257 {
			step = n / 16
			if n > 5000 {
				step = n / 2
			}
		}
		for at := -1; at < n; at += step {
			for kind := 1; kind <= 3; kind++ {
				if at < 0 && kind > 1 {
					continue
				}
				if q.Over() {
					q.Incomplete("deadline")
					return
				}
				b := &broker{}
				hit := false
				b.fault = func(i int) int {
					if i == at && !hit && kind < 3 {
						hit = true
						return kind
					}
					return 0
				}
				w := newWorld("commits", b)
				if kind == 3 && at >= 0 {
					bad := append([]entry(nil), es...)
					bad[at].CommitID = ""
					if w.send(q.Fail, bad) == nil {
						q.Fail("a batch with an entry without id succeeds: %s", w)
					}
				} else {
					w.send(q.Fail, es)
				}
				if w.send(q.Fail, es) != nil {
					q.Fail("the retry fails: %s", w)
				}
				w.compare(q.Fail, es)
				q.Case()
				q.Step(n)
			}
		}
		q.State(uint64(n))
	}
}

// contexts: a cancelled or expired context produces nothing and is reported.
func contexts(q *hk.Seq) {
	q.Bound("cancelled and expired contexts, every single entry")
	for i, e := range alphabet[:5] {
		for k := 0; k < 3; k++ {
			w := newWorld("commits", &broker{fault: func(int) int { return 0 }})
			ctx, cancel := context.WithCancel(context.Background())
			switch k {
			case 0:
				cancel()
			case 1:
				ctx, cancel = context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
			}
			w.ctx = func() context.Context { return ctx }
			err := w.send(q.Fail, []entry{e})
			cancel()
			if k < 2 && (err == nil || len(w.b.all) > 0) {
				q.Fail("under an ended context: %s", w)
			}
			w.ctx = func() context.Context { return context.Background() }
			if w.send(q.Fail, []entry{e}) != nil {
				q.Fail("the retry fails: %s", w)
			}
			w.compare(q.Fail, []entry{e})
			q.Case()
			q.State(uint64(10*i + k))
		}
	}
}

// concurrent: batches of several callers keep their contents and order.
func concurrent(n int) func() {
	return func() {
		w := newWorld("commits", &broker{faults: true})
		var all, every []entry
		var hs []*rt.Handle
		batches := make([][]entry, n)
		errs := make([]error, n)
		for i := 0; i < n; i++ {
			for j := 0; j < 2; j++ {
				e := entry{Key: "k" + strconv.Itoa(j), CommitID: fmt.Sprint(i, j), Vector: int64(1) << (4 * (2*i + j))}
				if j == 1 {
					e.FencingToken = tk(int64(i))
				}
				batches[i] = append(batches[i], e)
			}
			every = append(every, batches[i]...)
			hs = append(hs, rt.GoNamed("writer", func() {
				for try := 0; try < 4; try++ {
					if errs[i] = w.p.CommitBatch(nil, batches[i]); errs[i] == nil {
						return
					}
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		byID := map[string]entry{}
		for _, e := range every {
			byID[e.CommitID] = e
		}
		next := map[byte]int{}
		failedAt := -1
		for i, m := range w.b.all {
			e, ok := byID[m.keyCopy]
			if !ok {
				rt.Fail("message %d has an unknown key %q", i, m.keyCopy)
				return
			}
			if s := m.payload(e, "commits"); s != "" {
				rt.Fail("message %d: %s", i, s)
			}
			who, pos := m.keyCopy[0], int(m.keyCopy[len(m.keyCopy)-1]-'0')
			if pos != next[who] && pos != 0 {
				rt.Fail("message %d (%s) out of order", i, m.keyCopy)
			}
			next[who] = pos + 1
			_ = failedAt
		}
		for i := range batches {
			if errs[i] != nil {
				rt.Fail("a batch never succeeds: %v", errs[i])
			}
			all = append(all, batches[i]...)
		}
		if w.b.failed == 0 && len(w.b.all) != len(every) {
			rt.Fail("%d messages for %d entries without a failure", len(w.b.all), len(every))
		}
		w.compare(rt.Fail, all)
	}
}

func main() {
	hk.Main(hk.Check{ID: "C15",
		Rule:        "an execution is one history of batches with one placement of producer failures, before or after the message is written; every message is decoded and compared, and a deduplicating consumer's sums are compared with the entries'",
		Assumptions: []string{"keys and ids are text (valid UTF-8): JSON holds nothing else", "a commit id always carries the same key, vector and token"},
		Jobs: func(tier string) []hk.Job {
			f, s, p := 2, 3, 3
			if tier == "thorough" {
				f, s, p = 3, 4, 4
			}
			return []hk.Job{
				{Name: "histories", Weight: 5, Bounds: hk.F(0, f), Body: histories(s, 1)},
				{Name: "two-batches", Weight: 6, Bounds: hk.F(0, f-1), Body: histories(2, 2)},
				{Name: "values", Weight: 2, Seq: values},
				{Name: "sizes", Weight: 3, Seq: sizes},
				{Name: "contexts", Weight: 1, Seq: contexts},
				{Name: "concurrent", Weight: 4, Bounds: hk.PTF(p, 0, 1), Body: concurrent(2)},
				{Name: "concurrent-3", Weight: 5, Bounds: hk.PTF(p-1, 0, 1), Body: concurrent(3)},
			}
		}})
}
