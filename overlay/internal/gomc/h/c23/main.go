// C23: log files keep every flushed record through crashes and reopening.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"

	"vsa/internal/gomc/hk"
	"vsa/internal/gomc/rt"
	"vsa/internal/sinks"
	"vsa/plugin/tfd"
)

var dir string

func scratch() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "vsamc-logs-")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	return dir
}

func cleanup() {
	if strings.Contains(dir, "vsamc-logs-") {
		os.RemoveAll(dir)
		dir = ""
	}
}

// sink is what both logs offer; records are named by numbers.
type sink interface {
	add(id int)
	batch(ids ...int)
	Flush() error
	Close() error
}

type kind struct {
	name string
	open func(path string) (sink, error)
	read func(path string) ([]int, error)
}

var ext = []uint64{0, 1, 9, 1<<53 + 1, 1 << 63, math.MaxUint64, 1<<63 - 1, 34, 10, 1 << 32}

func srec(id int) tfd.SBatch {
	u := uint64(id)
	return tfd.SBatch{KeyID: ext[id%10], BucketID: ext[(id/2+3)%10] ^ u, NetDelta: int64(ext[(id*7+4)%10]), SeqEnd: u << (id % 3 * 20)}
}

func vrec(id int) tfd.Envelope {
	u := uint64(id)
	e := tfd.Envelope{Channel: tfd.Channel((id + 1) & 1), Footprint: tfd.Footprint{KeyID: ext[id%10], Time: tfd.TimeFootprint{BucketID: ext[(id/2+3)%10] ^ u, All: id%3 == 0}, Scope: tfd.ChannelVector}, Delta: int64(ext[(id*7+4)%10]), SeqEnd: u << (id % 3 * 20)}
	for i := range e.HashPrev {
		e.HashPrev[i] = byte(id * (i + 1) * (id % 5))
	}
	return e
}

type slog struct{ *sinks.SBatchFileSink }

func (s slog) add(id int) { s.OnSBatches([]tfd.SBatch{srec(id)}) }
func (s slog) batch(ids ...int) {
	var b []tfd.SBatch
	for _, id := range ids {
		b = append(b, srec(id))
	}
	s.OnSBatches(b)
}

type vlog struct{ *sinks.VEnvFileSink }

func (v vlog) add(id int) { v.Append(vrec(id)) }
func (v vlog) batch(ids ...int) {
	var b []tfd.Envelope
	for _, id := range ids {
		b = append(b, vrec(id))
	}
	v.AppendAll(b)
}

var kinds = []kind{
	{"S", func(p string) (sink, error) { s, err := sinks.NewSBatchFileSink(p); return slog{s}, err },
		func(p string) (out []int, err error) {
			rs, err := sinks.ReadAllSLog(p)
			for _, r := range rs {
				id := int(r.SeqEnd)
				for i := 2; i > 0 && (id < 0 || id >= 1<<20 || srec(id) != r); i-- {
					id = int(r.SeqEnd >> (20 * i))
				}
				if id < 0 || id >= 1<<20 || srec(id) != r {
					id = -1
				}
				out = append(out, id)
			}
			return
		}},
	{"V", func(p string) (sink, error) { s, err := sinks.NewVEnvFileSink(p); return vlog{s}, err },
		func(p string) (out []int, err error) {
			rs, err := sinks.ReadAllVLog(p)
			for _, r := range rs {
				id := int(r.SeqEnd)
				for i := 2; i > 0 && (id < 0 || id >= 1<<20 || vrec(id) != r); i-- {
					id = int(r.SeqEnd >> (20 * i))
				}
				if id < 0 || id >= 1<<20 || vrec(id) != r {
					id = -1
				}
				out = append(out, id)
			}
			return
		}},
}

// session is what one process did to a log before it ended.
type session struct {
	added []int
	safe  int // of them flushed or closed
}

// explain checks the records read against the sessions.
func explain(got []int, ss []session) string {
	i := 0
	for n, s := range ss {
		k := 0
		for k < len(s.added) && i < len(got) && got[i] == s.added[k] {
			k++
			i++
		}
		if k < s.safe {
			return fmt.Sprintf("records %v of session %d were flushed before its end, but only %d of them are read", s.added[:s.safe], n+1, k)
		}
	}
	if i != len(got) {
		return fmt.Sprintf("a record was never appended there: number %d (%d)", i, got[i])
	}
	return ""
}

type tester struct {
	q    *hk.Seq
	k    kind
	path string
	part int
}

func (t *tester) bad(hist, format string, a ...any) {
	cleanup()
	t.q.Fail("%s log, %s: %s", t.k.name, hist, fmt.Sprintf(format, a...))
}

func (t *tester) open(hist string) sink {
	s, err := t.k.open(t.path)
	if err != nil {
		t.bad(hist, "cannot open: %v", err)
	}
	return s
}

func (t *tester) must(err error, hist, what string) {
	if err != nil {
		t.bad(hist, "%s: %v", what, err)
	}
}

func (t *tester) content() []byte {
	b, err := os.ReadFile(t.path)
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
	return b
}

func (t *tester) put(b []byte) {
	if err := os.WriteFile(t.path, b, 0o644); err != nil {
		panic(err)
	}
}

func (t *tester) check(hist string, ss ...session) {
	got, err := t.k.read(t.path)
	if err != nil {
		t.bad(hist, "reading: %v", err)
	}
	if m := explain(got, ss); m != "" {
		t.bad(hist, "%s; read %v of %+v", m, got, ss)
	}
	t.q.Step(1)
}

// play runs the calls of a session and returns it with the file's contents
// before and after the last one.
func (t *tester) play(ops string, first int) (s session, before, after []byte, was int) {
	id := first
	w := t.open(ops)
	for i, o := range ops {
		if i == len(ops)-1 {
			before, was = t.content(), s.safe
		}
		switch o {
		case 'a':
			w.add(id)
			s.added = append(s.added, id)
			id++
		case 'b':
			w.batch(id, id+1)
			s.added = append(s.added, id, id+1)
			id += 2
		case 'd': // the same values again
			if id > first {
				w.add(id - 1)
				s.added = append(s.added, id-1)
			}
		case 'e':
			w.batch()
		case 'f':
			t.must(w.Flush(), ops, "Flush")
			s.safe = len(s.added)
		case 'z':
			rt.Sleep(150 * time.Millisecond)
		case 'c':
			t.must(w.Close(), ops, "Close")
			s.safe = len(s.added)
			w = t.open(ops)
		}
		if s.safe == len(s.added) && o != 'z' {
			t.check(ops, s)
		}
	}
	after = t.content()
	w.Close()
	return
}

// parts is the number of jobs that share the crashes of one log.
const parts = 4

// crashes: all histories of calls, each ended by a crash at every byte that
// its last call writes, and what may follow.
func crashes(k kind, depth, part int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		rt.SeqClock = 0
		defer cleanup()
		t := &tester{q: q, k: k, path: filepath.Join(scratch(), k.name+"crashes"), part: part}
		q.Bound("all histories of %d calls (append one, two, the last one again or none, flush, a pause, close and reopen), a crash at every byte written by the last one, then reading, a second session (flushed, closed, or crashed in turn at its boundaries and in the middle) and a third; part %d of %d", depth, part+1, parts)
		seen := map[string]bool{}
		var visit func(ops string)
		visit = func(ops string) {
			if q.Over() {
				q.Incomplete("deadline")
				return
			}
			if ops != "" {
				os.Remove(t.path)
				s, before, after, was := t.play(ops, 0)
				n := len(before)
				if !bytes.HasPrefix(after, before) {
					t.after(ops+" crashed before the last call wrote", before, session{s.added, was}, seen)
					n = len(after)
				}
				for ; n <= len(after); n++ {
					if n < len(after) {
						t.after(fmt.Sprintf("%s crashed at byte %d", ops, n), after[:n], session{s.added, was}, seen)
					} else {
						t.after(ops+" crashed", after, s, seen)
					}
				}
			}
			if len(ops) < depth {
				for _, o := range "abfzcde" {
					visit(ops + string(o))
				}
			}
		}
		visit("")
	}
}

// after continues on a file left by a crash.
func (t *tester) after(hist string, b []byte, s session, seen map[string]bool) {
	key := fmt.Sprint(s) + string(b)
	if seen[key] {
		return
	}
	seen[key] = true
	if len(seen)%parts != t.part {
		return
	}
	t.q.State(uint64(len(seen)))
	t.q.Case()
	t.put(b)
	t.check(hist, s)
	w := t.open(hist)
	t.must(w.Close(), hist, "Close")
	t.check(hist+", opened and closed", s)
	// flushed and closed
	t.put(b)
	w = t.open(hist)
	mid := t.content() // the tail repaired
	w.add(50)
	t.must(w.Flush(), hist, "Flush")
	s2 := session{[]int{50}, 1}
	t.check(hist+", reopened, one record flushed", s, s2)
	w.batch(51, 52)
	t.must(w.Close(), hist, "Close")
	full := t.content()
	t.check(hist+", reopened, three records closed", s, session{[]int{50, 51, 52}, 3})
	// crashed again
	if !bytes.HasPrefix(full, mid) {
		return
	}
	cuts := []int{len(mid) - 1, len(mid), len(mid) + 1, (len(mid) + len(full)) / 2, len(full) - 2, len(full) - 1}
	for _, c := range cuts {
		if c < 0 || c > len(full) || c < len(mid) && !bytes.HasPrefix(mid[:c], b) {
			continue
		}
		t.put(full[:c])
		w := t.open(hist)
		w.add(60)
		t.must(w.Close(), hist, "Close")
		t.check(fmt.Sprintf("%s, reopened, crashed at byte %d, reopened, one record closed", hist, c), s, session{[]int{50, 51, 52}, 0}, session{[]int{60}, 1})
	}
}

// long: more records than the buffer holds, with and without flushes.
func long(k kind, n int) func(*hk.Seq) {
	return func(q *hk.Seq) {
		rt.SeqClock = 0
		defer cleanup()
		t := &tester{q: q, k: k, path: filepath.Join(scratch(), k.name+"long")}
		q.Bound("logs of up to %d records written one by one, in batches of 2 to %d, flushed never, once or every 1000, cut near every position where the file grew", n, n)
		for _, per := range []int{1, 2, 777, n} {
			for _, every := range []int{0, n / 2, 1000} {
				for pause := 0; pause < 2; pause++ {
					if per == n && every == 1000 {
						continue
					}
					hist := fmt.Sprintf("%d records, %d at a time, flushed every %d", n, per, every)
					os.Remove(t.path)
					w := t.open(hist)
					var s session
					type point struct {
						size int64
						s    session
					}
					var grew []point
					for i := 0; i < n; {
						if per == 1 {
							w.add(i)
							i++
						} else {
							var ids []int
							for j := 0; j < per && i < n; j++ {
								ids = append(ids, i)
								i++
							}
							w.batch(ids...)
						}
						for len(s.added) < i {
							s.added = append(s.added, len(s.added))
						}
						if every > 0 && i/every > s.safe/every && i%every < per {
							t.must(w.Flush(), hist, "Flush")
							s.safe = i
						}
						if pause == 1 && i%5000 < per {
							rt.Sleep(150 * time.Millisecond)
						}
						st, err := os.Stat(t.path)
						if err != nil {
							panic(err)
						}
						if len(grew) == 0 || st.Size() != grew[len(grew)-1].size {
							grew = append(grew, point{st.Size(), s})
						}
					}
					got, err := t.k.read(t.path)
					if err != nil {
						t.bad(hist, "reading: %v", err)
					}
					if m := explain(got, []session{s}); m != "" {
						t.bad(hist, "%s (%d read)", m, len(got))
					}
					t.must(w.Close(), hist, "Close")
					full := t.content()
					s.safe = n
					if got, err = t.k.read(t.path); err != nil || explain(got, []session{s}) != "" || len(got) != n {
						t.bad(hist, "%d records are read after Close (%v)", len(got), err)
					}
					for i, g := range grew {
						if q.Over() {
							q.Incomplete("deadline")
							return
						}
						if i > 3 && i < len(grew)-2 {
							continue
						}
						t.put(full[:g.size])
						w := t.open(hist)
						w.add(n + 1)
						t.must(w.Close(), hist, "Close")
						got, err := t.k.read(t.path)
						if err != nil {
							t.bad(hist, "reading: %v", err)
						}
						if m := explain(got, []session{g.s, {[]int{n + 1}, 1}}); m != "" {
							t.bad(hist, "crashed with %d bytes written: %s", g.size, m)
						}
						q.Case()
						q.State(uint64(g.size))
					}
					q.Case()
					q.Step(n)
				}
			}
		}
	}
}

// concurrent runs appenders and flushers in parallel on one sink: a appends
// one record, b two, f flushes, z pauses, r reads.
func concurrent(k kind, race bool, progs ...string) func() {
	return func() {
		path := filepath.Join(scratch(), k.name+"concurrent")
		os.Remove(path)
		w, err := k.open(path)
		if err != nil {
			panic(err)
		}
		bad := func(f string, a ...any) {
			rt.Fail("%s log, callers %s: %s", k.name, strings.Join(progs, " | "), fmt.Sprintf(f, a...))
		}
		read := func() []int {
			got, err := k.read(path)
			if err != nil {
				bad("reading: %v", err)
			}
			return got
		}
		var obj rt.Object
		var added [4][]int
		// inOrder checks that the records of every appender come in order and
		// contiguous from its first; it returns how many of each.
		inOrder := func(got []int) (n [4]int) {
			for _, id := range got {
				p := id / 100
				if id < 0 || p >= len(progs) || id%100 != n[p] {
					bad("read %v: record %d is torn, altered, duplicated or out of order", got, id)
				}
				n[p]++
			}
			return
		}
		var hs []*rt.Handle
		for p, prog := range progs {
			hs = append(hs, rt.GoNamed(prog, func() {
				n := 0
				for _, o := range []byte(prog) {
					switch o {
					case 'a':
						w.add(100*p + n)
						n++
					case 'b':
						w.batch(100*p+n, 100*p+n+1)
						n += 2
					case 'f':
						var before [4]int
						if !race {
							rt.Point(rt.KRead, &obj, false, nil)
							for i := range added {
								before[i] = len(added[i])
							}
						}
						if err := w.Flush(); err != nil {
							bad("Flush: %v", err)
						}
						if !race {
							have := inOrder(read())
							for i := range before {
								if have[i] < before[i] {
									bad("Flush returned, but %d of the %d records appended before by %q are read", have[i], before[i], progs[i])
								}
							}
						}
					case 'z':
						rt.Sleep(150 * time.Millisecond)
					case 'r':
						if !race {
							inOrder(read())
						}
					}
					if !race && (o == 'a' || o == 'b') {
						rt.Point(rt.KWrite, &obj, true, nil)
						for len(added[p]) < n {
							added[p] = append(added[p], len(added[p]))
						}
					}
				}
			}))
		}
		for _, h := range hs {
			h.Join()
		}
		if err := w.Close(); err != nil {
			bad("Close: %v", err)
		}
		have := inOrder(read())
		for p, prog := range progs {
			if want := strings.Count(prog, "a") + 2*strings.Count(prog, "b"); have[p] != want {
				bad("%d of the %d records of %q are read after Close", have[p], want, prog)
			}
		}
	}
}

func main() {
	hk.OnExit = cleanup
	hk.Main(hk.Check{ID: "C23",
		Rule:        "an execution is one history of calls with crashes, or one interleaving of callers, on a real file; records read are matched against the sessions that appended them",
		Assumptions: []string{"a flushed write survives the crash of the process (the machine does not lose it)", "a crash leaves a prefix of what was being written", "one sink per file at a time"},
		Jobs: func(tier string) []hk.Job {
			d, n, p := 4, 20000, 3
			if tier == "thorough" {
				d, n, p = 5, 60000, 4
			}
			var js []hk.Job
			for _, k := range kinds {
				for i := 0; i < parts; i++ {
					js = append(js, hk.Job{Name: fmt.Sprintf("%s/crashes%d", k.name, i), Weight: 6, Seq: crashes(k, d, i)})
				}
				js = append(js, hk.Job{Name: k.name + "/long", Weight: 3, Seq: long(k, n)})
				for i, progs := range [][]string{{"aa", "ba"}, {"ab", "f", "a"}, {"af", "bf"}, {"zaa", "zb", "zf"}, {"aaf", "r", "br"}} {
					js = append(js, hk.Job{Name: fmt.Sprintf("%s/concurrent%d", k.name, i), Weight: 3, Bounds: hk.P(p), Body: concurrent(k, false, progs...)})
					js = append(js, hk.Job{Name: fmt.Sprintf("%s/race%d", k.name, i), Weight: 2, Bounds: hk.P(p), Body: concurrent(k, true, progs...), Race: true})
				}
			}
			return js
		}})
}
