package rt

import "time"

// Virtual clock.  The clock moves only when a timer fires.

var epochTime = time.Date(2100, 1, 1, 0, 0, 0, 0, time.UTC)

type timer struct {
	at     int64
	period int64
	seq    uint64
	ch     chan time.Time
	f      func()
	wake   *bool
	active bool
}

func (x *exec) nextTimer() *timer {
	var best *timer
	for _, t := range x.timers {
		if t.active && (best == nil || t.at < best.at || (t.at == best.at && t.seq < best.seq)) {
			best = t
		}
	}
	return best
}

// fire lets the earliest timer expire.
func (x *exec) fire() {
	t := x.nextTimer()
	if t.at > x.now {
		x.now = t.at
		x.clockObj.Fresh()
		x.clockObj.wh = mix(x.clockObj.wh, uint64(x.now))
	}
	if x.trace != nil {
		x.trace = append(x.trace, "env timer fires at "+time.Duration(x.now).String())
	}
	x.steps++
	x.envHash = mix(x.envHash, mix(uint64(t.at), t.seq))
	if t.period > 0 {
		t.at += t.period
		x.timerSeq++
		t.seq = x.timerSeq
	} else {
		t.active = false
		x.dropTimer(t)
	}
	switch {
	case t.wake != nil:
		*t.wake = true
	case t.ch != nil:
		timerSend(x, t.ch, epochTime.Add(time.Duration(x.now)))
	case t.f != nil:
		th := x.newThread(x.threads[0], "timer")
		raceReleaseThread(th)
		go x.threadMain(th, t.f, false)
	}
}

func (x *exec) dropTimer(t *timer) {
	for i, u := range x.timers {
		if u == t {
			x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
			return
		}
	}
}

func (x *exec) addTimer(t *timer, d int64) {
	if d < 0 {
		d = 0
	}
	x.timerSeq++
	t.seq = x.timerSeq
	t.at = x.now + d
	t.active = true
	x.timers = append(x.timers, t)
	x.cur.hist = mix(x.cur.hist, mix(t.seq, uint64(t.at)))
}

// Now is time.Now on the virtual clock.
func Now() time.Time {
	x := X
	if x == nil {
		return seqNow()
	}
	if !x.aborting {
		touch(x.cur, &x.clockObj, KTime, false)
	}
	return epochTime.Add(time.Duration(x.now))
}

// NowNanos is the virtual clock in ns since the start of the execution.
func NowNanos() int64 {
	if X == nil {
		return int64(SeqClock)
	}
	return X.now
}

// SeqClock is the virtual clock outside executions.
var SeqClock time.Duration

func seqNow() time.Time { return epochTime.Add(SeqClock) }

// Epoch is the virtual time origin.
func Epoch() time.Time { return epochTime }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	x := X
	if x == nil {
		SeqClock += d
		return
	}
	if x.aborting {
		x.exit(x.cur)
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	woken := false
	x.addTimer(&timer{wake: &woken}, int64(d))
	Point(KTime, &x.clockObj, false, func() bool { return woken })
}

// Timer handles for the time shim.
type TimerH struct{ t *timer }

func NewTimerH(d, period time.Duration, ch chan time.Time, f func()) *TimerH {
	x := X
	t := &timer{ch: ch, f: f, period: int64(period)}
	if x != nil && !x.aborting {
		x.addTimer(t, int64(d))
		Touch(&x.clockObj, false)
	}
	return &TimerH{t}
}

func (h *TimerH) Stop() bool {
	x := X
	if x == nil || h == nil || x.aborting {
		return false
	}
	was := h.t.active
	h.t.active = false
	x.dropTimer(h.t)
	x.envHash = mix(x.envHash, 0x5709)
	return was
}

func (h *TimerH) Reset(d, period time.Duration) bool {
	was := h.Stop()
	x := X
	if x != nil && !x.aborting {
		h.t.period = int64(period)
		x.addTimer(h.t, int64(d))
	}
	return was
}

// PendingTimers counts armed timers.
func PendingTimers() int {
	if X == nil {
		return 0
	}
	n := 0
	for _, t := range X.timers {
		if t.active {
			n++
		}
	}
	return n
}
