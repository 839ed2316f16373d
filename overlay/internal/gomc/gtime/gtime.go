// Package gtime is the controlled stand-in for the clock of package time.
package gtime

import (
	"time"
	"vsa/internal/gomc/rt"
)

func Now() time.Time                  { return rt.Now() }
func Since(t time.Time) time.Duration { return rt.Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(rt.Now()) }
func Sleep(d time.Duration)           { rt.Sleep(d) }

type Timer struct {
	C  <-chan time.Time
	h  *rt.TimerH
	ch chan time.Time
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	return &Timer{C: ch, ch: ch, h: rt.NewTimerH(d, 0, ch, nil)}
}
func AfterFunc(d time.Duration, f func()) *Timer { return &Timer{h: rt.NewTimerH(d, 0, nil, f)} }
func After(d time.Duration) <-chan time.Time     { return NewTimer(d).C }
func (t *Timer) drain() {
	if t.ch != nil {
		select {
		case <-t.ch:
		default:
		}
	}
}
func (t *Timer) Stop() bool {
	had := t.h.Stop()
	t.drain() // Go 1.23 semantics: no stale value after Stop
	return had
}
func (t *Timer) Reset(d time.Duration) bool {
	had := t.h.Reset(d, 0)
	t.drain()
	return had
}

type Ticker struct {
	C  <-chan time.Time
	h  *rt.TimerH
	ch chan time.Time
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	return &Ticker{C: ch, ch: ch, h: rt.NewTimerH(d, d, ch, nil)}
}
func (t *Ticker) Stop() {
	t.h.Stop()
	select {
	case <-t.ch:
	default:
	}
}
func (t *Ticker) Reset(d time.Duration) { t.h.Reset(d, d) }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
