// Package gctx stands in for the cancellable contexts of package context, on
// the virtual clock.
package gctx

import (
	"context"
	"time"

	"vsa/internal/gomc/rt"
)

type ctx struct {
	context.Context // parent, for values
	done            chan struct{}
	err             error
	deadline        time.Time
	hasDeadline     bool
	kids            []*ctx
	timer           *rt.TimerH
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDeadline {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	if c.timer != nil {
		c.timer.Stop()
	}
	rt.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func derive(parent context.Context) *ctx {
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func plain(parent context.Context) bool {
	if !rt.Active() {
		return false
	}
	if _, ok := parent.(*ctx); ok {
		return true
	}
	return parent.Done() == nil
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !plain(parent) {
		return context.WithCancel(parent)
	}
	c := derive(parent)
	return c, func() { c.cancel(context.Canceled) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !plain(parent) {
		return context.WithTimeout(parent, d)
	}
	return withDeadline(parent, rt.Now().Add(d), d)
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	if !plain(parent) {
		return context.WithDeadline(parent, t)
	}
	return withDeadline(parent, t, t.Sub(rt.Now()))
}

func withDeadline(parent context.Context, t time.Time, d time.Duration) (context.Context, context.CancelFunc) {
	c := derive(parent)
	c.deadline, c.hasDeadline = t, true
	if p, ok := parent.Deadline(); ok && p.Before(t) {
		c.deadline = p
	} else if d <= 0 {
		c.cancel(context.DeadlineExceeded)
	} else if c.err == nil {
		c.timer = rt.NewTimerH(d, 0, nil, func() { c.cancel(context.DeadlineExceeded) })
	}
	return c, func() { c.cancel(context.Canceled) }
}
