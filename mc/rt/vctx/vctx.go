// Package vctx replaces context in instrumented code: cancellation closes a virtual channel
// and deadlines are on the virtual clock.
package vctx

import (
	"context"
	"time"

	"verifmc/rt"
	"verifmc/rt/vsync"
	"verifmc/rt/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                        { return context.Background() }
func TODO() Context                              { return context.TODO() }
func WithValue(parent Context, k, v any) Context { return context.WithValue(parent, k, v) }
func WithoutCancel(parent Context) Context       { return context.WithoutCancel(parent) }

type ctxKey struct{}

type cctx struct {
	parent   Context
	mu       vsync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []func(err, cause error)
	deadline time.Time
	timer    *vtime.Timer
}

func (c *cctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(ctxKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	rt.Close(c.done)
	kids := c.children
	c.children = nil
	t := c.timer
	c.mu.Unlock()
	for _, k := range kids {
		k(err, cause)
	}
	if t != nil {
		t.Stop()
	}
}

func make_(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*cctx); ok && parent.Done() == (<-chan struct{})(p.done) {
		p.mu.Lock()
		if p.err != nil {
			err, cause := p.err, p.cause
			p.mu.Unlock()
			c.cancel(err, cause)
		} else {
			p.children = append(p.children, c.cancel)
			p.mu.Unlock()
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := make_(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := make_(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := make_(parent)
	if p, ok := parent.Deadline(); !ok || d.Before(p) {
		c.deadline = d
		if left := vtime.Until(d); left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = vtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(ctxKey{}).(*cctx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return c.Err()
}

func AfterFunc(c Context, f func()) func() bool {
	stopped, ran := false, false
	var mu vsync.Mutex
	run := func(error, error) {
		mu.Lock()
		defer mu.Unlock()
		if !stopped && !ran {
			ran = true
			rt.Go("context.AfterFunc", f)
		}
	}
	if p, ok := c.Value(ctxKey{}).(*cctx); ok && c.Done() == (<-chan struct{})(p.done) {
		p.mu.Lock()
		if p.err != nil {
			p.mu.Unlock()
			run(nil, nil)
		} else {
			p.children = append(p.children, run)
			p.mu.Unlock()
		}
	}
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if stopped || ran {
			return false
		}
		stopped = true
		return true
	}
}
