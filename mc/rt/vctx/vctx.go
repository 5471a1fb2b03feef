// Package vctx stands in for context: same interface, cancellation through owned channels and the virtual clock.
package vctx

import (
	"context"
	"errors"
	"time"

	"github.com/DanLavine/willow/verifmc/vs"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(parent Context, key, val any) Context { return context.WithValue(parent, key, val) }

type ctxKeyT struct{}

var ctxKey ctxKeyT

type cctx struct {
	parent   Context
	o        vs.Obj
	done     chan struct{}
	err      error
	cause    error
	children map[*cctx]struct{}
	order    []*cctx
	after    []func()
	deadline time.Time
	hasDl    bool
	timer    *vs.Timer
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cctx) Done() <-chan struct{} { return c.done }

func (c *cctx) Err() error {
	if vs.Dead() {
		return c.err
	}
	vs.Point(vs.Label("ctx err"))
	c.o.Read(0x31)
	return c.err
}

func (c *cctx) Value(k any) any {
	if k == any(&ctxKey) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cctx) String() string { return "verifmc.cancelCtx" }

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if !vs.Dead() {
		c.o.Write(0x32)
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	vs.CloseNow(c.done)
	for _, ch := range c.order {
		if _, ok := c.children[ch]; ok {
			ch.cancel(err, cause)
		}
	}
	c.children, c.order = nil, nil
	if c.timer != nil {
		c.timer.StopNow()
	}
	for _, f := range c.after {
		vs.Go(f)
	}
	c.after = nil
	if p, ok := c.parent.Value(&ctxKey).(*cctx); ok && p.children != nil {
		delete(p.children, c)
	}
}

func newCtx(parent Context) *cctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cctx{parent: parent, done: vs.Make(make(chan struct{}))}
	if vs.Dead() {
		return c
	}
	pd := parent.Done()
	if pd == nil {
		return c
	}
	if p, ok := parent.Value(&ctxKey).(*cctx); ok && (<-chan struct{})(p.done) == pd {
		p.o.Acquire(0x33)
		if p.err != nil {
			c.cancel(p.err, p.cause)
			return c
		}
		if p.children == nil {
			p.children = map[*cctx]struct{}{}
		}
		p.children[c] = struct{}{}
		p.order = append(p.order, c)
		return c
	}
	vs.Go(func() {
		a, b := vs.NewRecv(pd), vs.NewRecv((<-chan struct{})(c.done))
		if vs.Select(false, a, b) == 0 {
			vs.Atomic(func() { c.cancel(parent.Err(), context.Cause(parent)) })
		}
	})
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.doCancel(Canceled, nil) }
}

func (c *cctx) doCancel(err, cause error) {
	if vs.Dead() {
		return
	}
	vs.Point(vs.Label("ctx cancel"))
	if c.err != nil {
		c.o.Read(0x34)
		return
	}
	c.cancel(err, cause)
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.doCancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.hasDl = d, true
	if !vs.Dead() && c.err == nil {
		dur := d.Sub(vs.Base.Add(vs.Now()))
		if dur <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = vs.NewEnvTimer(dur, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() { c.doCancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vs.Base.Add(vs.Now()).Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vs.Base.Add(vs.Now()).Add(d), cause)
}

func Cause(c Context) error {
	if x, ok := c.Value(&ctxKey).(*cctx); ok {
		if !vs.Dead() {
			x.o.Read(0x35)
		}
		return x.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCtx(ctx)
	ran := false
	run := func() { ran = true; f() }
	if c.err != nil {
		vs.Go(run)
		return func() bool { return false }
	}
	c.after = append(c.after, run)
	return func() bool {
		if c.err != nil || ran || c.after == nil {
			return false
		}
		c.after = nil
		c.err = errors.New("stopped")
		return true
	}
}

type noCancel struct{ Context }

func (noCancel) Deadline() (d time.Time, ok bool) { return }
func (noCancel) Done() <-chan struct{}            { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(k any) any {
	if k == any(&ctxKey) {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }
