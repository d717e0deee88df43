// Package vcontext stands in for package context: its channels are the model
// checker's.
package vcontext

import (
	std "context"

	"verif/mc/gomc"
	"verif/mc/vtime"
)

type (
	Context         = std.Context
	CancelFunc      = std.CancelFunc
	CancelCauseFunc = std.CancelCauseFunc
)

var (
	Canceled         = std.Canceled
	DeadlineExceeded = std.DeadlineExceeded
)

func Background() Context { return std.Background() }
func TODO() Context       { return std.TODO() }

func WithValue(parent Context, key, val any) Context { return std.WithValue(parent, key, val) }

type cancelKey struct{}

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	o        gomc.Obj
	err      error
	cause    error
	children []*cancelCtx
	after    []*afterFunc
	deadline *vtime.Time
	timer    *vtime.Timer
}

func (c *cancelCtx) Deadline() (vtime.Time, bool) {
	if c.deadline != nil {
		return *c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error            { gomc.Point(&c.o, "Context.Err"); return c.err }
func (c *cancelCtx) Value(key any) any {
	if _, ok := key.(cancelKey); ok {
		return c
	}
	return c.parent.Value(key)
}

func (c *cancelCtx) cancel(err, cause error) {
	if gomc.Aborting() {
		return
	}
	gomc.Point(&c.o, "Context cancel")
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	children, after := c.children, c.after
	c.children, c.after = nil, nil
	gomc.Close("Context cancel", (chan<- struct{})(c.done))
	for _, k := range children {
		k.cancel(err, cause)
	}
	for _, a := range after {
		a.run()
	}
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(cancelKey{}).(*cancelCtx); ok && parent.Done() == p.Done() {
		gomc.Point(&p.o, "Context child")
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		gomc.GoDaemon("context", func() {
			a, b := gomc.RecvCase(d), gomc.RecvCase((<-chan struct{})(c.done))
			if gomc.Select("context", false, a, b) == 0 {
				c.cancel(parent.Err(), Cause(parent))
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadlineCause(parent Context, d vtime.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	c.deadline = &d
	if c.err == nil {
		c.timer = vtime.AfterFunc(vtime.Until(d), func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithDeadline(parent Context, d vtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent Context, d vtime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d vtime.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(cancelKey{}).(*cancelCtx); ok {
		gomc.Point(&p.o, "Context.Cause")
		if p.cause != nil {
			return p.cause
		}
	}
	return c.Err()
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (t vtime.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}             { return nil }
func (withoutCancel) Err() error                        { return nil }
func (w withoutCancel) Value(key any) any {
	if _, ok := key.(cancelKey); ok {
		return nil
	}
	return w.Context.Value(key)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

type afterFunc struct {
	f    func()
	over bool
}

func (a *afterFunc) run() {
	if !a.over {
		a.over = true
		gomc.Go("context.AfterFunc", a.f)
	}
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	a := &afterFunc{f: f}
	if p, ok := ctx.Value(cancelKey{}).(*cancelCtx); ok && ctx.Done() == p.Done() {
		gomc.Point(&p.o, "context.AfterFunc")
		if p.err != nil {
			a.run()
		} else {
			p.after = append(p.after, a)
		}
	}
	return func() bool { was := !a.over; a.over = true; return was }
}
