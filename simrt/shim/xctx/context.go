// Package context is package context for simulated tasks.
package context

import (
	real_ "context"
	"time"

	"verif/simrt"
)

type cctx struct {
	real_.Context
	done     chan struct{}
	err      error
	cause    error
	dl       time.Time
	hasDL    bool
	ev       *simrt.Event
	children []*cctx
}

type ckey struct{}

func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { return c.err }
func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.Context.Deadline()
}
func (c *cctx) Value(k any) any {
	if _, ok := k.(ckey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if w := simrt.W; w != nil {
		w.Cancel(c.ev)
		simrt.Close(c.done)
	}
	for _, k := range c.children {
		k.cancel(err, cause)
	}
}

func newc(p real_.Context) *cctx {
	c := &cctx{Context: p, done: make(chan struct{})}
	if pc, ok := p.Value(ckey{}).(*cctx); ok {
		if pc.err != nil {
			c.cancel(pc.err, pc.cause)
		} else {
			pc.children = append(pc.children, c)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(p real_.Context) (real_.Context, real_.CancelFunc) {
	c := newc(p)
	return c, func() { c.cancel(real_.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(p real_.Context) (real_.Context, real_.CancelCauseFunc) {
	c := newc(p)
	return c, func(cause error) { c.cancel(real_.Canceled, cause) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(p real_.Context, d time.Time) (real_.Context, real_.CancelFunc) {
	return WithTimeout(p, d.Sub(simrt.TimeNow()))
}

// WithTimeout is context.WithTimeout.
func WithTimeout(p real_.Context, d time.Duration) (real_.Context, real_.CancelFunc) {
	c := newc(p)
	dl := simrt.TimeNow().Add(d)
	if pd, ok := p.Deadline(); ok && pd.Before(dl) {
		dl = pd
		d = dl.Sub(simrt.TimeNow())
	}
	c.dl, c.hasDL = dl, true
	if w := simrt.W; w != nil && c.err == nil {
		c.ev = w.At(int64(d), func() { c.cancel(real_.DeadlineExceeded, nil) })
	}
	return c, func() { c.cancel(real_.Canceled, nil) }
}

// Cause is context.Cause.
func Cause(c real_.Context) error {
	if x, ok := c.Value(ckey{}).(*cctx); ok {
		return x.cause
	}
	return c.Err()
}
