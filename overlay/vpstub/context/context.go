// Package context: deadlines never expire on their own; cancellation is explicit.
package context

import (
	"errors"
	"time"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() <-chan struct{}
	Err() error
	Value(key interface{}) interface{}
}

type CancelFunc func()

var (
	Canceled               = errors.New("context canceled")
	DeadlineExceeded error = errors.New("context deadline exceeded")
)

type ctx struct {
	done   chan struct{}
	err    error
	kids   []*ctx
	k, v   interface{}
	parent Context
}

func (c *ctx) Deadline() (deadline time.Time, ok bool) { return }
func (c *ctx) Done() <-chan struct{}                   { return c.done }
func (c *ctx) Err() error                              { return c.err }
func (c *ctx) Value(key interface{}) interface{} {
	if c.k != nil && c.k == key {
		return c.v
	}
	if c.parent != nil {
		return c.parent.Value(key)
	}
	return nil
}
func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	close(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

var background = &ctx{}

func Background() Context { return background }
func TODO() Context       { return background }

func child(p Context) *ctx {
	c := &ctx{done: make(chan struct{}), parent: p}
	if q, ok := p.(*ctx); ok && q.done != nil {
		if q.err != nil {
			c.cancel(q.err)
		} else {
			q.kids = append(q.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := child(p)
	return c, func() { c.cancel(Canceled) }
}
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) { return WithCancel(p) }
func WithDeadline(p Context, d time.Time) (Context, CancelFunc)    { return WithCancel(p) }
func WithValue(p Context, k, v interface{}) Context {
	c := child(p)
	if q, ok := p.(*ctx); ok && q.done == nil {
		c.done = nil
	}
	c.k, c.v = k, v
	return c
}

// Expire ends a context as its deadline would.
func Expire(p Context) {
	if c, ok := p.(*ctx); ok && c.done != nil {
		c.cancel(DeadlineExceeded)
	}
}
