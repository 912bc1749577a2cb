// Package vcontext replaces package context.  It is ordinary Go and is
// rewritten for the simulator like the code under test.
package vcontext

import (
	"errors"
	"sync"
	"time"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() <-chan struct{}
	Err() error
	Value(key interface{}) interface{}
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = errors.New("context canceled")

type deadlineErr struct{}

func (deadlineErr) Error() string   { return "context deadline exceeded" }
func (deadlineErr) Timeout() bool   { return true }
func (deadlineErr) Temporary() bool { return true }

var DeadlineExceeded error = deadlineErr{}

type empty struct{ name string }

func (*empty) Deadline() (d time.Time, ok bool)  { return }
func (*empty) Done() <-chan struct{}             { return nil }
func (*empty) Err() error                        { return nil }
func (*empty) Value(key interface{}) interface{} { return nil }
func (e *empty) String() string                  { return e.name }

func Background() Context { return &empty{"context.Background"} }
func TODO() Context       { return &empty{"context.TODO"} }

type ctx struct {
	Context
	m     sync.Mutex
	done  chan struct{}
	err   error
	cause error
	kids  map[*ctx]bool
	fs    []func()
	at    time.Time
	timed bool
	timer *time.Timer
}

type selfKey struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.m.Lock()
	defer c.m.Unlock()
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.at, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(key interface{}) interface{} {
	if _, ok := key.(selfKey); ok {
		return c
	}
	return c.Context.Value(key)
}

func (c *ctx) cancel(err, cause error) {
	c.m.Lock()
	if c.err != nil {
		c.m.Unlock()
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	close(c.done)
	kids, fs := c.kids, c.fs
	c.kids, c.fs = nil, nil
	if c.timer != nil {
		c.timer.Stop()
	}
	c.m.Unlock()
	for k := range kids {
		k.cancel(err, cause)
	}
	for _, f := range fs {
		go f()
	}
	if p, _ := c.Context.Value(selfKey{}).(*ctx); p != nil {
		p.m.Lock()
		delete(p.kids, c)
		p.m.Unlock()
	}
}

func child(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{}), kids: map[*ctx]bool{}}
	p, _ := parent.Value(selfKey{}).(*ctx)
	switch {
	case p != nil && parent.Done() == p.Done():
		p.m.Lock()
		err, cause := p.err, p.cause
		if err == nil {
			p.kids[c] = true
		}
		p.m.Unlock()
		if err != nil {
			c.cancel(err, cause)
		}
	case parent.Done() != nil:
		go func() {
			select {
			case <-parent.Done():
				c.cancel(parent.Err(), Cause(parent))
			case <-c.done:
			}
		}()
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := child(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := child(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := child(parent)
	if at, ok := parent.Deadline(); !ok || d.Before(at) {
		c.at, c.timed = d, true
		if left := time.Until(d); left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.m.Lock()
			if c.err == nil {
				c.timer = time.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
			}
			c.m.Unlock()
		}
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, _ := c.Value(selfKey{}).(*ctx); p != nil {
		p.m.Lock()
		defer p.m.Unlock()
		if p.cause != nil {
			return p.cause
		}
	}
	return c.Err()
}

func AfterFunc(parent Context, f func()) (stop func() bool) {
	c := child(parent)
	c.m.Lock()
	gone := c.err != nil
	if !gone {
		c.fs = append(c.fs, f)
	}
	c.m.Unlock()
	if gone {
		go f()
	}
	return func() bool {
		c.m.Lock()
		was := c.err == nil
		c.fs = nil
		c.m.Unlock()
		c.cancel(Canceled, nil)
		return was
	}
}

type valued struct {
	Context
	k, v interface{}
}

func (c *valued) Value(key interface{}) interface{} {
	if c.k == key {
		return c.v
	}
	return c.Context.Value(key)
}

func WithValue(parent Context, key, val interface{}) Context {
	return &valued{parent, key, val}
}

type uncancelled struct{ Context }

func (uncancelled) Deadline() (d time.Time, ok bool) { return }
func (uncancelled) Done() <-chan struct{}            { return nil }
func (uncancelled) Err() error                       { return nil }
func (c uncancelled) Value(key interface{}) interface{} {
	if _, ok := key.(selfKey); ok {
		return nil
	}
	return c.Context.Value(key)
}

func WithoutCancel(parent Context) Context { return uncancelled{parent} }
