// Package context stands in for the standard context package under simulation.
package context

import (
	real "context"
	"time"

	"github.com/jcorbin/anansi/zz/sim"
)

// What needs no simulation.
type (
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

// Errors of the real package.
var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

// Background is never done.
func Background() Context { return real.Background() }

// TODO is never done.
func TODO() Context { return real.TODO() }

// WithValue adds a value.
func WithValue(parent Context, key, val any) Context { return real.WithValue(parent, key, val) }

type selfKey struct{}

type node struct {
	parent     Context
	done       chan struct{}
	err, cause error
	deadline   time.Time
	timer      *sim.Timer
	kids       []*node
	f          func()
}

func (n *node) Done() <-chan struct{} { return n.done }
func (n *node) Err() error            { sim.Point(); return n.err }

func (n *node) Deadline() (time.Time, bool) {
	if !n.deadline.IsZero() {
		return n.deadline, true
	}
	return n.parent.Deadline()
}

func (n *node) Value(key any) any {
	if key == (selfKey{}) {
		return n
	}
	return n.parent.Value(key)
}

func (n *node) cancel(err, cause error) {
	if n.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	n.err, n.cause = err, cause
	sim.Close(n.done)
	if n.f != nil {
		sim.S.Spawn("context", sim.S.K.Prog, n.f)
	}
	for _, k := range n.kids {
		k.cancel(err, cause)
	}
	n.kids = nil
	if n.timer != nil {
		sim.S.Cancel(n.timer)
		n.timer = nil
	}
	if p, ok := n.parent.Value(selfKey{}).(*node); ok {
		for i, k := range p.kids {
			if k == n {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				break
			}
		}
	}
}

func child(parent Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{parent: parent, done: make(chan struct{})}
	pd := parent.Done()
	if pd == nil {
		return n
	}
	if p, ok := parent.Value(selfKey{}).(*node); ok && p.Done() == pd {
		if p.err != nil {
			n.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, n)
		}
		return n
	}
	sim.S.Spawn("context", sim.S.K.Prog, func() {
		if sim.Select(false, sim.RecvCase(pd), sim.RecvCase((<-chan struct{})(n.done))) == 0 {
			n.cancel(parent.Err(), Cause(parent))
		}
	})
	return n
}

// Cause says why c was canceled.
func Cause(c Context) error {
	if n, ok := c.Value(selfKey{}).(*node); ok {
		return n.cause
	}
	return c.Err()
}

// WithCancel makes a context that can be canceled.
func WithCancel(parent Context) (Context, CancelFunc) {
	n := child(parent)
	return n, func() { sim.Point(); n.cancel(Canceled, nil) }
}

// WithCancelCause makes a context that can be canceled for a reason.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	n := child(parent)
	return n, func(cause error) { sim.Point(); n.cancel(Canceled, cause) }
}

// WithDeadline makes a context that ends at some time.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause makes a context that ends at some time, for a reason.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	n := child(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		n.deadline = d
		if n.err == nil {
			if left := d.UnixNano() - sim.S.Now(); left <= 0 {
				n.cancel(DeadlineExceeded, cause)
			} else {
				n.timer = sim.S.After(left+sim.S.Late(), func() {
					n.timer = nil
					n.cancel(DeadlineExceeded, cause)
				})
			}
		}
	}
	return n, func() { sim.Point(); n.cancel(Canceled, nil) }
}

// WithTimeout makes a context that ends after some time.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, sim.S.Now()+int64(d)).UTC(), nil)
}

// WithTimeoutCause makes a context that ends after some time, for a reason.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, sim.S.Now()+int64(d)).UTC(), cause)
}

type detached struct{ Context }

func (detached) Deadline() (time.Time, bool) { return time.Time{}, false }
func (detached) Done() <-chan struct{}       { return nil }
func (detached) Err() error                  { return nil }
func (d detached) Value(key any) any {
	if key == (selfKey{}) {
		return nil
	}
	return d.Context.Value(key)
}

// WithoutCancel makes a context that isn't done when its parent is.
func WithoutCancel(parent Context) Context { return detached{parent} }

// AfterFunc runs f after c is done.
func AfterFunc(c Context, f func()) (stop func() bool) {
	n := child(c)
	if n.err != nil {
		sim.S.Spawn("context", sim.S.K.Prog, f)
		return func() bool { return false }
	}
	n.f = f
	return func() bool {
		sim.Point()
		if n.err != nil {
			return false
		}
		n.f = nil
		n.cancel(Canceled, nil)
		return true
	}
}
