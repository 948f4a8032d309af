// Package simcontext replaces context: deadlines are kept on the simulator's clock.
package simcontext

import (
	"context"
	"time"

	"verifsim/rt"
	"verifsim/shim/simtime"
)

type timed struct {
	context.Context
	at time.Time
}

func (t *timed) Deadline() (time.Time, bool) { return t.at, true }
func (t *timed) Err() error {
	err := t.Context.Err()
	if err != nil && context.Cause(t.Context) == context.DeadlineExceeded {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if at, ok := parent.Deadline(); ok && at.Before(d) {
		d = at
	}
	ctx, cancel := context.WithCancelCause(parent)
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	stop := rt.AddTimer(simtime.Until(d), func() { cancel(cause) })
	return &timed{ctx, d}, func() { stop(); cancel(nil) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}
