// Package simtime replaces time: the clock is the simulator's.
package simtime

import (
	"time"

	"verifsim/rt"
)

var epoch = rt.Epoch

func Now() time.Time {
	if rt.S == nil {
		return epoch
	}
	rt.S.Now += rt.S.Tick
	rt.FireDue()
	return epoch.Add(rt.S.Epoch + rt.S.Now)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { rt.Sleep(d) }

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	stop func() bool
}

func (t *Timer) fire() {
	if t.f != nil {
		rt.Go(t.f)
		return
	}
	rt.TrySend(t.c, epoch.Add(rt.S.Epoch+rt.S.Now))
}

func NewTimer(d time.Duration) *Timer {
	c := rt.MakeChan[chan time.Time](1)
	t := &Timer{C: c, c: c}
	t.stop = rt.AddTimer(d, t.fire)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.stop = rt.AddTimer(d, t.fire)
	return t
}
func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.stop()
	t.stop = rt.AddTimer(d, t.fire)
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	stop func() bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := rt.MakeChan[chan time.Time](1)
	t := &Ticker{C: c, c: c, d: d}
	t.stop = rt.AddTimer(d, t.tick)
	return t
}
func (t *Ticker) tick() {
	rt.TrySend(t.c, epoch.Add(rt.S.Epoch+rt.S.Now))
	t.stop = rt.AddTimer(t.d, t.tick)
}
func (t *Ticker) Stop() { t.stop() }
func (t *Ticker) Reset(d time.Duration) {
	t.stop()
	t.d = d
	t.stop = rt.AddTimer(d, t.tick)
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
