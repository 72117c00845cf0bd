// Package time stands in for the standard time package under simulation.
package time

import (
	real "time"

	"github.com/jcorbin/anansi/zz/sim"
)

// Local time isn't UTC, so that confusing the two shows.
func init() { real.Local = real.FixedZone("NPT", (5*60+45)*60) }

const epoch = 1767225600

func at(n int64) Time { return real.Unix(0, n) }

// Now reads the simulated clock.
func Now() Time {
	if sim.S == nil {
		return real.Unix(epoch, 0)
	}
	sim.Point()
	n := sim.S.Now()
	if sim.S.OnClock != nil {
		sim.S.OnClock(n)
	}
	return at(n)
}

// Since is Now().Sub(t).
func Since(t Time) Duration { return Now().Sub(t) }

// Until is t.Sub(Now()).
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep blocks for d.
func Sleep(d Duration) { sim.S.Sleep(int64(d)) }

// Timer is a simulated timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	t *sim.Timer
}

func (t *Timer) arm(d Duration) {
	s := sim.S
	t.t = s.After(int64(d)+s.Late(), func() {
		t.t = nil
		if t.f != nil {
			s.Spawn("timer", s.K.Prog, t.f)
			return
		}
		sim.TrySend(t.c, at(s.Now()))
	})
}

// NewTimer makes a timer.
func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	sim.Point()
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	sim.Point()
	r := t.t != nil && sim.S.Cancel(t.t)
	t.t = nil
	return r
}

// Reset restarts the timer.
func (t *Timer) Reset(d Duration) bool {
	r := t.Stop()
	t.arm(d)
	return r
}

// After is NewTimer(d).C.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// AfterFunc runs f after d.
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	sim.Point()
	return t
}

// Ticker is a simulated ticker.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	t    *sim.Timer
	when int64
	d    int64
}

func (t *Ticker) arm() {
	s := sim.S
	delay := t.when - s.Elapsed()
	if delay < 0 {
		delay = 0
	}
	t.t = s.After(delay+s.Late(), func() {
		if !sim.TrySend(t.c, at(s.Now())) {
			s.Probe("tick.dropped")
		}
		now := s.Elapsed()
		t.when += t.d * (1 + (now-t.when)/t.d)
		t.arm()
	})
}

// NewTicker makes a ticker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: int64(d), when: sim.S.Elapsed() + int64(d)}
	sim.S.Tickers++
	t.arm()
	sim.Point()
	return t
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	sim.Point()
	if t.t != nil {
		sim.S.Cancel(t.t)
		t.t = nil
		sim.S.Tickers--
	}
}

// Reset restarts the ticker.
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.t != nil {
		sim.S.Cancel(t.t)
	} else {
		sim.S.Tickers++
	}
	t.d = int64(d)
	t.when = sim.S.Elapsed() + t.d
	t.arm()
}

// Tick is NewTicker(d).C.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
