// Package xtime replaces the clock functions of package time.
package xtime

import (
	"time"

	"verifsim/simrt"
)

// Now reads the simulated clock.
func Now() time.Time {
	s := simrt.Enter()
	if s == nil {
		return time.Unix(1700000000, 0).UTC()
	}
	s.SyncPoint("now")
	return s.Epoch.Add(s.Now)
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep sleeps in simulated time.
func Sleep(d time.Duration) {
	s := simrt.Enter()
	if d <= 0 {
		s.SyncPoint("sleep0")
		return
	}
	s.Sleep(d)
}

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	f func()
	r *simrt.TimerRef
	p *simrt.Proc
	s *simrt.Sim
}

func (t *Timer) arm(d time.Duration) {
	s := t.s
	t.r = s.AddTimer(d, func() {
		t.r = nil
		if t.f != nil {
			s.GoIn(t.p, "time.AfterFunc", t.f)
			return
		}
		simrt.TrySendNB(s, t.c, s.Epoch.Add(s.Now))
	})
}

// Stop cancels.
func (t *Timer) Stop() bool {
	t.s.SyncPoint("timer-stop")
	if t.r == nil {
		return false
	}
	ok := t.r.Stop()
	t.r = nil
	return ok
}

// Reset rearms.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	s := simrt.Enter()
	s.SyncPoint("timer")
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, s: s, p: s.Cur().Proc}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	s := simrt.Enter()
	s.SyncPoint("timer")
	t := &Timer{f: f, s: s, p: s.Cur().Proc}
	t.arm(d)
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	next time.Duration
	r    *simrt.TimerRef
	s    *simrt.Sim
}

func (t *Ticker) arm() {
	s := t.s
	t.r = s.AddTimer(t.next-s.Now, func() {
		simrt.TrySendNB(s, t.c, s.Epoch.Add(s.Now))
		for t.next <= s.Now {
			t.next += t.d
		}
		t.arm()
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	s := simrt.Enter()
	s.SyncPoint("ticker")
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d, s: s, next: s.Now + d}
	t.arm()
	return t
}

// Stop stops.
func (t *Ticker) Stop() { t.s.SyncPoint("ticker-stop"); t.r.Stop() }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	t.r.Stop()
	t.d = d
	t.next = t.s.Now + d
	t.arm()
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
