// Package time is package time on the simulated clock.
package time

import (
	real_ "time"

	"verif/simrt"
)

// Now returns the simulated time.
func Now() real_.Time { return simrt.TimeNow() }

// Since is time.Since.
func Since(t real_.Time) real_.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t real_.Time) real_.Duration { return t.Sub(Now()) }

// Sleep suspends the task.
func Sleep(d real_.Duration) {
	if w := simrt.W; w != nil {
		w.Sleep(int64(d), "sleep")
	}
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan real_.Time
	c  chan real_.Time
	f  func()
	ev *simrt.Event
}

func (t *Timer) arm(d real_.Duration) {
	w := simrt.W
	if w == nil {
		return
	}
	t.ev = w.At(int64(d), func() {
		w.Count("probe.timer_fired")
		if t.f != nil {
			simrt.GoCall(t.f)
			return
		}
		simrt.TrySendEvent(t.c, Now())
	})
}

// NewTimer is time.NewTimer.
func NewTimer(d real_.Duration) *Timer {
	c := make(chan real_.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d real_.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

// After is time.After.
func After(d real_.Duration) <-chan real_.Time { return NewTimer(d).C }

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	w := simrt.W
	if w == nil {
		return false
	}
	active := w.Cancel(t.ev)
	if t.c != nil {
		if simrt.Len(t.c) > 0 {
			active = true
		}
		simrt.Drain(t.c)
	}
	return active
}

// Reset is Timer.Reset.
func (t *Timer) Reset(d real_.Duration) bool {
	a := t.Stop()
	t.arm(d)
	return a
}

// Ticker is time.Ticker.
type Ticker struct {
	C  <-chan real_.Time
	c  chan real_.Time
	d  real_.Duration
	ev *simrt.Event
}

func (t *Ticker) arm() {
	w := simrt.W
	if w == nil {
		return
	}
	t.ev = w.At(int64(t.d), func() {
		simrt.TrySendEvent(t.c, Now())
		t.arm()
	})
}

// NewTicker is time.NewTicker.
func NewTicker(d real_.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan real_.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

// Tick is time.Tick.
func Tick(d real_.Duration) <-chan real_.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	if w := simrt.W; w != nil {
		w.Cancel(t.ev)
		simrt.Drain(t.c)
	}
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d real_.Duration) {
	t.Stop()
	t.d = d
	t.arm()
}
