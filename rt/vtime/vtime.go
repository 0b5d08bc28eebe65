// Package vtime replaces the waiting parts of time by virtual time.
package vtime

import (
	"time"

	"github.com/vearutop/flatjsonl/zzverif/rt"
)

// Epoch is when runs start.
var Epoch = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

// Sleep sleeps in virtual time.
func Sleep(d time.Duration) { rt.Sleep(int64(d)) }

// Now is the virtual time.
func Now() time.Time { return Epoch.Add(time.Duration(rt.Now())) }

// Since is relative to the virtual time.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is relative to the virtual time.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// After fires after virtual time.
func After(d time.Duration) *rt.Chan[time.Time] {
	return NewTimer(d).C
}

// Tick ticks.
func Tick(d time.Duration) *rt.Chan[time.Time] { return NewTicker(d).C }

// Timer replaces time.Timer.
type Timer struct {
	C   *rt.Chan[time.Time]
	f   func()
	gen int
	on  bool
}

// NewTimer starts a timer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: rt.MakeChan[time.Time](1)}
	t.start(d)

	return t
}

// AfterFunc runs f later.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)

	return t
}

func (t *Timer) start(d time.Duration) {
	t.gen++
	t.on = true
	g := t.gen

	rt.Go(func() {
		rt.Sleep(int64(d))

		if t.gen != g || !t.on {
			return
		}

		t.on = false

		if t.f != nil {
			t.f()
			return
		}

		t.C.Send(Now())
	})
}

// Stop stops.
func (t *Timer) Stop() bool {
	was := t.on
	t.on = false

	return was
}

// Reset restarts.
func (t *Timer) Reset(d time.Duration) bool {
	was := t.on
	t.start(d)

	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C  *rt.Chan[time.Time]
	on bool
}

// NewTicker starts a ticker.
func NewTicker(d time.Duration) *Ticker {
	t := &Ticker{C: rt.MakeChan[time.Time](1), on: true}

	rt.Go(func() {
		for {
			rt.Sleep(int64(d))

			if !t.on {
				return
			}

			if rt.ChLen(t.C) == 0 {
				t.C.Send(Now())
			}
		}
	})

	return t
}

// Stop stops.
func (t *Ticker) Stop() { t.on = false }

// Reset is a no-op.
func (t *Ticker) Reset(time.Duration) {}
