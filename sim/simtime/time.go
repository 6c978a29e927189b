// Package time is the simulated replacement of the standard time
// package: the clock is the virtual clock of the calling process.
package time

import (
	std "time"

	"verif.local/sim/simrt"
)

// Timer and Ticker run on the clock of the simulation's bubble.
type (
	Timer  = std.Timer
	Ticker = std.Ticker
)

// Now is the wall clock of the calling process.
func Now() Time {
	t := simrt.Cur()
	if t == nil {
		return simrt.Epoch
	}
	return t.World().Wall(t.Proc)
}

// Since is Now minus t.
func Since(t Time) Duration { return Now().Sub(t) }

// Until is t minus Now.
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep parks the task.
func Sleep(d Duration) {
	t := simrt.Cur()
	if t == nil {
		return
	}
	t.SleepFor(int64(d))
}

// NewTimer and friends.
func NewTimer(d Duration) *Timer   { return std.NewTimer(d) }
func NewTicker(d Duration) *Ticker { return std.NewTicker(d) }
func After(d Duration) <-chan Time { return std.After(d) }
func Tick(d Duration) <-chan Time  { return std.Tick(d) }
func AfterFunc(d Duration, f func()) *Timer {
	t := simrt.Cur()
	if t == nil {
		return std.AfterFunc(d, f)
	}
	stopped := make(chan struct{})
	tm := std.AfterFunc(d, func() { close(stopped) })
	simrt.Go(func() {
		t := simrt.Cur()
		end := t.World().Now() + int64(d)
		t.SleepFor(end - t.World().Now())
		select {
		case <-stopped:
			f()
		default:
		}
	})
	return tm
}
