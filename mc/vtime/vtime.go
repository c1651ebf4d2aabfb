// Package vtime replaces time.Now in the instrumented build.
package vtime

import (
	"sync"
	"sync/atomic"
	"time"
)

var base atomic.Int64 // unix nanos; 0 = real clock

// Set fixes the clock; Set(time.Time{}) restores the real one.
func Set(t time.Time) {
	if t.IsZero() {
		base.Store(0)
		return
	}
	base.Store(t.UnixNano())
}

// Advance moves a fixed clock.
func Advance(d time.Duration) { base.Add(int64(d)) }

func Now() time.Time {
	if b := base.Load(); b != 0 {
		return time.Unix(0, b)
	}
	return time.Now()
}

var (
	tmu     sync.Mutex
	manual  bool
	tickers []chan time.Time
	timers  []timer
)

type timer struct {
	t *time.Timer
	f func()
}

// Manual makes tickers created from now on fire only on Fire; Manual(false)
// forgets them.
func Manual(on bool) {
	tmu.Lock()
	manual, tickers, timers = on, nil, nil
	tmu.Unlock()
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *time.Ticker {
	tmu.Lock()
	defer tmu.Unlock()
	if !manual {
		return time.NewTicker(d)
	}
	ch := make(chan time.Time)
	tickers = append(tickers, ch)
	return &time.Ticker{C: ch}
}

// Fire delivers a tick to every manual ticker and returns when the work each
// tick starts is done, which shows by the next tick being taken.
// Code without tickers gets the time its timers may take.
func Fire() {
	var l []chan time.Time
	for i := 0; i < 200 && len(l) == 0; i++ {
		if i > 0 {
			time.Sleep(3 * time.Millisecond)
		}
		tmu.Lock()
		l = tickers
		tmu.Unlock()
	}
	for _, ch := range l {
		for i := 0; i < 2; i++ {
			select {
			case ch <- Now():
			case <-time.After(5 * time.Second):
			}
		}
	}
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	tmu.Lock()
	defer tmu.Unlock()
	if !manual {
		return time.AfterFunc(d, f)
	}
	t := time.AfterFunc(1000*time.Hour, f)
	timers = append(timers, timer{t, f})
	return t
}

// Expire runs, in the caller's thread, what the pending manual timers would
// run. It tells how many there were.
func Expire() int {
	tmu.Lock()
	l := timers
	timers = nil
	tmu.Unlock()
	n := 0
	for _, x := range l {
		if x.t.Stop() { // not stopped before
			x.f()
			n++
		}
	}
	return n
}
