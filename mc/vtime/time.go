// Package vtime stands in for package time. Time passes only when nothing else
// can happen: then a timer may fire, or a sleeper wake. The clock is virtual.
package vtime

import (
	std "time"

	"verif/mc/gomc"
)

type clockKey struct{}

func clock() *Duration {
	return gomc.Local(clockKey{}, func() any { return new(Duration) }).(*Duration)
}

var base = std.Date(2020, 1, 1, 0, 0, 0, 0, std.UTC)

// Now is a microsecond later on every call, so that busy waiting ends.
func Now() Time {
	c := clock()
	*c += Microsecond
	return base.Add(*c)
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

// pass waits until d after start.
func pass(site string, start, d Duration) {
	gomc.Pass(site)
	if c := clock(); *c < start+d {
		*c = start + d
	}
}

func Sleep(d Duration) {
	if d > 0 {
		pass("time.Sleep", *clock(), d)
	} else {
		gomc.Step("time.Sleep")
	}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func Tick(d Duration) <-chan Time { return NewTicker(d).C }

type Timer struct {
	C     <-chan Time
	f     func()
	c     chan Time
	armed int // how often it has been armed or stopped
	live  bool
}

func (t *Timer) arm(d Duration) {
	t.armed++
	t.live = true
	n := t.armed
	start := *clock()
	gomc.GoDaemon("timer", func() {
		pass("timer", start, d)
		if !t.live || t.armed != n {
			return
		}
		t.live = false
		if t.f != nil {
			t.f()
			return
		}
		if gomc.Len("timer", (<-chan Time)(t.c)) == 0 {
			gomc.SendTo("timer", (chan<- Time)(t.c))(Now())
		}
	})
}

func (t *Timer) stop() bool {
	was := t.live
	t.live = false
	t.armed++
	if t.c != nil { // as of Go 1.23 nothing stale is left in the channel
		for gomc.Len("timer", (<-chan Time)(t.c)) > 0 {
			gomc.Recv("timer", (<-chan Time)(t.c))
			was = true
		}
	}
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.stop()
	t.arm(d)
	return was
}

// A Ticker ticks at most three times per execution and reset.
type Ticker struct {
	C <-chan Time
	c chan Time
	n int
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker")
	}
	t.n++
	n := t.n
	gomc.GoDaemon("ticker", func() {
		for i := 0; i < 3; i++ {
			pass("ticker", *clock(), d)
			if t.n != n {
				return
			}
			if gomc.Len("ticker", (<-chan Time)(t.c)) == 0 {
				gomc.SendTo("ticker", (chan<- Time)(t.c))(Now())
			}
		}
	})
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func (t *Ticker) Stop()            { t.n++ }
func (t *Ticker) Reset(d Duration) { t.start(d) }

// Slow lets an hour pass once nothing else can happen.
func Slow(site string) {
	gomc.LowPrio(site)
	*clock() += Hour
}
