// Package time replaces the standard package time in the instrumented library:
// same types, but the clock and all timers belong to the simulator.
package time

import (
	rt "time"

	"verifsim/simrt"
)

type (
	Duration   = rt.Duration
	Time       = rt.Time
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December

	Sunday    = rt.Sunday
	Monday    = rt.Monday
	Tuesday   = rt.Tuesday
	Wednesday = rt.Wednesday
	Thursday  = rt.Thursday
	Friday    = rt.Friday
	Saturday  = rt.Saturday
)

var (
	UTC             = rt.UTC
	Local           = rt.UTC
	Date            = rt.Date
	FixedZone       = rt.FixedZone
	LoadLocation    = rt.LoadLocation
	Parse           = rt.Parse
	ParseDuration   = rt.ParseDuration
	ParseInLocation = rt.ParseInLocation
	Unix            = rt.Unix
	UnixMilli       = rt.UnixMilli
	UnixMicro       = rt.UnixMicro
)

var base = rt.Unix(1_700_000_000, 0).UTC()

// Now returns the simulated time.
func Now() Time { return base.Add(Duration(simrt.Now())) }

// SimNanos converts a time to simulated nanoseconds since the start of the run.
func SimNanos(t Time) int64 { return int64(t.Sub(base)) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }

// Timer is a simulated time.Timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	tm *simrt.SimTimer
}

func (t *Timer) fire() {
	if t.f != nil {
		simrt.SpawnLib(t.f)
		return
	}
	simrt.NonblockSend(t.c, Now())
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.tm = simrt.After(int64(d), t.fire)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.tm = simrt.After(int64(d), t.fire)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.Yield()
	r := t.tm.Stop()
	t.drain()
	return r
}

// drain gives the semantics of Go 1.23: no stale value after Stop or Reset.
func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Reset(d Duration) bool {
	simrt.Yield()
	r := t.tm.Stop()
	t.drain()
	t.tm = simrt.After(int64(d), t.fire)
	return r
}

// Ticker is a simulated time.Ticker.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	tm *simrt.SimTimer
}

func (t *Ticker) fire() {
	simrt.NonblockSend(t.c, Now())
	t.tm = simrt.After(int64(t.d), t.fire)
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.tm = simrt.After(int64(d), t.fire)
	return t
}

func (t *Ticker) Stop() { simrt.Yield(); t.tm.Stop() }
func (t *Ticker) Reset(d Duration) {
	simrt.Yield()
	t.tm.Stop()
	t.d = d
	t.tm = simrt.After(int64(d), t.fire)
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
