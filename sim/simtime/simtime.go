// Package simtime replaces package time in instrumented code: the clock belongs to the simulation.
package simtime

import (
	"time"

	"verifsim/rt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday   = time.Sunday
	Monday   = time.Monday
	Saturday = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time                                              { return time.Unix(0, rt.Now()).UTC() }
func Since(t Time) Duration                                  { return Now().Sub(t) }
func Until(t Time) Duration                                  { return t.Sub(Now()) }
func Unix(s, n int64) Time                                   { return time.Unix(s, n).UTC() }
func UnixMilli(m int64) Time                                 { return time.UnixMilli(m).UTC() }
func ParseDuration(s string) (Duration, error)               { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)                        { return time.Parse(l, v) }
func FixedZone(n string, o int) *Location                    { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)               { return time.UTC, nil }
func ParseInLocation(l, v string, _ *Location) (Time, error) { return time.Parse(l, v) }
func Date(y int, m Month, d, h, mi, s, ns int, loc *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, loc)
}

// Sleep advances the simulated clock and lets other tasks run.
func Sleep(d Duration) {
	rt.Advance(int64(d))
	rt.Yield()
}

// Timer mirrors time.Timer; it fires at once in simulated time.
type Timer struct {
	C    <-chan Time
	done bool
}

func (t *Timer) Stop() bool            { r := !t.done; t.done = true; return r }
func (t *Timer) Reset(d Duration) bool { r := !t.done; t.done = false; return r }

func After(d Duration) <-chan Time {
	c := make(chan Time, 1)
	rt.Advance(int64(d))
	c <- Now()
	return c
}
func NewTimer(d Duration) *Timer { return &Timer{C: After(d)} }
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	rt.Go(func() {
		rt.Advance(int64(d))
		if !t.done {
			t.done = true
			f()
		}
	})
	return t
}

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
