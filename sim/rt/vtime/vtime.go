// Package vtime stands in for time: a virtual monotonic clock and a wall clock
// that can be stepped independently of it.
package vtime

import (
	"time"
	"unsafe"

	"verifsim/rt"
	"verifsim/rt/vnet"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Unix(s, ns int64) Time                    { return time.Unix(s, ns).UTC() }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us).UTC() }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }

// base of the wall clock: 2020-03-01 12:00:00 UTC
const wallBase = 1583064000

const (
	hasMonotonic   = 1 << 63
	wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *Location
}

// mk builds a Time with separate wall and monotonic readings.
func mk(mono, wallOff int64) Time {
	ns := mono + wallOff
	sec := int64(wallBase) + ns/1e9
	rem := ns % 1e9
	if rem < 0 {
		rem += 1e9
		sec--
	}
	var t Time
	r := (*rawTime)(unsafe.Pointer(&t))
	wsec := uint64(sec + unixToInternal - wallToInternal)
	r.wall = hasMonotonic | wsec<<30 | uint64(rem)
	r.ext = mono + 1
	return t
}

// Now is what the code under test sees.
func Now() Time {
	if rt.W == nil {
		return mk(0, 0)
	}
	rt.Live()
	rt.PointAny(40)
	return mk(rt.Now(), rt.WallOffset())
}

// Peek reads the clock without being a scheduling point.
func Peek() Time { return mk(rt.Now(), rt.WallOffset()) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) { rt.SleepNs(int64(d)) }

// Timer has the semantics of Go before 1.23 (the module says go 1.16): a
// channel of capacity one that may hold a stale value.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	ev rt.Ev
	on bool
}

func (t *Timer) arm(d Duration) {
	if d < 0 {
		d = 0
	}
	t.on = true
	t.ev = rt.After(int64(d), func() {
		t.on = false
		if t.f != nil {
			rt.Spawn("AfterFunc", t.f)
		} else {
			rt.EvSend(t.c, Peek())
		}
	})
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	if rt.Live() {
		rt.Point(41)
		t.arm(d)
	}
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	if rt.Live() {
		rt.Point(41)
		t.arm(d)
	}
	return t
}

func (t *Timer) Stop() bool {
	if !rt.Live() {
		return false
	}
	rt.Point(42)
	was := t.on
	t.on = false
	t.ev.Cancel()
	return was
}

func (t *Timer) Reset(d Duration) bool {
	if !rt.Live() {
		return false
	}
	rt.Point(43)
	was := t.on
	t.ev.Cancel()
	t.arm(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	ev rt.Ev
}

func (t *Ticker) arm() {
	t.ev = rt.After(int64(t.d), func() {
		rt.EvSend(t.c, Peek())
		t.arm()
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time, 1), d: d}
	t.C = t.c
	if rt.Live() {
		rt.Point(41)
		t.arm()
	}
	return t
}

func (t *Ticker) Stop() {
	if !rt.Live() {
		return
	}
	rt.Point(42)
	t.ev.Cancel()
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if !rt.Live() {
		return
	}
	rt.Point(43)
	t.ev.Cancel()
	t.d = d
	t.arm()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func init() { vnet.SetPeek(Peek) }
