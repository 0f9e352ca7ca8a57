package time

import (
	rt "time"

	"github.com/gkampitakis/go-snaps/verifsim/simrt"
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly

	January = rt.January
	Sunday  = rt.Sunday
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

func Now() Time                                { return simrt.Now() }
func Since(t Time) Duration                    { return simrt.Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(simrt.Now()) }
func Sleep(d Duration)                         { simrt.Sleep(d) }
func Unix(s, n int64) Time                     { return rt.Unix(s, n) }
func UnixMilli(m int64) Time                   { return rt.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return rt.UnixMicro(m) }
func Parse(a, b string) (Time, error)          { return rt.Parse(a, b) }
func ParseDuration(s string) (Duration, error) { return rt.ParseDuration(s) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, ns, l)
}
func FixedZone(n string, o int) *Location { return rt.FixedZone(n, o) }

// Timer is a timer of the simulated clock. It never fires after the process has ended.
type Timer struct {
	C    <-chan Time
	gen  int
	live bool
	f    func()
	c    chan Time
}

func (t *Timer) start(d Duration) {
	t.gen++
	t.live = true
	g := t.gen
	simrt.GoNamed("timer", func() {
		simrt.Sleep(d)
		if t.gen != g || !t.live {
			return
		}
		t.live = false
		if t.f != nil {
			t.f()
		} else if simrt.Select(true, simrt.CS(t.c)) == 0 {
			t.c <- simrt.Now()
		}
	})
}

func (t *Timer) Stop() bool {
	was := t.live
	t.live = false
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.live
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	c := simrt.MkChan[chan Time](1)
	t := &Timer{c: c, C: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }
