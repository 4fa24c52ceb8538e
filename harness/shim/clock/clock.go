//go:build go1.21

// Package clock is package time with a clock that is set by hand (the package under test imports it instead of
// time when the virtual clock is asked for).
package clock

import (
	"sync/atomic"
	"time"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Ticker     = time.Ticker
	Time       = time.Time
	Timer      = time.Timer
	Weekday    = time.Weekday
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	Local                  = time.Local
	UTC                    = time.UTC
	After                  = time.After
	Sleep                  = time.Sleep
	Tick                   = time.Tick
	ParseDuration          = time.ParseDuration
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	NewTicker              = time.NewTicker
	Date                   = time.Date
	Parse                  = time.Parse
	ParseInLocation        = time.ParseInLocation
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
	AfterFunc              = time.AfterFunc
	NewTimer               = time.NewTimer
)

var hand atomic.Pointer[time.Time]
var asked atomic.Int64

// Set sets the clock
func Set(t time.Time) { hand.Store(&t) }

// Run lets the clock run by itself again
func Run() { hand.Store(nil) }

// Asked is the number of times the clock was looked at
func Asked() int64 { return asked.Load() }

func Now() Time {
	asked.Add(1)
	if t := hand.Load(); t != nil {
		return *t
	}
	return time.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }

func Until(t Time) Duration { return t.Sub(Now()) }
