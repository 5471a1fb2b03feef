// Package vtime stands in for time: real types, virtual clock.
package vtime

import (
	"time"

	"github.com/DanLavine/willow/verifmc/vs"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local

	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Date            = time.Date
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

func Now() Time {
	if vs.E == nil {
		return vs.Base
	}
	if !vs.Dead() {
		vs.MixCur(uint64(vs.Now()))
	}
	return vs.Base.Add(vs.Now())
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vs.Sleep(d) }

type Timer struct {
	C <-chan Time
	t *vs.Timer
}

func NewTimer(d Duration) *Timer {
	ch := vs.Make(make(chan Time, 1))
	return &Timer{C: ch, t: vs.NewTimer(d, 0, ch, nil)}
}

func AfterFunc(d Duration, f func()) *Timer {
	return &Timer{t: vs.NewTimer(d, 0, nil, f)}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	if t.t == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.t == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.t.Reset(d, 0)
}

type Ticker struct {
	C <-chan Time
	t *vs.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := vs.Make(make(chan Time, 1))
	return &Ticker{C: ch, t: vs.NewTimer(d, d, ch, nil)}
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.t != nil {
		t.t.Stop()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.t == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	t.t.Reset(d, d)
}
