// Package time is package time with a fixed clock, so that symbolic and native runs
// see the same date. Generated once from the exported names of package time.
package time

import t "time"

const ANSIC = t.ANSIC

func After(a0 t.Duration) <-chan t.Time           { return t.After(a0) }
func AfterFunc(a0 t.Duration, a1 func()) *t.Timer { return t.AfterFunc(a0, a1) }

const April = t.April
const August = t.August

func Date(a0 int, a1 t.Month, a2 int, a3 int, a4 int, a5 int, a6 int, a7 *t.Location) t.Time {
	return t.Date(a0, a1, a2, a3, a4, a5, a6, a7)
}

const DateOnly = t.DateOnly
const DateTime = t.DateTime
const December = t.December

type Duration = t.Duration

const February = t.February

func FixedZone(a0 string, a1 int) *t.Location { return t.FixedZone(a0, a1) }

const Friday = t.Friday
const Hour = t.Hour
const January = t.January
const July = t.July
const June = t.June
const Kitchen = t.Kitchen
const Layout = t.Layout

func LoadLocation(a0 string) (*t.Location, error) { return t.LoadLocation(a0) }
func LoadLocationFromTZData(a0 string, a1 []byte) (*t.Location, error) {
	return t.LoadLocationFromTZData(a0, a1)
}

var Local = t.Local

type Location = t.Location

const March = t.March
const May = t.May
const Microsecond = t.Microsecond
const Millisecond = t.Millisecond
const Minute = t.Minute
const Monday = t.Monday

type Month = t.Month

const Nanosecond = t.Nanosecond

func NewTicker(a0 t.Duration) *t.Ticker { return t.NewTicker(a0) }
func NewTimer(a0 t.Duration) *t.Timer   { return t.NewTimer(a0) }

const November = t.November
const October = t.October

func Parse(a0 string, a1 string) (t.Time, error)  { return t.Parse(a0, a1) }
func ParseDuration(a0 string) (t.Duration, error) { return t.ParseDuration(a0) }

type ParseError = t.ParseError

func ParseInLocation(a0 string, a1 string, a2 *t.Location) (t.Time, error) {
	return t.ParseInLocation(a0, a1, a2)
}

const RFC1123 = t.RFC1123
const RFC1123Z = t.RFC1123Z
const RFC3339 = t.RFC3339
const RFC3339Nano = t.RFC3339Nano
const RFC822 = t.RFC822
const RFC822Z = t.RFC822Z
const RFC850 = t.RFC850
const RubyDate = t.RubyDate
const Saturday = t.Saturday
const Second = t.Second
const September = t.September

func Sleep(a0 t.Duration) { t.Sleep(a0) }

const Stamp = t.Stamp
const StampMicro = t.StampMicro
const StampMilli = t.StampMilli
const StampNano = t.StampNano
const Sunday = t.Sunday
const Thursday = t.Thursday

func Tick(a0 t.Duration) <-chan t.Time { return t.Tick(a0) }

type Ticker = t.Ticker
type Time = t.Time

const TimeOnly = t.TimeOnly

type Timer = t.Timer

const Tuesday = t.Tuesday

var UTC = t.UTC

func Unix(a0 int64, a1 int64) t.Time { return t.Unix(a0, a1) }

const UnixDate = t.UnixDate

func UnixMicro(a0 int64) t.Time { return t.UnixMicro(a0) }
func UnixMilli(a0 int64) t.Time { return t.UnixMilli(a0) }

const Wednesday = t.Wednesday

type Weekday = t.Weekday

// Now returns the fixed date.
func Now() Time { return t.Unix(1700000000, 0) }

func Since(a Time) Duration { return Now().Sub(a) }

func Until(a Time) Duration { return a.Sub(Now()) }
