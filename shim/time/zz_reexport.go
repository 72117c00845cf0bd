// Code generated by tools/genshim; DO NOT EDIT.

package time

import real "time"

const (
	ANSIC       = real.ANSIC
	April       = real.April
	August      = real.August
	DateOnly    = real.DateOnly
	DateTime    = real.DateTime
	December    = real.December
	February    = real.February
	Friday      = real.Friday
	Hour        = real.Hour
	January     = real.January
	July        = real.July
	June        = real.June
	Kitchen     = real.Kitchen
	Layout      = real.Layout
	March       = real.March
	May         = real.May
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Minute      = real.Minute
	Monday      = real.Monday
	Nanosecond  = real.Nanosecond
	November    = real.November
	October     = real.October
	RFC1123     = real.RFC1123
	RFC1123Z    = real.RFC1123Z
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	RFC822      = real.RFC822
	RFC822Z     = real.RFC822Z
	RFC850      = real.RFC850
	RubyDate    = real.RubyDate
	Saturday    = real.Saturday
	Second      = real.Second
	September   = real.September
	Stamp       = real.Stamp
	StampMicro  = real.StampMicro
	StampMilli  = real.StampMilli
	StampNano   = real.StampNano
	Sunday      = real.Sunday
	Thursday    = real.Thursday
	TimeOnly    = real.TimeOnly
	Tuesday     = real.Tuesday
	UnixDate    = real.UnixDate
	Wednesday   = real.Wednesday
)

type (
	Duration   = real.Duration
	Location   = real.Location
	Month      = real.Month
	ParseError = real.ParseError
	Time       = real.Time
	Weekday    = real.Weekday
)

var (
	Date                   = real.Date
	FixedZone              = real.FixedZone
	LoadLocation           = real.LoadLocation
	LoadLocationFromTZData = real.LoadLocationFromTZData
	Local                  = real.Local
	Parse                  = real.Parse
	ParseDuration          = real.ParseDuration
	ParseInLocation        = real.ParseInLocation
	UTC                    = real.UTC
	Unix                   = real.Unix
	UnixMicro              = real.UnixMicro
	UnixMilli              = real.UnixMilli
)
