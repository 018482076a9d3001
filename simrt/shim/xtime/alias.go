// Code generated by tools/genshim; DO NOT EDIT.

package time

import real_ "time"

const ANSIC = real_.ANSIC
const April = real_.April
const August = real_.August

var Date = real_.Date

const DateOnly = real_.DateOnly
const DateTime = real_.DateTime
const December = real_.December

type Duration = real_.Duration

const February = real_.February

var FixedZone = real_.FixedZone

const Friday = real_.Friday
const Hour = real_.Hour
const January = real_.January
const July = real_.July
const June = real_.June
const Kitchen = real_.Kitchen
const Layout = real_.Layout

var LoadLocation = real_.LoadLocation
var LoadLocationFromTZData = real_.LoadLocationFromTZData
var Local = real_.Local

type Location = real_.Location

const March = real_.March
const May = real_.May
const Microsecond = real_.Microsecond
const Millisecond = real_.Millisecond
const Minute = real_.Minute
const Monday = real_.Monday

type Month = real_.Month

const Nanosecond = real_.Nanosecond
const November = real_.November
const October = real_.October

var Parse = real_.Parse
var ParseDuration = real_.ParseDuration

type ParseError = real_.ParseError

var ParseInLocation = real_.ParseInLocation

const RFC1123 = real_.RFC1123
const RFC1123Z = real_.RFC1123Z
const RFC3339 = real_.RFC3339
const RFC3339Nano = real_.RFC3339Nano
const RFC822 = real_.RFC822
const RFC822Z = real_.RFC822Z
const RFC850 = real_.RFC850
const RubyDate = real_.RubyDate
const Saturday = real_.Saturday
const Second = real_.Second
const September = real_.September
const Stamp = real_.Stamp
const StampMicro = real_.StampMicro
const StampMilli = real_.StampMilli
const StampNano = real_.StampNano
const Sunday = real_.Sunday
const Thursday = real_.Thursday

type Time = real_.Time

const TimeOnly = real_.TimeOnly
const Tuesday = real_.Tuesday

var UTC = real_.UTC
var Unix = real_.Unix

const UnixDate = real_.UnixDate

var UnixMicro = real_.UnixMicro
var UnixMilli = real_.UnixMilli

const Wednesday = real_.Wednesday

type Weekday = real_.Weekday
