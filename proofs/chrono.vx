verus! {
// ---- calendar arithmetic (chrono)
//@@ trust chrono: parse_from_str reads a date, time or date-time as the given layout says (uninterpreted, the same for every layout that reads a text); day and second counts and Duration conversions are exact integer arithmetic truncating toward zero; leap seconds carry a nanosecond count of a whole second or more
/// The day (since 1970-01-01), time of day, or time since the epoch a text denotes in a layout: seconds and nanoseconds.
pub uninterp spec fn date_text(s: Seq<char>, fmt: Seq<char>) -> Option<int>;
pub uninterp spec fn time_text(s: Seq<char>, fmt: Seq<char>) -> Option<(int, int)>;
pub uninterp spec fn datetime_text(s: Seq<char>, fmt: Seq<char>) -> Option<(int, int)>;
/// What is written of a day, a time of day, a date and time in a layout; the days and the nanoseconds that have a date.
pub uninterp spec fn date_show(fmt: Seq<char>, day: int) -> Seq<char>;
pub uninterp spec fn time_show(fmt: Seq<char>, secs: int, frac: int) -> Seq<char>;
pub uninterp spec fn datetime_show(fmt: Seq<char>, secs: int, frac: int) -> Seq<char>;
pub uninterp spec fn date_range(day: int) -> bool;
pub uninterp spec fn datetime_range(ns: int) -> bool;
pub open spec fn giga() -> int { 1000000000 }
/// The layouts that are accepted.
pub open spec fn date_layout(f: Seq<char>) -> bool { f == "%Y-%m-%d"@ || f == "%Y/%m/%d"@ }
pub open spec fn time_layout(f: Seq<char>) -> bool { f == "%H:%M:%S%.f"@ || f == "%H:%M:%S"@ }
pub open spec fn datetime_layout(f: Seq<char>) -> bool {
    f == "%Y-%m-%dT%H:%M:%S%.f"@ || f == "%Y-%m-%dT%H:%M:%S"@ || f == "%Y-%m-%d %H:%M:%S%.f"@ || f == "%Y-%m-%d %H:%M:%S"@
    || f == "%Y/%m/%dT%H:%M:%S%.f"@ || f == "%Y/%m/%dT%H:%M:%S"@ || f == "%Y/%m/%d %H:%M:%S%.f"@ || f == "%Y/%m/%d %H:%M:%S"@
}
pub open spec fn date_in(s: Seq<char>, d: int) -> bool { exists|f: Seq<char>| #[trigger] date_layout(f) && date_text(s, f) == Some(d) }
pub open spec fn time_in(s: Seq<char>, d: (int, int)) -> bool { exists|f: Seq<char>| #[trigger] time_layout(f) && time_text(s, f) == Some(d) }
pub open spec fn datetime_in(s: Seq<char>, d: (int, int)) -> bool { exists|f: Seq<char>| #[trigger] datetime_layout(f) && datetime_text(s, f) == Some(d) }
pub axiom fn axiom_layouts_agree(s: Seq<char>)
    ensures
        forall|f: Seq<char>, g: Seq<char>| date_layout(f) && date_layout(g) && (#[trigger] date_text(s, f)) is Some && (#[trigger] date_text(s, g)) is Some ==> date_text(s, f) == date_text(s, g),
        forall|f: Seq<char>, g: Seq<char>| time_layout(f) && time_layout(g) && (#[trigger] time_text(s, f)) is Some && (#[trigger] time_text(s, g)) is Some ==> time_text(s, f) == time_text(s, g),
        forall|f: Seq<char>, g: Seq<char>| datetime_layout(f) && datetime_layout(g) && (#[trigger] datetime_text(s, f)) is Some && (#[trigger] datetime_text(s, g)) is Some ==> datetime_text(s, f) == datetime_text(s, g);
pub mod chrono {
    use vstd::prelude::*;
    use super::{date_text, time_text, datetime_text, date_show, time_show, datetime_show, date_range, datetime_range, giga};
    /// A value with a layout.
    #[verifier::external_body]
    pub struct Formatted { _p: () }
    impl Formatted { pub uninterp spec fn of(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self.of() { unimplemented!() } }
    /// A span of time, in nanoseconds.
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct Duration { pub ns: i128 }
    /// chrono's durations hold at most i64::MAX milliseconds.
    pub open spec fn fits(ns: int) -> bool { -9223372036854775807 * 1000000 <= ns <= 9223372036854775807 * 1000000 }
    pub open spec fn trunc(n: int, d: int) -> int { if n >= 0 { n / d } else { -((-n) / d) } }
    impl Duration {
        #[verifier::external_body]
        pub fn seconds(v: i64) -> (r: Duration) requires fits(v * giga()) ensures r.ns == v * giga() { unimplemented!() }
        #[verifier::external_body]
        pub fn milliseconds(v: i64) -> (r: Duration) requires fits(v * 1000000) ensures r.ns == v * 1000000 { unimplemented!() }
        #[verifier::external_body]
        pub fn microseconds(v: i64) -> (r: Duration) ensures r.ns == v * 1000 { unimplemented!() }
        #[verifier::external_body]
        pub fn nanoseconds(v: i64) -> (r: Duration) ensures r.ns == v { unimplemented!() }
        #[verifier::external_body]
        pub fn days(v: i64) -> (r: Duration) requires fits(v * 86400 * giga()) ensures r.ns == v * 86400 * giga() { unimplemented!() }
        #[verifier::external_body]
        pub fn try_seconds(v: i64) -> (r: Option<Duration>) ensures match r { Some(d) => fits(v * giga()) && d.ns == v * giga(), None => !fits(v * giga()) } { unimplemented!() }
        #[verifier::external_body]
        pub fn try_milliseconds(v: i64) -> (r: Option<Duration>) ensures match r { Some(d) => fits(v * 1000000) && d.ns == v * 1000000, None => !fits(v * 1000000) } { unimplemented!() }
        #[verifier::external_body]
        pub fn num_days(&self) -> (r: i64) requires fits(self.ns as int) ensures r == trunc(self.ns as int, 86400 * giga()) { unimplemented!() }
        #[verifier::external_body]
        pub fn num_seconds(&self) -> (r: i64) requires fits(self.ns as int) ensures r == trunc(self.ns as int, giga()), fits(r * giga()) { unimplemented!() }
        #[verifier::external_body]
        pub fn num_milliseconds(&self) -> (r: i64) requires fits(self.ns as int) ensures r == trunc(self.ns as int, 1000000), fits(r * 1000000) { unimplemented!() }
        #[verifier::external_body]
        pub fn num_microseconds(&self) -> (r: Option<i64>) ensures match r { Some(v) => v == trunc(self.ns as int, 1000), None => !(i64::MIN <= trunc(self.ns as int, 1000) <= i64::MAX) } { unimplemented!() }
        #[verifier::external_body]
        pub fn num_nanoseconds(&self) -> (r: Option<i64>) ensures match r { Some(v) => v == self.ns, None => !(i64::MIN <= self.ns <= i64::MAX) } { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ParseError { _p: () }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct NaiveDate { _p: () }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct NaiveTime { _p: () }
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct NaiveDateTime { _p: () }
    #[verifier::external_body]
    pub struct DateTime { _p: () }
    /// Days from 1970-01-01 to a calendar day.
    pub uninterp spec fn civil(y: int, m: int, d: int) -> Option<int>;
    impl NaiveDate {
        pub uninterp spec fn day(&self) -> int;
        #[verifier::external_body]
        pub fn parse_from_str(s: &str, fmt: &str) -> (r: Result<NaiveDate, ParseError>) ensures match r { Ok(d) => date_text(s@, fmt@) == Some(d.day()) && -100000000 < d.day() < 100000000, Err(_) => date_text(s@, fmt@) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures match r { Some(v) => civil(y as int, m as int, d as int) == Some(v.day()), None => civil(y as int, m as int, d as int) is None }, civil(1970, 1, 1) == Some(0int) { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_add_signed(self, d: Duration) -> (r: Option<NaiveDate>) ensures match r { Some(v) => v.day() == self.day() + trunc(d.ns as int, 86400 * giga()) && date_range(v.day()), None => !date_range(self.day() + trunc(d.ns as int, 86400 * giga())) } { unimplemented!() }
        #[verifier::external_body]
        pub fn format(&self, fmt: &str) -> (r: Formatted) ensures r.of() == date_show(fmt@, self.day()) { unimplemented!() }
        #[verifier::external_body]
        pub fn signed_duration_since(self, o: NaiveDate) -> (r: Duration) ensures r.ns == (self.day() - o.day()) * (86400 * giga()), fits(r.ns as int) { unimplemented!() }
    }
    impl NaiveTime {
        pub uninterp spec fn secs(&self) -> int;
        pub uninterp spec fn frac(&self) -> int;
        #[verifier::external_body]
        pub fn parse_from_str(s: &str, fmt: &str) -> (r: Result<NaiveTime, ParseError>) ensures match r { Ok(d) => time_text(s@, fmt@) == Some((d.secs(), d.frac())) && 0 <= d.secs() < 86400 && 0 <= d.frac() < 2 * giga(), Err(_) => time_text(s@, fmt@) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn from_hms_opt(h: u32, m: u32, s: u32) -> (r: Option<NaiveTime>) ensures match r { Some(v) => h < 24 && m < 60 && s < 60 && v.secs() == 3600 * h + 60 * m + s && v.frac() == 0, None => !(h < 24 && m < 60 && s < 60) } { unimplemented!() }
        #[verifier::external_body]
        pub fn nanosecond(&self) -> (r: u32) ensures r == self.frac() { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_plus(self, d: Duration) -> (r: NaiveTime) ensures self.frac() < giga() ==> r.secs() * giga() + r.frac() == (self.secs() * giga() + self.frac() + d.ns) % (86400 * giga()) && 0 <= r.secs() < 86400 && 0 <= r.frac() < giga() { unimplemented!() }
        #[verifier::external_body]
        pub fn format(&self, fmt: &str) -> (r: Formatted) ensures r.of() == time_show(fmt@, self.secs(), self.frac()) { unimplemented!() }
        #[verifier::external_body]
        pub fn signed_duration_since(self, o: NaiveTime) -> (r: Duration) ensures self.frac() < giga() && o.frac() < giga() ==> r.ns == (self.secs() - o.secs()) * giga() + self.frac() - o.frac(), fits(r.ns as int) { unimplemented!() }
    }
    impl NaiveDateTime {
        pub uninterp spec fn secs(&self) -> int;
        pub uninterp spec fn frac(&self) -> int;
        #[verifier::external_body]
        pub fn parse_from_str(s: &str, fmt: &str) -> (r: Result<NaiveDateTime, ParseError>) ensures match r { Ok(d) => datetime_text(s@, fmt@) == Some((d.secs(), d.frac())) && 0 <= d.frac() < 2 * giga(), Err(_) => datetime_text(s@, fmt@) is None } { unimplemented!() }
        #[verifier::external_body]
        pub fn nanosecond(&self) -> (r: u32) ensures r == self.frac() { unimplemented!() }
        #[verifier::external_body]
        pub fn checked_add_signed(self, d: Duration) -> (r: Option<NaiveDateTime>) ensures self.frac() < giga() ==> { let n = self.secs() * giga() + self.frac() + d.ns; match r { Some(v) => v.secs() * giga() + v.frac() == n && 0 <= v.frac() < giga() && datetime_range(n), None => !datetime_range(n) } } { unimplemented!() }
        #[verifier::external_body]
        pub fn format(&self, fmt: &str) -> (r: Formatted) ensures r.of() == datetime_show(fmt@, self.secs(), self.frac()) { unimplemented!() }
        #[verifier::external_body]
        pub fn signed_duration_since(self, o: NaiveDateTime) -> (r: Duration) ensures self.frac() < giga() && o.frac() < giga() ==> r.ns == (self.secs() - o.secs()) * giga() + self.frac() - o.frac(), fits(r.ns as int) { unimplemented!() }
    }
    impl DateTime {
        pub uninterp spec fn secs(&self) -> int;
        pub uninterp spec fn frac(&self) -> int;
        #[verifier::external_body]
        pub fn from_timestamp(s: i64, n: u32) -> (r: Option<DateTime>) ensures match r { Some(v) => v.secs() == s && v.frac() == n, None => !(-8000000000000 <= s <= 8000000000000 && n < giga()) } { unimplemented!() }
        #[verifier::external_body]
        pub fn naive_utc(&self) -> (r: NaiveDateTime) ensures r.secs() == self.secs(), r.frac() == self.frac() { unimplemented!() }
    }
}
use chrono::{NaiveDate, NaiveTime, NaiveDateTime, DateTime, trunc};
/// The nanoseconds in one unit of a precision that has units no finer than a nanosecond.
spec fn unit_ns(p: SupportedPrecision) -> int { match p { SupportedPrecision::Seconds => giga(), SupportedPrecision::Milliseconds => 1000000, SupportedPrecision::Microseconds => 1000, _ => 1 } }
/// n nanoseconds are exactly v units.
spec fn exact(ns: int, p: SupportedPrecision, v: i64) -> bool { !(p is Picoseconds) && v * unit_ns(p) == ns }
spec fn precision_of(n: int) -> Option<SupportedPrecision> { if n == 0 { Some(SupportedPrecision::Seconds) } else if n == 3 { Some(SupportedPrecision::Milliseconds) } else if n == 6 { Some(SupportedPrecision::Microseconds) } else if n == 9 { Some(SupportedPrecision::Nanoseconds) } else if n == 12 { Some(SupportedPrecision::Picoseconds) } else { None } }
/// Position of the last c at or before i - 1, or -1.
pub open spec fn last_at(s: Seq<char>, c: char, i: int) -> int
    decreases i
{ if i <= 0 { -1 } else if s[i - 1] == c { i - 1 } else { last_at(s, c, i - 1) } }
pub trait VxRsplit { spec fn vx_bt(&self) -> Seq<char>;
    fn vx_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) ensures match r { Some((a, b)) => { let k = last_at(self.vx_bt(), c, self.vx_bt().len() as int); k >= 0 && a@ == self.vx_bt().take(k) && b@ == self.vx_bt().skip(k + 1) }, None => last_at(self.vx_bt(), c, self.vx_bt().len() as int) < 0 }; }
impl VxRsplit for str { open spec fn vx_bt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() } }
/// The text after the last point.
spec fn fraction_of(s: Seq<char>) -> Seq<char> { let k = last_at(s, '.', s.len() as int); if k >= 0 { s.skip(k + 1) } else { ""@ } }
/// Nothing but zeros beyond nine fractional digits.
spec fn fine(s: Seq<char>) -> bool { forall|i: int| 9 <= i < bytes_of(fraction_of(s)).len() ==> #[trigger] bytes_of(fraction_of(s))[i] == 48 }
/// What the text denotes in an accepted layout.
spec fn date_of(s: Seq<char>) -> Option<int> { if exists|d: int| date_in(s, d) { Some(choose|d: int| date_in(s, d)) } else { None } }
spec fn time_of(s: Seq<char>) -> Option<(int, int)> { if exists|d: (int, int)| time_in(s, d) { Some(choose|d: (int, int)| time_in(s, d)) } else { None } }
spec fn datetime_of(s: Seq<char>) -> Option<(int, int)> { if exists|d: (int, int)| datetime_in(s, d) { Some(choose|d: (int, int)| datetime_in(s, d)) } else { None } }
proof fn lemma_choices(s: Seq<char>)
    ensures
        forall|f: Seq<char>| #[trigger] date_layout(f) && date_text(s, f) is Some ==> date_of(s) == date_text(s, f), date_of(s) matches Some(d) ==> date_in(s, d),
        forall|f: Seq<char>| #[trigger] time_layout(f) && time_text(s, f) is Some ==> time_of(s) == time_text(s, f), time_of(s) matches Some(d) ==> time_in(s, d),
        forall|f: Seq<char>| #[trigger] datetime_layout(f) && datetime_text(s, f) is Some ==> datetime_of(s) == datetime_text(s, f), datetime_of(s) matches Some(d) ==> datetime_in(s, d),
{
    axiom_layouts_agree(s);
    assert forall|f: Seq<char>| #[trigger] date_layout(f) && date_text(s, f) is Some implies date_of(s) == date_text(s, f) by { assert(date_in(s, date_text(s, f)->0)); }
    assert forall|f: Seq<char>| #[trigger] time_layout(f) && time_text(s, f) is Some implies time_of(s) == time_text(s, f) by { assert(time_in(s, time_text(s, f)->0)); }
    assert forall|f: Seq<char>| #[trigger] datetime_layout(f) && datetime_text(s, f) is Some implies datetime_of(s) == datetime_text(s, f) by { assert(datetime_in(s, datetime_text(s, f)->0)); }
}
/// The text s denotes d seconds and nanoseconds, v units of which is exactly that.
spec fn stored(s: Seq<char>, d: (int, int), p: int, v: i64) -> bool { precision_of(p) is Some && d.1 < giga() && fine(s) && exact(d.0 * giga() + d.1, precision_of(p)->0, v) }
spec fn stored_as(s: Seq<char>, d: Option<(int, int)>, p: int, v: i64) -> bool { d is Some && stored(s, d->0, p, v) }
proof fn lemma_trunc(n: int)
    ensures
        forall|v: i64| #[trigger] exact(n, SupportedPrecision::Seconds, v) ==> v == trunc(n, giga()),
        forall|v: i64| #[trigger] exact(n, SupportedPrecision::Milliseconds, v) ==> v == trunc(n, 1000000),
        forall|v: i64| #[trigger] exact(n, SupportedPrecision::Microseconds, v) ==> v == trunc(n, 1000),
{ }
} // verus!
