//@@ include floatcore.vx
verus! {
use proto::expression::literal::{LiteralType, IntervalDayToSecond};
use proto::expression::literal::interval_day_to_second::PrecisionMode;
use proto::expression::Literal;
// ---- printing of literals
impl VxDisplay for SupportedPrecision { uninterp spec fn disp(&self) -> Seq<char>; }
impl VxDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
pub trait VxEscape { spec fn vx_e(&self) -> Seq<char>; fn vx_escape_debug<'a>(&'a self) -> (r: Escaped<'a>) ensures r.of() == self.vx_e(); }
impl VxEscape for str { open spec fn vx_e(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_escape_debug<'a>(&'a self) -> (r: Escaped<'a>) { unimplemented!() } }
pub open spec fn pown(b: int, n: int) -> int
    decreases n
{ if n <= 0 { 1 } else { b * pown(b, n - 1) } }
pub trait VxPow: Sized { spec fn vx_b(self) -> int; fn vx_pow(self, n: u32) -> (r: Self) requires i64::MIN <= pown(self.vx_b(), n as int) <= i64::MAX ensures r.vx_b() == pown(self.vx_b(), n as int); }
impl VxPow for i64 { open spec fn vx_b(self) -> int { self as int } #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: i64) { unimplemented!() } }
pub trait VxJoin { spec fn vx_parts(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.vx_parts(), sep@); }
impl VxJoin for Vec<String> { open spec fn vx_parts(&self) -> Seq<Seq<char>> { texts_of(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VxNarrow32: Sized { spec fn narrow32(v: i32) -> bool; fn vx_try_from32(v: i32) -> (r: Result<Self, VxTryFromIntError>) ensures r is Ok <==> Self::narrow32(v); }
impl VxNarrow32 for i8 { open spec fn narrow32(v: i32) -> bool { -128 <= v <= 127 } #[verifier::external_body] fn vx_try_from32(v: i32) -> (r: Result<Self, VxTryFromIntError>) { unimplemented!() } }
impl VxNarrow32 for i16 { open spec fn narrow32(v: i32) -> bool { -32768 <= v <= 32767 } #[verifier::external_body] fn vx_try_from32(v: i32) -> (r: Result<Self, VxTryFromIntError>) { unimplemented!() } }
spec fn hexes(b: Seq<u8>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > b.len() { seq![] } else { hexes(b, n - 1) + hex2(b[n - 1]) } }
spec fn bin_shown(c: Cx, b: Seq<u8>) -> Seq<char> { if c.o.show_literal_binaries { "0x"@ + hexes(b, b.len() as int) } else { "{binary}"@ } }
//@@ fn src/textify/expressions.rs textify_binary ret=r
    ensures r is Ok ==> final(w).text() == old(w).text() + bin_shown(ctx.cx(), items@)
//@@ at start
    proof { cat2(old(w).text(), "0x"@, hexes(items@, items@.len() as int)); nil("0x"@); }
//@@ loop 0 seq
    invariant __s0.len() == items@.len(), forall|i: int| #![trigger __s0[i]] #![trigger items@[i]] 0 <= i < __s0.len() ==> *__s0[i] == items@[i], w.text() == old(w).text() + "0x"@ + hexes(items@, __n0)
//@@ at loop 0 start
    proof { cat2(old(w).text() + "0x"@, hexes(items@, __n0 - 1), hex2(items@[__n0 - 1])); }
//@@ end
//@@ fn src/textify/expressions.rs unimplemented_literal ret=r
    requires ctx.cx().faulty
    ensures r is Ok ==> ctx.cx().reported
//@@ end
//@@ fn src/textify/expressions.rs out_of_range_literal ret=r
    requires ctx.cx().faulty
    ensures r is Ok ==> ctx.cx().reported
//@@ end
//@@ item src/textify/expressions.rs PrecisionFormatError derive=Clone,Copy,PartialEq,Eq,Structural
impl PrecisionFormatError {
//@@ fn src/textify/expressions.rs PrecisionFormatError::into_plan_error
//@@ end
}
//@@ fn src/textify/expressions.rs picosecond_truncation_warning
//@@ end
spec fn quoted(s: Seq<char>) -> Seq<char> { "'"@ + esc(s, 0) + "'"@ }
spec fn ok_text(x: Result<String, PrecisionFormatError>) -> Seq<char> { match x { Ok(s) => s@, Err(_) => seq![] } }
//@@ fn src/textify/expressions.rs write_precision_literal ret=r lib=into
    requires formatted is Err || precision == 12 ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(formatted is Err || precision == 12, ctx.cx(), old(w).text(), final(w).text(), quoted(ok_text(formatted)))
//@@ at start
    proof { cat3(old(w).text(), "'"@, esc(ok_text(formatted), 0), "'"@); }
//@@ end
/// The day a date text is written for, if there is one.
spec fn date_shown(d: int) -> Seq<char> { date_show("%Y-%m-%d"@, d) }
//@@ fn src/textify/expressions.rs days_to_date_string ret=r
    ensures match r { Some(s) => date_range(days as int) && s@ == date_shown(days as int), None => !date_range(days as int) }
//@@ at start
    proof { lemma_trunc_days(days as int); }
//@@ end
proof fn lemma_trunc_days(n: int) ensures trunc(n * 86400 * giga(), 86400 * giga()) == n
{ assert(86400 * giga() == 86400000000000); assert(n * 86400 * giga() == n * 86400000000000) by (nonlinear_arith) requires 86400 * giga() == 86400000000000; }
/// The nanoseconds v units of a precision are (picoseconds cut off below a nanosecond).
spec fn dur_of(v: int, p: int) -> Option<int> {
    if p == 0 { if chrono::fits(v * giga()) { Some(v * giga()) } else { None } } else if p == 3 { if chrono::fits(v * 1000000) { Some(v * 1000000) } else { None } }
    else if p == 6 { Some(v * 1000) } else if p == 9 { Some(v) } else if p == 12 { Some(trunc(v, 1000)) } else { None }
}
//@@ fn src/textify/expressions.rs duration_from_precision_units ret=r
    ensures match r { Ok(d) => dur_of(value as int, precision as int) == Some(d.ns as int), Err(_) => dur_of(value as int, precision as int) is None }
//@@ end
spec fn frac_spec(p: int) -> Seq<char> { if p == 3 { "%.3f"@ } else if p == 6 { "%.6f"@ } else if p == 9 || p == 12 { "%.9f"@ } else { ""@ } }
//@@ fn src/textify/expressions.rs fractional_spec ret=r
    ensures r@ == frac_spec(precision as int)
//@@ end
spec fn ts_bad(v: int, p: int) -> bool { dur_of(v, p) is None || !datetime_range(dur_of(v, p)->0) }
spec fn ts_shown(v: int, p: int) -> Seq<char> { let n = dur_of(v, p)->0; datetime_show("%Y-%m-%dT%H:%M:%S"@ + frac_spec(p), n / giga(), n % giga()) }
//@@ fn src/textify/expressions.rs precision_timestamp_to_string ret=r fmtmodel
    ensures match r { Ok(s) => !ts_bad(value as int, precision as int) && s@ == ts_shown(value as int, precision as int), Err(_) => ts_bad(value as int, precision as int) }
//@@ at tail
    proof { lemma_split(datetime.secs(), datetime.frac()); assert(format@ =~= "%Y-%m-%dT%H:%M:%S"@ + frac_spec(precision as int)); }
//@@ end
proof fn lemma_split(s: int, f: int) ensures 0 <= f < giga() ==> (s * giga() + f) / giga() == s && (s * giga() + f) % giga() == f
{ assert(giga() == 1000000000); }
spec fn day_ns() -> int { 86400 * giga() }
spec fn tod_bad(v: int, p: int) -> bool { v < 0 || dur_of(v, p) is None || dur_of(v, p)->0 >= day_ns() }
spec fn tod_shown(v: int, p: int) -> Seq<char> { let n = dur_of(v, p)->0; time_show("%H:%M:%S"@ + frac_spec(p), n / giga(), n % giga()) }
//@@ fn src/textify/expressions.rs precision_time_to_string ret=r fmtmodel
//@@ sub duration >= chrono::Duration::days(1) => duration.ns >= chrono::Duration::days(1).ns
//@@ sub midnight + duration => midnight.vx_plus(duration)
    ensures match r { Ok(s) => !tod_bad(value as int, precision as int) && s@ == tod_shown(value as int, precision as int), Err(_) => tod_bad(value as int, precision as int) }
//@@ at tail
    proof { let n = dur_of(value as int, precision as int)->0; assert(giga() == 1000000000); assert(0 <= n < day_ns()); assert(midnight.secs() == 0 && midnight.frac() == 0); assert(n % (86400 * giga()) == n); assert(time.secs() * giga() + time.frac() == n); lemma_split(time.secs(), time.frac()); assert(format@ =~= "%H:%M:%S"@ + frac_spec(precision as int)); }
//@@ end
/// The sub-second precision and count of an interval as stored: microseconds where no precision is given.
spec fn iv_units(i: IntervalDayToSecond) -> (int, int) { match i.precision_mode { Some(PrecisionMode::Precision(p)) => (p as int, i.subseconds as int), Some(PrecisionMode::Microseconds(u)) => (6, u as int), None => (6, i.subseconds as int) } }
//@@ fn src/textify/expressions.rs interval_day_precision_units ret=r
    ensures r.0 as int == iv_units(*interval).0, r.1 as int == iv_units(*interval).1
//@@ end
spec fn iv_max() -> int { 3650000 }
spec fn iv_bad(i: IntervalDayToSecond) -> bool {
    let (p, sub) = iv_units(i);
    precision_of(p) is None || !(-iv_max() <= i.days <= iv_max()) || !(-iv_max() * 86400 <= i.days * 86400 + i.seconds <= iv_max() * 86400)
    || sub != 0 && (p == 0 || sub <= -pown(10, p) || sub >= pown(10, p))
}
spec fn iv_days(i: IntervalDayToSecond) -> Seq<Seq<char>> { if i.days != 0 { seq![dec(i.days as int) + "d"@] } else { seq![] } }
spec fn iv_secs(i: IntervalDayToSecond) -> Seq<Seq<char>> { if i.seconds != 0 { iv_days(i).push(dec(i.seconds as int) + "s"@) } else { iv_days(i) } }
spec fn iv_parts(i: IntervalDayToSecond) -> Seq<Seq<char>> { let (p, sub) = iv_units(i); if sub != 0 { iv_secs(i).push(dec(sub) + suffix_of(precision_of(p)->0)->0) } else { iv_secs(i) } }
spec fn iv_text(i: IntervalDayToSecond) -> Seq<char> { if iv_parts(i).len() == 0 { "0s"@ } else { joined(iv_parts(i), " "@) } }
//@@ fn src/textify/expressions.rs write_interval_day_to_second_literal ret=r lib=into,pow,join,to_string fmtmodel
    requires iv_bad(*interval) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(iv_bad(*interval), ctx.cx(), old(w).text(), final(w).text(), quoted(iv_text(*interval)))
//@@ at start
    proof { cat3(old(w).text(), "'"@, esc(iv_text(*interval), 0), "'"@); reveal_with_fuel(pown, 14); }
//@@ at tail
    proof { let i = *interval; let (p, sub) = iv_units(i);
        assert(texts_of(parts@) =~= iv_parts(i)); }
//@@ end
/// A literal without a text form.
spec fn unwritable(l: LiteralType) -> bool { l is IntervalYearToMonth || l is IntervalCompound || l is FixedChar || l is VarChar || l is FixedBinary || l is Decimal || l is Struct || l is Map || l is TimestampTz || l is Uuid || l is List || l is EmptyList || l is EmptyMap || l is UserDefined }
spec fn lit_bad(c: Cx, l: LiteralType) -> bool {
    match l {
        LiteralType::I8(i) => !(-128 <= i <= 127),
        LiteralType::I16(i) => !(-32768 <= i <= 32767),
        LiteralType::Fp32(f) => !finite32(f),
        LiteralType::Fp64(f) => !finite64(f),
        LiteralType::Date(d) => !date_range(d as int),
        LiteralType::Time(v) => tod_bad(v as int, 6),
        LiteralType::Timestamp(v) => ts_bad(v as int, 6),
        LiteralType::PrecisionTime(v) => tod_bad(v.value as int, v.precision as int) || v.precision == 12,
        LiteralType::PrecisionTimestamp(v) => ts_bad(v.value as int, v.precision as int) || v.precision == 12,
        LiteralType::PrecisionTimestampTz(v) => ts_bad(v.value as int, v.precision as int) || v.precision == 12,
        LiteralType::IntervalDayToSecond(v) => iv_bad(v),
        _ => unwritable(l),
    }
}
spec fn lit_shown(c: Cx, l: LiteralType) -> Seq<char> {
    match l {
        LiteralType::Boolean(b) => b.disp(),
        LiteralType::I8(i) => dec(i as int),
        LiteralType::I16(i) => dec(i as int),
        LiteralType::I32(i) => dec(i as int),
        LiteralType::I64(i) => dec(i as int),
        LiteralType::Fp32(f) => pointed(show32(f)),
        LiteralType::Fp64(f) => pointed(show64(f)),
        LiteralType::String(s) => quoted(s@),
        LiteralType::Binary(b) => bin_shown(c, b@),
        LiteralType::Date(d) => quoted(date_shown(d as int)),
        LiteralType::Time(v) => quoted(tod_shown(v as int, 6)),
        LiteralType::Timestamp(v) => quoted(ts_shown(v as int, 6)),
        LiteralType::PrecisionTime(v) => quoted(tod_shown(v.value as int, v.precision as int)),
        LiteralType::PrecisionTimestamp(v) => quoted(ts_shown(v.value as int, v.precision as int)),
        LiteralType::PrecisionTimestampTz(v) => quoted(ts_shown(v.value as int, v.precision as int)),
        LiteralType::IntervalDayToSecond(v) => quoted(iv_text(v)),
        LiteralType::Null(_) => "null"@,
        _ => seq![],
    }
}
//@@ fn src/textify/expressions.rs write_literal_value ret=r lib=@try_from>vx_try_from32,escape_debug
    requires lit_bad(ctx.cx(), *lit) ==> ctx.cx().faulty
    ensures r is Ok ==> wrote(lit_bad(ctx.cx(), *lit), ctx.cx(), old(w).text(), final(w).text(), lit_shown(ctx.cx(), *lit))
//@@ at start
    proof { if let LiteralType::String(s) = lit { cat3(old(w).text(), "'"@, esc(s@, 0), "'"@); } if let LiteralType::Date(d) = lit { cat3(old(w).text(), "'"@, esc(date_shown(*d as int), 0), "'"@); } }
//@@ end
/// The name and the precision a literal's type suffix has.
spec fn suffix_parts(l: LiteralType) -> Option<(Seq<char>, Option<int>)> {
    match l {
        LiteralType::Boolean(_) => Some(("boolean"@, None)),
        LiteralType::I8(_) => Some(("i8"@, None)),
        LiteralType::I16(_) => Some(("i16"@, None)),
        LiteralType::I32(_) => Some(("i32"@, None)),
        LiteralType::I64(_) => Some(("i64"@, None)),
        LiteralType::Fp32(_) => Some(("fp32"@, None)),
        LiteralType::Fp64(_) => Some(("fp64"@, None)),
        LiteralType::String(_) => Some(("string"@, None)),
        LiteralType::Binary(_) => Some(("binary"@, None)),
        LiteralType::Date(_) => Some(("date"@, None)),
        LiteralType::Time(_) => Some(("time"@, None)),
        LiteralType::Timestamp(_) => Some(("timestamp"@, None)),
        LiteralType::PrecisionTimestamp(p) => Some(("precisiontimestamp"@, Some(p.precision as int))),
        LiteralType::PrecisionTimestampTz(p) => Some(("precisiontimestamptz"@, Some(p.precision as int))),
        LiteralType::PrecisionTime(p) => Some(("precisiontime"@, Some(p.precision as int))),
        LiteralType::IntervalDayToSecond(i) => Some(("interval_day"@, Some(iv_units(i).0))),
        _ => None,
    }
}
spec fn suffix_shown(l: LiteralType, nullable: bool) -> Seq<char> {
    match suffix_parts(l) { Some((n, p)) => ":"@ + n + (if nullable { "?"@ } else { seq![] }) + (match p { Some(p) => num1(p), None => seq![] }), None => seq![] }
}
//@@ fn src/textify/expressions.rs write_literal_type_suffix ret=r
    ensures r is Ok ==> final(w).text() == old(w).text() + suffix_shown(*lit, nullable)
//@@ at start
    proof { nil(old(w).text()); let a = old(w).text(); if let Some((n, p)) = suffix_parts(*lit) { let q = if nullable { "?"@ } else { Seq::<char>::empty() }; let m = match p { Some(p) => num1(p), None => Seq::<char>::empty() };
        cat4(a, ":"@, n, q, m); nil(a + ":"@ + n); nil(a + ":"@ + n + q); if let Some(p) = p { cat3(a + ":"@ + n + q, "<"@, dec(p), ">"@); } } }
//@@ end
/// The literals that read back without a type suffix.
spec fn plain(l: LiteralType) -> bool { l is Boolean || l is String || l is Binary || l is I64 || l is Fp64 }
//@@ fn src/textify/expressions.rs is_default_for_syntax ret=r
    ensures r == plain(*lit)
//@@ end
spec fn typed(c: Cx, l: LiteralType, nullable: bool) -> bool { match c.o.literal_types { Visibility::Never => false, Visibility::Always => true, Visibility::Required => nullable || !plain(l) } }
spec fn literal_bad(c: Cx, l: Literal) -> bool { match l.literal_type { Some(LiteralType::Null(t)) => type_bad(c, t), Some(v) => lit_bad(c, v), None => true } }
spec fn literal_shown(c: Cx, l: Literal) -> Seq<char> {
    match l.literal_type { Some(LiteralType::Null(t)) => "null"@ + ":"@ + type_shown(c, t), Some(v) => lit_shown(c, v) + (if typed(c, v, l.nullable) { suffix_shown(v, l.nullable) } else { seq![] }), None => seq![] }
}
impl Textify for Literal {
    spec fn bad(&self, c: Cx) -> bool { literal_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { literal_shown(c, *self) }
//@@ use tx
}
impl Literal {
//@@ fn src/textify/expressions.rs <Textify for expr::Literal>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { let l = *self; if let Some(v) = l.literal_type { if let LiteralType::Null(t) = v { cat3(old(w).text(), "null"@, ":"@, type_shown(ctx.cx(), t)); }
        else { let s = lit_shown(ctx.cx(), v); nil(s); cat2(old(w).text(), s, suffix_shown(v, l.nullable)); } } }
//@@ end
}
} // verus!
