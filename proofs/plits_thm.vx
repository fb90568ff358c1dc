verus! {
//@@ trust chrono: a date, time or date-time written in the printer's layouts reads back as what was written (years beyond four digits carry a sign), with no more than nine fractional digits
uninterp spec fn days_is(s: Seq<char>, p: SupportedPrecision, v: IntervalDayToSecond) -> bool;
uninterp spec fn days_bad(s: Seq<char>, p: SupportedPrecision) -> bool;
spec fn step(p: int) -> int { if p == 0 { giga() } else if p == 3 { 1000000 } else if p == 6 { 1000 } else { 1 } }
spec fn t_layout(p: int) -> Seq<char> { if p == 0 { "%H:%M:%S"@ } else { "%H:%M:%S%.f"@ } }
spec fn d_layout(p: int) -> Seq<char> { if p == 0 { "%Y-%m-%dT%H:%M:%S"@ } else { "%Y-%m-%dT%H:%M:%S%.f"@ } }
axiom fn axiom_date_back(d: int) ensures date_range(d) ==> date_text(date_show("%Y-%m-%d"@, d), "%Y-%m-%d"@) == Some(d);
axiom fn axiom_time_back(p: int, s: int, f: int)
    ensures 0 <= s < 86400 && 0 <= f < giga() && f % step(p) == 0 ==> ({ let x = time_show("%H:%M:%S"@ + frac_spec(p), s, f); time_text(x, t_layout(p)) == Some((s, f)) && fine(x) });
axiom fn axiom_datetime_back(p: int, s: int, f: int)
    ensures 0 <= f < giga() && datetime_range(s * giga() + f) && f % step(p) == 0 ==> ({ let x = datetime_show("%Y-%m-%dT%H:%M:%S"@ + frac_spec(p), s, f); datetime_text(x, d_layout(p)) == Some((s, f)) && fine(x) });
axiom fn axiom_floats_back()
    ensures forall|x: f32| finite32(x) ==> f32_of(#[trigger] pointed(show32(x))) == Some(x), forall|x: f64| finite64(x) ==> f64_of(#[trigger] pointed(show64(x))) == Some(x);
proof fn lemma_dec_nat(n: int)
    requires 0 <= n
    ensures dec_nat(n).len() > 0, digits_from(dec_nat(n), 0), nat_of(dec_nat(n)) == n
    decreases n
{
    let c = (('0' as int + n % 10) as u32) as char;
    assert(digit(c) && c as int - '0' as int == n % 10);
    if n < 10 { assert(dec_nat(n) =~= seq![c]); assert(dec_nat(n).drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(nat_of, 2); }
    else { lemma_dec_nat(n / 10); let d = dec_nat(n / 10); assert(d.push(c).drop_last() =~= d); assert(d.push(c).last() == c);
        assert forall|j: int| 0 <= j < d.push(c).len() implies digit(#[trigger] d.push(c)[j]) by { if j < d.len() { assert(digit(d[j])); } } }
}
/// P02: a printed integer reads back as itself.
proof fn theorem_decimal(n: int)
    ensures is_num(dec(n)), num_of(dec(n)) == n, n >= 0 ==> dec(n)[0] != '-'
{
    lemma_dec_nat(if n < 0 { -n } else { n });
    if n < 0 { assert(dec(n).skip(1) =~= dec_nat(-n)); assert(dec(n)[0] == '-'); assert forall|j: int| 1 <= j < dec(n).len() implies digit(#[trigger] dec(n)[j]) by { assert(dec(n)[j] == dec_nat(-n)[j - 1]); } }
    else { assert(digit(dec(n)[0])); }
}
/// What a type suffix tells the reader.
spec fn suffix_lt(l: LiteralType) -> Lt {
    match l {
        LiteralType::Boolean(_) => Lt::Bool, LiteralType::I8(_) => Lt::I8, LiteralType::I16(_) => Lt::I16, LiteralType::I32(_) => Lt::I32, LiteralType::I64(_) => Lt::I64,
        LiteralType::Fp32(_) => Lt::Fp32, LiteralType::Fp64(_) => Lt::Fp64, LiteralType::String(_) => Lt::Text, LiteralType::Date(_) => Lt::Date, LiteralType::Time(_) => Lt::Time, LiteralType::Timestamp(_) => Lt::Timestamp,
        LiteralType::PrecisionTime(p) => Lt::PTime(p.precision as int), LiteralType::PrecisionTimestamp(p) => Lt::PTimestamp(p.precision as int), LiteralType::PrecisionTimestampTz(p) => Lt::PTimestampTz(p.precision as int),
        _ => Lt::Other }
}
/// The type a reader has for a printed literal: the suffix if there is one.
spec fn read_type(c: Cx, l: LiteralType, nullable: bool) -> Option<Info> { if typed(c, l, nullable) { Some(Info { lt: suffix_lt(l), null: if nullable { 1 } else { 2 }, tvar: 0 }) } else { None } }
/// The content of a printed quoted literal.
spec fn content(l: LiteralType) -> Seq<char> {
    match l {
        LiteralType::String(s) => s@, LiteralType::Date(d) => date_shown(d as int), LiteralType::Time(v) => tod_shown(v as int, 6), LiteralType::Timestamp(v) => ts_shown(v as int, 6),
        LiteralType::PrecisionTime(v) => tod_shown(v.value as int, v.precision as int), LiteralType::PrecisionTimestamp(v) => ts_shown(v.value as int, v.precision as int), LiteralType::PrecisionTimestampTz(v) => ts_shown(v.value as int, v.precision as int),
        _ => seq![] }
}
proof fn lemma_stored_ts(v: i64, p: int)
    requires !ts_bad(v as int, p), p != 12
    ensures stored_as(ts_shown(v as int, p), datetime_of(ts_shown(v as int, p)), p, v)
{
    let n = dur_of(v as int, p)->0; let s = ts_shown(v as int, p);
    assert(giga() == 1000000000);
    assert(n == v * step(p));
    lemma_step(v as int, p, n);
    assert((n / giga()) * giga() + n % giga() == n);
    axiom_datetime_back(p, n / giga(), n % giga()); lemma_choices(s);
    assert(datetime_layout(d_layout(p)));
}
proof fn lemma_step(v: int, p: int, n: int)
    requires n == v * step(p), p == 0 || p == 3 || p == 6 || p == 9
    ensures (n % giga()) % step(p) == 0
{
    assert(giga() == 1000000000);
    if p == 0 { assert((v * 1000000000) % 1000000000 == 0) by (nonlinear_arith); } else if p == 3 { assert(((v * 1000000) % 1000000000) % 1000000 == 0); } else if p == 6 { assert(((v * 1000) % 1000000000) % 1000 == 0); } else { }
}
proof fn lemma_stored_time(v: i64, p: int)
    requires !tod_bad(v as int, p), p != 12
    ensures stored_as(tod_shown(v as int, p), time_of(tod_shown(v as int, p)), p, v)
{
    let n = dur_of(v as int, p)->0; let s = tod_shown(v as int, p);
    assert(giga() == 1000000000);
    assert(n == v * step(p));
    lemma_step(v as int, p, n);
    assert((n / giga()) * giga() + n % giga() == n);
    assert(0 <= n / giga() < 86400);
    axiom_time_back(p, n / giga(), n % giga()); lemma_choices(s);
    assert(time_layout(t_layout(p)));
}
/// P02/P03: what is printed for a literal (with its type shown where the text alone would be read as another type) is read as that literal: the same kind, value, precision and nullability.
proof fn theorem_literal_reads_back(c: Cx, l: Literal)
    requires l.literal_type is Some, !literal_bad(c, l), !(c.o.literal_types is Never), l.type_variation_reference == 0
    ensures ({ let v = l.literal_type->0; let t = read_type(c, v, l.nullable); let s = lit_shown(c, v);
        match v {
            LiteralType::Boolean(_) => (s == "true"@ || s == "false"@) && bool_is(s, chosen(t, Lt::Bool), l),
            LiteralType::I8(_) => int_is(s, chosen(t, Lt::I64), l),
            LiteralType::I16(_) => int_is(s, chosen(t, Lt::I64), l),
            LiteralType::I32(_) => int_is(s, chosen(t, Lt::I64), l),
            LiteralType::I64(_) => int_is(s, chosen(t, Lt::I64), l),
            LiteralType::Fp32(_) => float_is(s, chosen(t, Lt::Fp64), l),
            LiteralType::Fp64(_) => float_is(s, chosen(t, Lt::Fp64), l),
            LiteralType::Binary(_) => true,
            LiteralType::IntervalDayToSecond(_) => true,
            LiteralType::Null(_) => true,
            _ => s == quoted(content(v)) && text_is(content(v), chosen(t, Lt::Text), l),
        } })
{
    let v = l.literal_type->0;
    reveal_strlit("true"); reveal_strlit("false");
    axiom_floats_back();
    match v {
        LiteralType::Boolean(b) => { assert("true"@.len() == 4 && "false"@.len() == 5); }
        LiteralType::I8(i) => { theorem_decimal(i as int); }
        LiteralType::I16(i) => { theorem_decimal(i as int); }
        LiteralType::I32(i) => { theorem_decimal(i as int); }
        LiteralType::I64(i) => { theorem_decimal(i as int); }
        LiteralType::Date(d) => { axiom_date_back(d as int); lemma_choices(date_shown(d as int)); assert(date_layout("%Y-%m-%d"@)); }
        LiteralType::Time(x) => { lemma_stored_time(x, 6); }
        LiteralType::Timestamp(x) => { lemma_stored_ts(x, 6); }
        LiteralType::PrecisionTime(x) => { lemma_stored_time(x.value, x.precision as int); }
        LiteralType::PrecisionTimestamp(x) => { lemma_stored_ts(x.value, x.precision as int); }
        LiteralType::PrecisionTimestampTz(x) => { lemma_stored_ts(x.value, x.precision as int); }
        _ => {}
    }
}
proof fn lemma_one_count(p: SupportedPrecision, n: int, v: i64, w: i64)
    ensures exact(n, p, v) && exact(n, p, w) ==> v == w
{ assert(giga() == 1000000000); match p { SupportedPrecision::Seconds => { assert(unit_ns(p) == 1000000000); } SupportedPrecision::Milliseconds => { assert(unit_ns(p) == 1000000); } SupportedPrecision::Microseconds => { assert(unit_ns(p) == 1000); } _ => { assert(unit_ns(p) == 1); } } }
/// Reading determines the literal: two literals read from the same text with the same type are the same.
proof fn theorem_one_reading(s: Seq<char>, i: Info, a: Literal, b: Literal)
    ensures int_is(s, i, a) && int_is(s, i, b) ==> a == b, float_is(s, i, a) && float_is(s, i, b) ==> a == b, bool_is(s, i, a) && bool_is(s, i, b) ==> a == b,
        text_is(s, i, a) && text_is(s, i, b) && !(i.lt is Text) && !(i.lt is Days) ==> a == b
{
    assert(giga() == 1000000000);
    if text_is(s, i, a) && text_is(s, i, b) && !(i.lt is Text) && !(i.lt is Days) {
        let (x, y) = (a.literal_type->0, b.literal_type->0);
        match (i.lt, x, y) {
            (Lt::PTime(p), LiteralType::PrecisionTime(v), LiteralType::PrecisionTime(w)) => { let d = time_of(s)->0; lemma_one_count(precision_of(p)->0, d.0 * giga() + d.1, v.value, w.value); assert(v == w); }
            (Lt::PTimestamp(p), LiteralType::PrecisionTimestamp(v), LiteralType::PrecisionTimestamp(w)) => { let d = datetime_of(s)->0; lemma_one_count(precision_of(p)->0, d.0 * giga() + d.1, v.value, w.value); assert(v == w); }
            (Lt::PTimestampTz(p), LiteralType::PrecisionTimestampTz(v), LiteralType::PrecisionTimestampTz(w)) => { let d = datetime_of(s)->0; lemma_one_count(precision_of(p)->0, d.0 * giga() + d.1, v.value, w.value); assert(v == w); }
            (Lt::Time, LiteralType::Time(v), LiteralType::Time(w)) => { let d = time_of(s)->0; lemma_one_count(precision_of(6)->0, d.0 * giga() + d.1, v, w); }
            (Lt::Timestamp, LiteralType::Timestamp(v), LiteralType::Timestamp(w)) => { let d = datetime_of(s)->0; lemma_one_count(precision_of(6)->0, d.0 * giga() + d.1, v, w); }
            _ => { assert(x == y); }
        }
        assert(x == y);
    }
}
} // verus!
