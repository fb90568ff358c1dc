//@@ include chrono.vx
//@@ include litspec.vx
verus! {
//@@ fn src/parser/expressions.rs duration_to_precision_units ret=r
//@@ sub chrono::Duration::milliseconds(value) != duration => chrono::Duration::milliseconds(value).ns != duration.ns
//@@ sub chrono::Duration::microseconds(value) != duration => chrono::Duration::microseconds(value).ns != duration.ns
//@@ sub chrono::Duration::seconds(value) != duration => chrono::Duration::seconds(value).ns != duration.ns
    requires chrono::fits(duration.ns as int)
    ensures match r { Ok(v) => exact(duration.ns as int, precision, v), Err(_) => forall|v: i64| !#[trigger] exact(duration.ns as int, precision, v) }
//@@ at start
    proof { lemma_trunc(duration.ns as int); }
//@@ end
//@@ fn src/parser/expressions.rs check_supported_precision ret=r
    ensures match r { Ok(p) => precision_of(precision as int) == Some(p) && !(p is Picoseconds), Err(_) => precision_of(precision as int) is None || precision_of(precision as int)->0 is Picoseconds }
//@@ end
//@@ fn src/parser/expressions.rs check_exact_seconds ret=r lib=rsplit_once,bytes
    ensures r is Ok <==> nanosecond < giga() && fine(text@)
//@@ closure 0 ret=&str
    ensures vx_r == __vx0.1
//@@ closure 1 ret=bool
    ensures vx_r == (digit != 48)
//@@ at after 0 map_or
    proof { let b = bytes_of(fraction_of(text@)); let m = if 9 <= b.len() { 9int } else { b.len() as int };
        assert(fraction@ == fraction_of(text@));
        assert(forall|i: int| 9 <= i < b.len() ==> #[trigger] b[i] == b.skip(m)[i - 9]);
        assert(forall|i: int| 0 <= i < b.skip(m).len() ==> #[trigger] b.skip(m)[i] == b[i + 9]); }
//@@ end
//@@ fn src/parser/expressions.rs parse_timestamp_to_precision_units ret=r
//@@ attr #[verifier::loop_isolation(false)]
    ensures match r { Ok(v) => stored_as(timestamp_str@, datetime_of(timestamp_str@), precision as int, v), Err(_) => forall|v: i64| !#[trigger] stored_as(timestamp_str@, datetime_of(timestamp_str@), precision as int, v) }
//@@ at start
    proof { axiom_layouts_agree(timestamp_str@); lemma_choices(timestamp_str@); }
    let ghost vx_p = precision;
//@@ loop 0 seq
    invariant
        precision_of(vx_p as int) == Some(precision), !(precision is Picoseconds),
        datetime_of(timestamp_str@) matches Some(d) ==> datetime_in(timestamp_str@, d),
        forall|i: int| 0 <= i < __s0.len() ==> datetime_layout((#[trigger] __s0[i])@),
        __s0.len() >= 8, forall|f: Seq<char>| #[trigger] datetime_layout(f) ==> __s0[0]@ == f || __s0[1]@ == f || __s0[2]@ == f || __s0[3]@ == f || __s0[4]@ == f || __s0[5]@ == f || __s0[6]@ == f || __s0[7]@ == f,
        forall|i: int| 0 <= i < __n0 ==> datetime_text(timestamp_str@, (#[trigger] __s0[i])@) is None,
//@@ at loop 0 start
    proof { lemma_choices(timestamp_str@); }
//@@ at after 0 signed_duration_since
    proof {  assert(duration.ns == datetime.secs() * giga() + datetime.frac()); assert(datetime_of(timestamp_str@) == Some((datetime.secs(), datetime.frac()))); assert(fine(timestamp_str@) && datetime.frac() < giga()); assert forall|v: i64| #[trigger] stored_as(timestamp_str@, datetime_of(timestamp_str@), vx_p as int, v) == exact(duration.ns as int, precision, v) by { } }
//@@ end
//@@ fn src/parser/expressions.rs parse_time_to_precision_units ret=r
//@@ attr #[verifier::loop_isolation(false)]
    ensures match r { Ok(v) => stored_as(time_str@, time_of(time_str@), precision as int, v), Err(_) => forall|v: i64| !#[trigger] stored_as(time_str@, time_of(time_str@), precision as int, v) }
//@@ at start
    proof { axiom_layouts_agree(time_str@); lemma_choices(time_str@); }
    let ghost vx_p = precision;
//@@ loop 0 seq
    invariant
        precision_of(vx_p as int) == Some(precision), !(precision is Picoseconds),
        time_of(time_str@) matches Some(d) ==> time_in(time_str@, d),
        forall|i: int| 0 <= i < __s0.len() ==> time_layout((#[trigger] __s0[i])@),
        __s0.len() >= 2, forall|f: Seq<char>| #[trigger] time_layout(f) ==> __s0[0]@ == f || __s0[1]@ == f,
        forall|i: int| 0 <= i < __n0 ==> time_text(time_str@, (#[trigger] __s0[i])@) is None,
//@@ at loop 0 start
    proof { lemma_choices(time_str@); }
//@@ at after 0 signed_duration_since
    proof { assert(duration.ns == time.secs() * giga() + time.frac()); assert(time_of(time_str@) == Some((time.secs(), time.frac()))); assert forall|v: i64| #[trigger] stored_as(time_str@, time_of(time_str@), vx_p as int, v) == exact(duration.ns as int, precision, v) by { } }
//@@ end

//@@ fn src/parser/expressions.rs parse_time_to_microseconds ret=r
    ensures match r { Ok(v) => stored_as(time_str@, time_of(time_str@), 6, v), Err(_) => forall|v: i64| !#[trigger] stored_as(time_str@, time_of(time_str@), 6, v) }
//@@ end
//@@ fn src/parser/expressions.rs parse_timestamp_to_microseconds ret=r
    ensures match r { Ok(v) => stored_as(timestamp_str@, datetime_of(timestamp_str@), 6, v), Err(_) => forall|v: i64| !#[trigger] stored_as(timestamp_str@, datetime_of(timestamp_str@), 6, v) }
//@@ end
proof fn lemma_days()
    ensures forall|n: int| #[trigger] trunc(n, 86400 * giga()) == trunc(n, 86400000000000), forall|n: int| trunc(#[trigger] (n * (86400 * giga())), 86400 * giga()) == n
{ assert forall|n: int| trunc(#[trigger] (n * (86400 * giga())), 86400 * giga()) == n by { assert(86400 * giga() == 86400000000000); assert(n * (86400 * giga()) == n * 86400000000000); } }
//@@ fn src/parser/expressions.rs parse_date_to_days ret=r
//@@ attr #[verifier::loop_isolation(false)]
    ensures match r { Ok(v) => date_of(date_str@) == Some(v as int), Err(_) => date_of(date_str@) is None }
//@@ at start
    proof { axiom_layouts_agree(date_str@); lemma_choices(date_str@); }
//@@ loop 0 seq
    invariant
        forall|i: int| 0 <= i < __s0.len() ==> date_layout((#[trigger] __s0[i])@),
        __s0.len() >= 2, forall|f: Seq<char>| #[trigger] date_layout(f) ==> __s0[0]@ == f || __s0[1]@ == f,
        forall|i: int| 0 <= i < __n0 ==> date_text(date_str@, (#[trigger] __s0[i])@) is None,
//@@ at loop 0 start
    proof { lemma_choices(date_str@); lemma_days(); }
//@@ end
// ---- day-to-second intervals
//@@ item src/parser/expressions.rs IntervalDayError
#[verifier::external_body]
fn vx_bits<T>() -> (r: usize) { core::mem::size_of::<T>() * 8 }
//@@ fn src/parser/expressions.rs parse_duration_number ret=r lib=parse,to_string
//@@ sub T: FromStr => T: VxParse
//@@ sub size_of::<T>() * 8 => vx_bits::<T>()
    ensures match r { Ok(v) => T::pval(number@) == Some(v), Err(_) => T::pval(number@) is None }
//@@ end
/// A term that cannot be stored: its number does not fit, or its unit is not that of the precision.
spec fn term_bad(t: Tree, p: SupportedPrecision) -> bool {
    if t.rule == Rule::duration_days || t.rule == Rule::duration_seconds { i32::pval(t.kids[0].text) is None }
    else { t.rule == Rule::duration_subseconds && (suffix_of(p) != Some(t.kids[1].text) || i64::pval(t.kids[0].text) is None) }
}
/// The text of the number of the (last) term of this kind.
spec fn term_of(k: Seq<Tree>, r: Rule) -> Option<Seq<char>>
    decreases k.len()
{ if k.len() == 0 { None } else if k.last().rule == r { Some(k.last().kids[0].text) } else { term_of(k.drop_last(), r) } }
spec fn int_term(k: Seq<Tree>, r: Rule) -> i32 { match term_of(k, r) { Some(s) => i32::pval(s)->0, None => 0 } }
spec fn long_term(k: Seq<Tree>, r: Rule) -> i64 { match term_of(k, r) { Some(s) => i64::pval(s)->0, None => 0 } }
/// The terms as written; a term that is not written is zero.
spec fn interval_is(k: Seq<Tree>, p: SupportedPrecision, r: IntervalDayToSecond) -> bool {
    r.days == int_term(k, Rule::duration_days) && r.seconds == int_term(k, Rule::duration_seconds) && r.subseconds == long_term(k, Rule::duration_subseconds)
    && r.precision_mode == Some(PrecisionMode::Precision(units_of(p) as i32))
}
spec fn interval_bad(k: Seq<Tree>, p: SupportedPrecision) -> bool { exists|i: int| 0 <= i < k.len() && term_bad(#[trigger] k[i], p) }
//@@ fn src/parser/expressions.rs interval_day_from_pair ret=r
    requires wf(pair@), pair@.rule == Rule::interval_day_duration
    ensures match r { Ok(v) => interval_is(pair@.kids, precision, v) && !interval_bad(pair@.kids, precision), Err(_) => interval_bad(pair@.kids, precision) }
//@@ at start
    proof { g_interval_day_duration(pair@); reveal_strlit("ms"); reveal_strlit("us"); reveal_strlit("ns"); reveal_strlit("ps"); }
    let ghost k = pair@.kids;
    broadcast use axiom_pairs;
//@@ loop 0 seq
    invariant
        k == pair@.kids, __s0.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] __s0[i])@ == k[i],
        forall|i: int| 0 <= i < k.len() ==> wf(#[trigger] k[i]) && (k[i].rule == Rule::duration_days || k[i].rule == Rule::duration_seconds || k[i].rule == Rule::duration_subseconds || k[i].rule == Rule::EOI),
        interval_is(k.take(__n0), precision, interval), forall|i: int| 0 <= i < __n0 ==> !term_bad(#[trigger] k[i], precision),
    ensures __n0 == k.len()
//@@ at loop 0 start
    proof {
        let t = k[__n0 - 1];
        assert(k.take(__n0).drop_last() =~= k.take(__n0 - 1)); assert(k.take(__n0).last() == t);
        if t.rule == Rule::duration_days { g_duration_days(t); } else if t.rule == Rule::duration_seconds { g_duration_seconds(t); } else if t.rule == Rule::duration_subseconds { g_duration_subseconds(t); g_subsecond_unit(t.kids[1]); }
        reveal_strlit("ms"); reveal_strlit("us"); reveal_strlit("ns"); reveal_strlit("ps");
    }
//@@ at tail
    proof { assert(k.take(k.len() as int) =~= k); }
//@@ end
//@@ fn src/parser/expressions.rs parse_interval_day_duration ret=r
    ensures match r { Ok(v) => interval_text(duration_str@) is Some && interval_is(interval_text(duration_str@)->0, precision, v) && !interval_bad(interval_text(duration_str@)->0, precision),
        Err(_) => interval_text(duration_str@) is None || interval_bad(interval_text(duration_str@)->0, precision) }
//@@ end
spec fn days_is(s: Seq<char>, p: SupportedPrecision, v: IntervalDayToSecond) -> bool { interval_text(s) is Some && interval_is(interval_text(s)->0, p, v) }
spec fn days_bad(s: Seq<char>, p: SupportedPrecision) -> bool { interval_text(s) is None || interval_bad(interval_text(s)->0, p) }
/// The terms an interval text is made of.
spec fn interval_text(s: Seq<char>) -> Option<Seq<Tree>> { match pest_tree(Rule::interval_day_duration, s) { Some(t) => Some(t.kids), None => None } }

//@@ item src/parser/expressions.rs UNSIGNED_INT_KIND exec
//@@ item src/parser/expressions.rs UNSIGNED_FLOAT_KIND exec
//@@ fn src/parser/expressions.rs to_int_literal ret=r lib=parse,@try_from
    requires wf(value@), value@.rule == Rule::integer
    ensures match r { Ok(l) => int_is(value@.text, chosen(given(typ), Lt::I64), l) && !int_bad(value@.text, chosen(given(typ), Lt::I64)), Err(_) => int_bad(value@.text, chosen(given(typ), Lt::I64)) }
//@@ closure 2 ret=Option<Kind>
    ensures vx_r == t.kind
//@@ end
//@@ fn src/parser/expressions.rs parse_finite ret=r lib=parse,filter
//@@ sub F: FromStr => F: VxParse
//@@ sub is_finite: fn(F) -> bool => is_finite: impl Fn(F) -> bool
    requires F::pval(text@) matches Some(v) ==> call_requires(is_finite, (v,))
    ensures match r { Some(v) => F::pval(text@) == Some(v) && call_ensures(is_finite, (v,), true), None => F::pval(text@) matches Some(v) ==> call_ensures(is_finite, (v,), false) }
//@@ closure 0 ret=bool
    requires call_requires(is_finite, (*value,))
    ensures call_ensures(is_finite, (*value,), vx_r)
//@@ end
//@@ fn src/parser/expressions.rs to_float_literal ret=r
    requires wf(value@), value@.rule == Rule::float
    ensures match r { Ok(l) => float_is(value@.text, chosen(given(typ), Lt::Fp64), l) && !float_bad(value@.text, chosen(given(typ), Lt::Fp64)), Err(_) => float_bad(value@.text, chosen(given(typ), Lt::Fp64)) }
//@@ closure 1 ret=Option<Kind>
    ensures vx_r == t.kind
//@@ end
//@@ fn src/parser/expressions.rs to_boolean_literal ret=r lib=parse
    requires wf(value@), value@.rule == Rule::boolean
    ensures match r { Ok(l) => bool_is(value@.text, chosen(given(typ), Lt::Bool), l), Err(_) => !(chosen(given(typ), Lt::Bool).lt is Bool) }
//@@ closure 0 ret=Option<Kind>
    ensures vx_r == t.kind
//@@ at start
    proof { g_boolean(value@); }
//@@ end
//@@ fn src/parser/expressions.rs to_string_literal ret=r
    requires ok(value@), value@.rule == Rule::string_literal
    ensures ({ let s = unesc(value@.text, '\'', 1); match r { Ok(l) => text_is(s, chosen(given(typ), Lt::Text), l) && !text_bad(s, chosen(given(typ), Lt::Text)), Err(_) => text_bad(s, chosen(given(typ), Lt::Text)) } })
//@@ at start
    proof { g_string_literal(value@); }
//@@ end
//@@ fn src/parser/expressions.rs to_null_literal ret=r
    requires value@.rule == Rule::null
    ensures match r { Ok(l) => typ is Some && l.literal_type == Some(LiteralType::Null(typ->0)) && !l.nullable && l.type_variation_reference == 0, Err(_) => typ is None }
//@@ end
} // verus!
