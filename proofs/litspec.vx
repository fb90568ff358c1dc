//@@ include floatspec.vx
verus! {
// ---- literals
impl VxParse for bool { open spec fn pval(s: Seq<char>) -> Option<bool> { if s == "true"@ { Some(true) } else if s == "false"@ { Some(false) } else { None } } }
/// What a literal needs to know of its type: the kind, the stored nullability and the type variation.
ghost enum Lt { Bool, I8, I16, I32, I64, Fp32, Fp64, Text, Date, Time, Timestamp, PTime(int), PTimestamp(int), PTimestampTz(int), Days(Option<int>), Other }
ghost struct Info { lt: Lt, null: int, tvar: int }
spec fn info(k: Kind) -> Info {
    match k {
        Kind::Bool(x) => Info { lt: Lt::Bool, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::I8(x) => Info { lt: Lt::I8, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::I16(x) => Info { lt: Lt::I16, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::I32(x) => Info { lt: Lt::I32, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::I64(x) => Info { lt: Lt::I64, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::Fp32(x) => Info { lt: Lt::Fp32, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::Fp64(x) => Info { lt: Lt::Fp64, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::String(x) => Info { lt: Lt::Text, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::Date(x) => Info { lt: Lt::Date, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::Time(x) => Info { lt: Lt::Time, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::Timestamp(x) => Info { lt: Lt::Timestamp, null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::PrecisionTime(x) => Info { lt: Lt::PTime(x.precision as int), null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::PrecisionTimestamp(x) => Info { lt: Lt::PTimestamp(x.precision as int), null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::PrecisionTimestampTz(x) => Info { lt: Lt::PTimestampTz(x.precision as int), null: x.nullability as int, tvar: x.type_variation_reference as int },
        Kind::IntervalDay(x) => Info { lt: Lt::Days(match x.precision { Some(p) => Some(p as int), None => None }), null: x.nullability as int, tvar: x.type_variation_reference as int },
        _ => Info { lt: Lt::Other, null: 0, tvar: 0 },
    }
}
spec fn given(t: Option<Type>) -> Option<Info> { match t { Some(t) => match t.kind { Some(k) => Some(info(k)), None => None }, None => None } }
/// Without a type: required, no variation.
spec fn default_info(lt: Lt) -> Info { Info { lt, null: 2, tvar: 0 } }
spec fn chosen(i: Option<Info>, lt: Lt) -> Info { match i { Some(i) => i, None => default_info(lt) } }
spec fn marked(l: Literal, i: Info) -> bool { l.nullable == (i.null != 2) && l.type_variation_reference == i.tvar }
spec fn int_is(s: Seq<char>, i: Info, l: Literal) -> bool {
    i64::pval(s) is Some && marked(l, i) && { let v = i64::pval(s)->0; match i.lt {
        Lt::I8 => -128 <= v <= 127 && l.literal_type == Some(LiteralType::I8(v as i32)),
        Lt::I16 => -32768 <= v <= 32767 && l.literal_type == Some(LiteralType::I16(v as i32)),
        Lt::I32 => i32::MIN <= v <= i32::MAX && l.literal_type == Some(LiteralType::I32(v as i32)),
        Lt::I64 => l.literal_type == Some(LiteralType::I64(v)),
        _ => false } }
}
spec fn int_bad(s: Seq<char>, i: Info) -> bool {
    i64::pval(s) is None || { let v = i64::pval(s)->0; match i.lt { Lt::I8 => !(-128 <= v <= 127), Lt::I16 => !(-32768 <= v <= 32767), Lt::I32 => !(i32::MIN <= v <= i32::MAX), Lt::I64 => false, _ => true } }
}
spec fn float_is(s: Seq<char>, i: Info, l: Literal) -> bool {
    marked(l, i) && match i.lt {
        Lt::Fp32 => f32_of(s) is Some && finite32(f32_of(s)->0) && l.literal_type == Some(LiteralType::Fp32(f32_of(s)->0)),
        Lt::Fp64 => f64_of(s) is Some && finite64(f64_of(s)->0) && l.literal_type == Some(LiteralType::Fp64(f64_of(s)->0)),
        _ => false }
}
spec fn float_bad(s: Seq<char>, i: Info) -> bool { match i.lt { Lt::Fp32 => f32_of(s) is None || !finite32(f32_of(s)->0), Lt::Fp64 => f64_of(s) is None || !finite64(f64_of(s)->0), _ => true } }
spec fn bool_is(s: Seq<char>, i: Info, l: Literal) -> bool { marked(l, i) && i.lt is Bool && l.literal_type == Some(LiteralType::Boolean(s == "true"@)) }
/// A quoted literal with content s.
spec fn text_is(s: Seq<char>, i: Info, l: Literal) -> bool {
    marked(l, i) && l.literal_type is Some && match (i.lt, l.literal_type->0) {
        (Lt::Text, LiteralType::String(v)) => v@ == s,
        (Lt::Date, LiteralType::Date(v)) => date_of(s) == Some(v as int),
        (Lt::Time, LiteralType::Time(v)) => stored_as(s, time_of(s), 6, v),
        (Lt::Timestamp, LiteralType::Timestamp(v)) => stored_as(s, datetime_of(s), 6, v),
        (Lt::PTime(p), LiteralType::PrecisionTime(v)) => v.precision == p && stored_as(s, time_of(s), p, v.value),
        (Lt::PTimestamp(p), LiteralType::PrecisionTimestamp(v)) => v.precision == p && stored_as(s, datetime_of(s), p, v.value),
        (Lt::PTimestampTz(p), LiteralType::PrecisionTimestampTz(v)) => v.precision == p && stored_as(s, datetime_of(s), p, v.value),
        (Lt::Days(Some(p)), LiteralType::IntervalDayToSecond(v)) => precision_of(p) is Some && days_is(s, precision_of(p)->0, v),
        _ => false }
}
/// A quoted literal with content s is rejected: not of the layout its type has, or not exactly storable.
spec fn text_bad(s: Seq<char>, i: Info) -> bool {
    match i.lt {
        Lt::Text => false,
        Lt::Date => date_of(s) is None,
        Lt::Time => forall|v: i64| !#[trigger] stored_as(s, time_of(s), 6, v),
        Lt::Timestamp => forall|v: i64| !#[trigger] stored_as(s, datetime_of(s), 6, v),
        Lt::PTime(p) => forall|v: i64| !#[trigger] stored_as(s, time_of(s), p, v),
        Lt::PTimestamp(p) => forall|v: i64| !#[trigger] stored_as(s, datetime_of(s), p, v),
        Lt::PTimestampTz(p) => forall|v: i64| !#[trigger] stored_as(s, datetime_of(s), p, v),
        Lt::Days(Some(p)) => precision_of(p) is None || days_bad(s, precision_of(p)->0),
        _ => true }
}
} // verus!
