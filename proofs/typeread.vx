verus! {
// ---- references to extensions
impl ExtensionKind {
//@@ fn src/extensions/simple.rs ExtensionKind::name
//@@ end
}
//@@ fn src/parser/types.rs get_and_validate_anchor ret=r lib=full,base,to_string
//@@ sub stored.vx_full() == name => vx_eq_text(stored.full(), name)
//@@ sub stored.vx_base() == name => vx_eq_text(stored.base(), name)
    ensures match r { Ok(a) => extensions.denotes(kind, name@, anchor, a), Err(_) => forall|a: u32| !#[trigger] extensions.denotes(kind, name@, anchor, a) }
//@@ closure 0 ret=u32
    ensures vx_r == r.anchor
//@@ end

// ---- nullability
spec fn null_no(n: Nullability) -> int { n.num() as int }
/// `?` nullable, nothing required, `⁉` unspecified.
spec fn null_is(t: Tree, n: Nullability) -> bool { match n { Nullability::Nullable => t.text == "?"@, Nullability::Required => t.text == ""@, Nullability::Unspecified => t.text == "⁉"@ } }
/// The number stored for a nullability marker.
spec fn null_of(t: Tree) -> int { if t.text == "?"@ { 1 } else if t.text == ""@ { 2 } else { 0 } }
proof fn lemma_null(t: Tree, n: Nullability)
    requires null_is(t, n)
    ensures null_of(t) == null_no(n)
{ reveal_strlit("?"); reveal_strlit(""); reveal_strlit("⁉"); if n is Unspecified { assert("⁉"@[0] != "?"@[0]); } else if n is Required { assert(""@.len() == 0 && "?"@.len() == 1); } }
impl Nullability {
    #[verifier::external_body]
    fn vx_into(self) -> (r: i32) ensures r == null_no(self) { unimplemented!() }
}
impl ParsePair for Nullability {
    spec fn at() -> Rule { Rule::nullability }
    spec fn reads(t: Tree, r: Nullability) -> bool { null_is(t, r) }
//@@ fn src/parser/types.rs <ParsePair for Nullability>::rule
//@@ end
//@@ fn src/parser/types.rs <ParsePair for Nullability>::message
//@@ end
//@@ fn src/parser/types.rs <ParsePair for Nullability>::parse_pair
//@@ at start
    proof { g_nullability(pair@); }
//@@ end
}
// ---- types
/// The simple type of this name and nullability.
spec fn simple_is(name: Seq<char>, n: int, k: Kind) -> bool {
    match k {
        Kind::Bool(x) => name == "boolean"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::I8(x) => name == "i8"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::I16(x) => name == "i16"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::I32(x) => name == "i32"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::I64(x) => name == "i64"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Fp32(x) => name == "fp32"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Fp64(x) => name == "fp64"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::String(x) => name == "string"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Binary(x) => name == "binary"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Timestamp(x) => name == "timestamp"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::TimestampTz(x) => name == "timestamp_tz"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Date(x) => name == "date"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Time(x) => name == "time"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::IntervalYear(x) => name == "interval_year"@ && x.nullability == n && x.type_variation_reference == 0,
        Kind::Uuid(x) => name == "uuid"@ && x.nullability == n && x.type_variation_reference == 0,
        _ => false,
    }
}
spec fn precision_ok(s: Seq<char>) -> bool { i32::pval(s) is Some && 0 <= i32::pval(s)->0 <= 12 }
/// The anchor written at child i, if that is an anchor.
spec fn anchor_at(k: Seq<Tree>, i: int) -> Option<u32> { if i < k.len() && k[i].rule == Rule::anchor { u32::pval(k[i].kids[0].text) } else { None } }
/// Position of the nullability marker of a user-defined type: after the name and the anchors.
spec fn udt_null(k: Seq<Tree>) -> int { let a = if 1 < k.len() && k[1].rule == Rule::anchor { 2int } else { 1 }; if a < k.len() && k[a].rule == Rule::urn_anchor { a + 1 } else { a } }
spec fn udt_params(k: Seq<Tree>) -> Seq<Tree> { let n = udt_null(k); if n + 1 < k.len() { k[n + 1].kids } else { seq![] } }
/// The plan type a type tree denotes.
spec fn type_is(x: &SimpleExtensions, t: Tree, r: Type) -> bool
    decreases t
{
    wf(t) && t.rule == Rule::r#type && t.kids.len() == 1 && match r.kind {
        None => false,
        Some(kind) => {
            let k = t.kids[0];
            if k.rule == Rule::simple_type { simple_is(k.kids[0].text, null_of(k.kids[1]), kind) }
            else if k.rule == Rule::compound_type { compound_is(x, k, kind) }
            else { udt_is(x, k, kind) }
        }
    }
}
spec fn compound_is(x: &SimpleExtensions, k: Tree, kind: Kind) -> bool
    decreases k
{
    if k.kids.len() != 1 || k.kids[0].kids.len() != 2 { false } else {
        let c = k.kids[0]; let n = null_of(c.kids[0]); let i = c.kids[1].text;
        match kind {
            Kind::List(l) => c.rule == Rule::list_type && l.nullability == n && l.type_variation_reference == 0 && l.r#type is Some && type_is(x, c.kids[1], *l.r#type->0),
            Kind::PrecisionTime(p) => c.rule == Rule::precision_time_type && p.nullability == n && p.type_variation_reference == 0 && precision_ok(i) && p.precision == i32::pval(i)->0,
            Kind::PrecisionTimestamp(p) => c.rule == Rule::precision_timestamp_type && p.nullability == n && p.type_variation_reference == 0 && precision_ok(i) && p.precision == i32::pval(i)->0,
            Kind::PrecisionTimestampTz(p) => c.rule == Rule::precision_timestamp_tz_type && p.nullability == n && p.type_variation_reference == 0 && precision_ok(i) && p.precision == i32::pval(i)->0,
            Kind::IntervalDay(p) => c.rule == Rule::interval_day_type && p.nullability == n && p.type_variation_reference == 0 && precision_ok(i) && p.precision == Some(i32::pval(i)->0),
            _ => false,
        }
    }
}
spec fn udt_is(x: &SimpleExtensions, k: Tree, kind: Kind) -> bool
    decreases k
{
    match kind {
        Kind::UserDefined(u) => 0 <= udt_null(k.kids) < k.kids.len() && u.type_variation_reference == 0 && u.nullability == null_of(k.kids[udt_null(k.kids)])
            && x.denotes(ExtensionKind::Type, k.kids[0].text, anchor_at(k.kids, 1), u.type_reference)
            && (if udt_null(k.kids) + 1 < k.kids.len() { params_are(x, k.kids[udt_null(k.kids) + 1], u.type_parameters@) } else { u.type_parameters@.len() == 0 }),
        _ => false,
    }
}
spec fn params_are(x: &SimpleExtensions, t: Tree, v: Seq<Parameter>) -> bool
    decreases t
{ v.len() == t.kids.len() && forall|i: int| 0 <= i < t.kids.len() ==> param_is(x, #[trigger] t.kids[i], v[i]) }
spec fn param_is(x: &SimpleExtensions, t: Tree, p: Parameter) -> bool
    decreases t
{
    t.kids.len() == 1 && match p.parameter {
        Some(proto::r#type::parameter::Parameter::DataType(d)) => t.kids[0].rule == Rule::r#type && type_is(x, t.kids[0], d),
        Some(proto::r#type::parameter::Parameter::Integer(i)) => t.kids[0].rule == Rule::integer && i64::pval(t.kids[0].text) == Some(i),
        _ => false,
    }
}
/// The type text is rejected: a precision out of range, a type the plan cannot hold, or an unknown user-defined type (at any depth).
spec fn type_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{
    t.kids.len() == 1 && {
        let k = t.kids[0];
        if k.rule == Rule::compound_type { k.kids.len() == 1 && {
            let c = k.kids[0];
            if c.rule == Rule::list_type { c.kids.len() == 2 && type_bad(x, c.kids[1]) }
            else if c.rule == Rule::map_type || c.rule == Rule::struct_type { true }
            else { c.kids.len() == 2 && !precision_ok(c.kids[1].text) } }
        } else if k.rule == Rule::user_defined_type { udt_bad(x, k) }
        else { false }
    }
}
spec fn udt_bad(x: &SimpleExtensions, k: Tree) -> bool
    decreases k
{
    (0 <= udt_null(k.kids) && udt_null(k.kids) + 1 < k.kids.len() && params_bad(x, k.kids[udt_null(k.kids) + 1]))
    || forall|a: u32| !#[trigger] x.denotes(ExtensionKind::Type, k.kids[0].text, anchor_at(k.kids, 1), a)
}
spec fn params_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ exists|i: int| 0 <= i < t.kids.len() && param_bad(x, #[trigger] t.kids[i]) }
spec fn param_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() == 1 && if t.kids[0].rule == Rule::r#type { type_bad(x, t.kids[0]) } else { t.kids[0].rule != Rule::integer } }

//@@ trust recursion over a parse tree ends (the mutually recursive conversions are checked against each other's contracts without a termination argument)
impl ScopedParsePair for Type {
    spec fn at() -> Rule { Rule::r#type }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Type) -> bool { type_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { type_bad(x, t) }
//@@ fn src/parser/types.rs <ScopedParsePair for Type>::rule
//@@ end
//@@ fn src/parser/types.rs <ScopedParsePair for Type>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for Parameter {
    spec fn at() -> Rule { Rule::parameter }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Parameter) -> bool { param_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { param_bad(x, t) }
//@@ fn src/parser/types.rs <ScopedParsePair for Parameter>::rule
//@@ end
//@@ fn src/parser/types.rs <ScopedParsePair for Parameter>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl Parameter {
//@@ fn src/parser/types.rs <ScopedParsePair for Parameter>::parse_pair as=vx_parse_pair ret=r lib=parse
    requires ok(pair@), pair@.rule == Rule::parameter
    ensures match r { Ok(v) => param_is(extensions, pair@, v) && !param_bad(extensions, pair@), Err(_) => param_bad(extensions, pair@) }
//@@ at start
    proof { g_parameter(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
}
//@@ fn src/parser/types.rs parse_simple_type ret=r lib=into
    requires ok(pair@), pair@.rule == Rule::simple_type
    ensures r.kind is Some, simple_is(pair@.kids[0].text, null_of(pair@.kids[1]), r.kind->0)
//@@ at start
    proof { g_simple_type(pair@); }
    broadcast use lemma_ok_kid;
    proof { g_simple_type_name(pair@.kids[0]); }
    let ghost k = pair@.kids;
//@@ at after 0 done
    proof { lemma_null(k[1], nullability); }
//@@ end
//@@ fn src/parser/types.rs parse_precision ret=r lib=parse,filter
    ensures match r { Ok(v) => precision_ok(precision_pair@.text) && v == i32::pval(precision_pair@.text)->0, Err(_) => !precision_ok(precision_pair@.text) }
//@@ closure 0 ret=bool
    ensures vx_r == (0 <= *p <= 12)
//@@ end
//@@ fn src/parser/types.rs parse_precision_type ret=r lib=into
    requires ok(pair@), pair@.rule == Rule::precision_timestamp_type || pair@.rule == Rule::precision_timestamp_tz_type || pair@.rule == Rule::precision_time_type
    ensures pair@.kids.len() == 2, match r { Ok(v) => v.kind is Some && precision_ok(pair@.kids[1].text) && (forall|x: &SimpleExtensions, k: Tree| k.kids == seq![pair@] ==> #[trigger] compound_is(x, k, v.kind->0)), Err(_) => !precision_ok(pair@.kids[1].text) }
//@@ at start
    proof { if pair@.rule == Rule::precision_timestamp_type { g_precision_timestamp_type(pair@); } else if pair@.rule == Rule::precision_time_type { g_precision_time_type(pair@); } else { g_precision_timestamp_tz_type(pair@); } }
    broadcast use lemma_ok_kid;
    let ghost k = pair@.kids;
//@@ at after 0 done
    proof { lemma_null(k[0], nullability); }
//@@ end
//@@ fn src/parser/types.rs parse_interval_day_type ret=r lib=into
    requires ok(pair@), pair@.rule == Rule::interval_day_type
    ensures pair@.kids.len() == 2, match r { Ok(v) => v.kind is Some && precision_ok(pair@.kids[1].text) && (forall|x: &SimpleExtensions, k: Tree| k.kids == seq![pair@] ==> #[trigger] compound_is(x, k, v.kind->0)), Err(_) => !precision_ok(pair@.kids[1].text) }
//@@ at start
    proof { g_interval_day_type(pair@); }
    broadcast use lemma_ok_kid;
    let ghost k = pair@.kids;
//@@ at after 0 done
    proof { lemma_null(k[0], nullability); }
//@@ end
//@@ fn src/parser/types.rs parse_list_type ret=r lib=into
    requires ok(pair@), pair@.rule == Rule::list_type
    ensures pair@.kids.len() == 2, match r { Ok(v) => v.kind is Some && !type_bad(extensions, pair@.kids[1]) && (forall|k: Tree| k.kids == seq![pair@] ==> #[trigger] compound_is(extensions, k, v.kind->0)), Err(_) => type_bad(extensions, pair@.kids[1]) }
//@@ at start
    proof { g_list_type(pair@); }
    broadcast use lemma_ok_kid;
    let ghost k = pair@.kids;
//@@ at after 0 done
    proof { lemma_null(k[0], nullability); }
//@@ end
//@@ fn src/parser/types.rs parse_compound_type ret=r
    requires ok(pair@), pair@.rule == Rule::compound_type
    ensures match r { Ok(v) => v.kind is Some && compound_is(extensions, pair@, v.kind->0) && !compound_bad(extensions, pair@), Err(_) => compound_bad(extensions, pair@) }
//@@ at start
    proof { g_compound_type(pair@); assert(pair@.kids =~= seq![pair@.kids[0]]); }
    broadcast use lemma_ok_kid;
//@@ end
spec fn compound_bad(x: &SimpleExtensions, k: Tree) -> bool { k.kids.len() == 1 && { let c = k.kids[0];
    if c.rule == Rule::list_type { c.kids.len() == 2 && type_bad(x, c.kids[1]) } else if c.rule == Rule::map_type || c.rule == Rule::struct_type { true } else { c.kids.len() == 2 && !precision_ok(c.kids[1].text) } } }
//@@ fn src/parser/types.rs parse_parameters ret=r
//@@ sub let mut params = Vec::new(); => let mut params: Vec<Parameter> = Vec::new();
    requires ok(pair@), pair@.rule == Rule::parameters
    ensures match r { Ok(v) => params_are(extensions, pair@, v@) && !params_bad(extensions, pair@), Err(_) => params_bad(extensions, pair@) }
//@@ at start
    let ghost t = pair@; let ghost k = pair@.kids;
    proof { g_parameters(pair@); }
//@@ loop 0
    invariant
        t == pair@, ok(t), t.kids == k, params@.len() <= k.len(), iter.iter@ == k.skip(params@.len() as int), forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::parameter,
        forall|i: int| #![trigger k[i]] #![trigger params@[i]] 0 <= i < params@.len() ==> param_is(extensions, k[i], params@[i]) && !param_bad(extensions, k[i]),
    ensures params@.len() == k.len()
    decreases k.len() - params@.len()
//@@ at loop 0 start
    proof { assert(k.skip(params@.len() as int).skip(1) =~= k.skip((params@.len() + 1) as int)); assert(k.skip(params@.len() as int)[0] == k[params@.len() as int]); }
//@@ end
//@@ fn src/parser/types.rs parse_user_defined_type ret=r lib=into,to_string,parse
    requires ok(pair@), pair@.rule == Rule::user_defined_type
    ensures match r { Ok(v) => v.kind is Some && udt_is(extensions, pair@, v.kind->0) && !udt_bad(extensions, pair@), Err(_) => udt_bad(extensions, pair@) }
//@@ at start
    let ghost t = pair@; let ghost k = pair@.kids;
    proof { g_user_defined_type(pair@); }
    broadcast use lemma_ok_kid, g_anchor, g_urn_anchor;
//@@ closure 0 ret=u32
    requires ok(n@), n@.rule == Rule::anchor
    ensures Some(vx_r) == u32::pval(n@.kids[0].text)
//@@ closure 1 ret=u32
    requires ok(n@), n@.rule == Rule::urn_anchor
    ensures true
//@@ at after 0 done
    proof { lemma_null(k[udt_null(k)], nullability); }
//@@ end
impl Type {
//@@ fn src/parser/types.rs <ScopedParsePair for Type>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::r#type
    ensures match r { Ok(v) => type_is(extensions, pair@, v) && !type_bad(extensions, pair@), Err(_) => type_bad(extensions, pair@) }
//@@ at start
    proof { g_type(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
}
} // verus!
