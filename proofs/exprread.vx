verus! {
// ---- what a literal text denotes
/// What a type text says about a literal of that type.
spec fn info_of(t: Tree) -> Info {
    let k = t.kids[0];
    if k.rule == Rule::simple_type {
        let n = k.kids[0].text; let null = null_of(k.kids[1]);
        if n == "boolean"@ { Info { lt: Lt::Bool, null, tvar: 0 } }
        else if n == "i8"@ { Info { lt: Lt::I8, null, tvar: 0 } }
        else if n == "i16"@ { Info { lt: Lt::I16, null, tvar: 0 } }
        else if n == "i32"@ { Info { lt: Lt::I32, null, tvar: 0 } }
        else if n == "i64"@ { Info { lt: Lt::I64, null, tvar: 0 } }
        else if n == "fp32"@ { Info { lt: Lt::Fp32, null, tvar: 0 } }
        else if n == "fp64"@ { Info { lt: Lt::Fp64, null, tvar: 0 } }
        else if n == "string"@ { Info { lt: Lt::Text, null, tvar: 0 } }
        else if n == "date"@ { Info { lt: Lt::Date, null, tvar: 0 } }
        else if n == "time"@ { Info { lt: Lt::Time, null, tvar: 0 } }
        else if n == "timestamp"@ { Info { lt: Lt::Timestamp, null, tvar: 0 } }
        else { Info { lt: Lt::Other, null: 0, tvar: 0 } }
    } else if k.rule == Rule::compound_type {
        let c = k.kids[0]; let null = null_of(c.kids[0]); let p = i32::pval(c.kids[1].text)->0 as int;
        if c.rule == Rule::precision_time_type { Info { lt: Lt::PTime(p), null, tvar: 0 } }
        else if c.rule == Rule::precision_timestamp_type { Info { lt: Lt::PTimestamp(p), null, tvar: 0 } }
        else if c.rule == Rule::precision_timestamp_tz_type { Info { lt: Lt::PTimestampTz(p), null, tvar: 0 } }
        else if c.rule == Rule::interval_day_type { Info { lt: Lt::Days(Some(p)), null, tvar: 0 } }
        else { Info { lt: Lt::Other, null: 0, tvar: 0 } }
    } else { Info { lt: Lt::Other, null: 0, tvar: 0 } }
}
proof fn lemma_info(x: &SimpleExtensions, t: Tree, r: Type)
    requires type_is(x, t, r)
    ensures given(Some(r)) == Some(info_of(t))
{
    let k = t.kids[0]; g_type(t);
    if k.rule == Rule::simple_type { lemma_simple_info(k.kids[0].text, null_of(k.kids[1]), r.kind->0); }
}
proof fn lemma_simple_info(n: Seq<char>, null: int, k: Kind)
    requires simple_is(n, null, k)
    ensures ({ let i = info(k);
        if n == "boolean"@ { i == Info { lt: Lt::Bool, null, tvar: 0 } }
        else if n == "i8"@ { i == Info { lt: Lt::I8, null, tvar: 0 } }
        else if n == "i16"@ { i == Info { lt: Lt::I16, null, tvar: 0 } }
        else if n == "i32"@ { i == Info { lt: Lt::I32, null, tvar: 0 } }
        else if n == "i64"@ { i == Info { lt: Lt::I64, null, tvar: 0 } }
        else if n == "fp32"@ { i == Info { lt: Lt::Fp32, null, tvar: 0 } }
        else if n == "fp64"@ { i == Info { lt: Lt::Fp64, null, tvar: 0 } }
        else if n == "string"@ { i == Info { lt: Lt::Text, null, tvar: 0 } }
        else if n == "date"@ { i == Info { lt: Lt::Date, null, tvar: 0 } }
        else if n == "time"@ { i == Info { lt: Lt::Time, null, tvar: 0 } }
        else if n == "timestamp"@ { i == Info { lt: Lt::Timestamp, null, tvar: 0 } }
        else { i == Info { lt: Lt::Other, null: 0, tvar: 0 } } })
{
    reveal_strlit("boolean"); reveal_strlit("i8"); reveal_strlit("i16"); reveal_strlit("i32"); reveal_strlit("i64"); reveal_strlit("fp32"); reveal_strlit("fp64"); reveal_strlit("string");
    reveal_strlit("date"); reveal_strlit("time"); reveal_strlit("timestamp"); reveal_strlit("timestamp_tz"); reveal_strlit("binary"); reveal_strlit("interval_year"); reveal_strlit("uuid");
    assert("i16"@[1] == '1' && "i32"@[1] == '3' && "i64"@[1] == '6' && "fp32"@[2] == '3' && "fp64"@[2] == '6' && "date"@[0] == 'd' && "time"@[0] == 't' && "uuid"@[0] == 'u' && "string"@[0] == 's' && "binary"@[0] == 'b');
}
spec fn lit_info(t: Tree) -> Option<Info> { if t.kids.len() == 2 { Some(info_of(t.kids[1])) } else { None } }
spec fn lit_is(x: &SimpleExtensions, t: Tree, l: Literal) -> bool {
    let v = t.kids[0]; let i = lit_info(t);
    (t.kids.len() == 1 || t.kids.len() == 2) &&
    if v.rule == Rule::integer { int_is(v.text, chosen(i, Lt::I64), l) }
    else if v.rule == Rule::float { float_is(v.text, chosen(i, Lt::Fp64), l) }
    else if v.rule == Rule::boolean { bool_is(v.text, chosen(i, Lt::Bool), l) }
    else if v.rule == Rule::string_literal { text_is(unesc(v.text, '\'', 1), chosen(i, Lt::Text), l) }
    else { t.kids.len() == 2 && l.literal_type is Some && l.literal_type->0 is Null && type_is(x, t.kids[1], l.literal_type->0->Null_0) && !l.nullable && l.type_variation_reference == 0 }
}
spec fn lit_bad(x: &SimpleExtensions, t: Tree) -> bool {
    let v = t.kids[0]; let i = lit_info(t);
    (t.kids.len() == 2 && type_bad(x, t.kids[1]))
    || if v.rule == Rule::integer { int_bad(v.text, chosen(i, Lt::I64)) }
    else if v.rule == Rule::float { float_bad(v.text, chosen(i, Lt::Fp64)) }
    else if v.rule == Rule::boolean { !(chosen(i, Lt::Bool).lt is Bool) }
    else if v.rule == Rule::string_literal { text_bad(unesc(v.text, '\'', 1), chosen(i, Lt::Text)) }
    else { t.kids.len() == 1 }
}
impl ScopedParsePair for Literal {
    spec fn at() -> Rule { Rule::expression_literal }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Literal) -> bool { lit_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { lit_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for Literal>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Literal>::message
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Literal>::parse_pair ret=r
//@@ at start
    let ghost t = pair@;
    proof { g_expression_literal(pair@); assert forall|r: Type| #[trigger] type_is(extensions, t.kids[1], r) implies given(Some(r)) == Some(info_of(t.kids[1])) by { lemma_info(extensions, t.kids[1], r); } }
    broadcast use lemma_ok_kid;
//@@ end
}
// ---- what an expression text denotes
spec fn fieldref_is(r: FieldReference, n: int) -> bool {
    r.root_type is Some && r.root_type->0 is RootReference && r.reference_type is Some && r.reference_type->0 is DirectReference
    && ({ let s = r.reference_type->0->DirectReference_0; s.reference_type is Some && s.reference_type->0 is StructField && ({ let f = *s.reference_type->0->StructField_0; f.field == n && f.child is None }) })
}
impl FieldIndex {
//@@ fn src/parser/expressions.rs FieldIndex::to_field_reference ret=r
    ensures fieldref_is(r, self.0 as int)
//@@ end
}
impl ParsePair for FieldReference {
    spec fn at() -> Rule { Rule::reference }
    spec fn reads(t: Tree, r: FieldReference) -> bool { fieldref_is(r, field_of(t)) }
//@@ fn src/parser/expressions.rs <ParsePair for FieldReference>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FieldReference>::message
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FieldReference>::parse_pair
//@@ end
}
impl ParsePair for CompoundName {
    spec fn at() -> Rule { Rule::function_signature }
    spec fn reads(t: Tree, r: CompoundName) -> bool { r.name@ == t.text }
//@@ fn src/parser/expressions.rs <ParsePair for CompoundName>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for CompoundName>::message
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for CompoundName>::parse_pair
//@@ end
}
//@@ item src/parser/expressions.rs FunctionReference
impl ParsePair for FunctionReference {
    spec fn at() -> Rule { Rule::function_reference }
    spec fn reads(t: Tree, r: FunctionReference) -> bool { r.name.name@ == t.kids[0].text && r.anchor == anchor_at(t.kids, 1) }
//@@ fn src/parser/expressions.rs <ParsePair for FunctionReference>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FunctionReference>::message
//@@ end
//@@ fn src/parser/expressions.rs <ParsePair for FunctionReference>::parse_pair lib=parse
//@@ at start
    proof { g_function_reference(pair@); }
    broadcast use lemma_ok_kid, g_anchor, g_urn_anchor;
//@@ closure 0 ret=u32
    requires ok(n@), n@.rule == Rule::anchor
    ensures Some(vx_r) == u32::pval(n@.kids[0].text)
//@@ closure 1 ret=u32
    requires ok(n@), n@.rule == Rule::urn_anchor
    ensures true
//@@ end
}
impl FunctionReference {
//@@ fn src/parser/expressions.rs FunctionReference::resolve ret=r
    ensures match r { Ok(a) => extensions.denotes(ExtensionKind::Function, self.name.name@, self.anchor, a), Err(_) => forall|a: u32| !#[trigger] extensions.denotes(ExtensionKind::Function, self.name.name@, self.anchor, a) }
//@@ end
}
spec fn expr_is(x: &SimpleExtensions, t: Tree, e: Expression) -> bool
    decreases t, 0nat
{
    wf(t) && t.rule == Rule::expression && t.kids.len() == 1 && e.rex_type is Some && ({ let k = t.kids[0]; match e.rex_type->0 {
        RexType::Literal(l) => k.rule == Rule::expression_literal && lit_is(x, k, l),
        RexType::ScalarFunction(f) => k.rule == Rule::function_call && call_is(x, k, f),
        RexType::Selection(s) => k.rule == Rule::reference && fieldref_is(*s, field_of(k)),
        RexType::IfThen(i) => k.rule == Rule::if_then && if_is(x, k, *i),
        RexType::Cast(c) => k.rule == Rule::cast_expression && cast_is(x, k, *c),
        _ => false } })
}
/// The same with the node kind known.
spec fn call_is(x: &SimpleExtensions, t: Tree, f: ScalarFunction) -> bool
    decreases t, 0nat
{
    t.kids.len() == 3 && x.denotes(ExtensionKind::Function, t.kids[0].kids[0].text, anchor_at(t.kids[0].kids, 1), f.function_reference)
    && args_are(x, t.kids[1], f.arguments@) && f.options@.len() == 0 && f.args@.len() == 0 && f.output_type is Some && type_is(x, t.kids[2], f.output_type->0)
}
spec fn args_are(x: &SimpleExtensions, t: Tree, v: Seq<FunctionArgument>) -> bool
    decreases t, 0nat
{ v.len() == t.kids.len() && forall|i: int| 0 <= i < t.kids.len() ==> arg_is(x, #[trigger] t.kids[i], v[i]) }
spec fn arg_is(x: &SimpleExtensions, t: Tree, a: FunctionArgument) -> bool
    decreases t, 1nat
{ a.arg_type is Some && a.arg_type->0 is Value && expr_is(x, t, a.arg_type->0->Value_0) }
spec fn cast_type(t: Tree) -> int { if t.kids[1].rule == Rule::cast_failure_behavior { 2 } else { 1 } }
/// Unmarked: unspecified; `?`: null; `!`: throw.
spec fn cast_failure(t: Tree) -> int { if t.kids[1].rule == Rule::cast_failure_behavior { if t.kids[1].text == "?"@ { 1 } else { 2 } } else { 0 } }
spec fn cast_is(x: &SimpleExtensions, t: Tree, c: Cast) -> bool
    decreases t, 0nat
{
    t.kids.len() == cast_type(t) + 1 && c.failure_behavior == cast_failure(t) && c.input is Some && c.r#type is Some
    && expr_is(x, t.kids[0], *c.input->0) && type_is(x, t.kids[cast_type(t)], c.r#type->0)
}
spec fn clause_is(x: &SimpleExtensions, t: Tree, c: IfClause) -> bool
    decreases t, 0nat
{ t.kids.len() == 2 && c.r#if is Some && c.then is Some && expr_is(x, t.kids[0], c.r#if->0) && expr_is(x, t.kids[1], c.then->0) }
spec fn if_is(x: &SimpleExtensions, t: Tree, c: IfThen) -> bool
    decreases t, 0nat
{
    t.kids.len() > 0 && c.ifs@.len() == t.kids.len() - 1 && (forall|i: int| 0 <= i < t.kids.len() - 1 ==> clause_is(x, #[trigger] t.kids[i], c.ifs@[i]))
    && c.r#else is Some && expr_is(x, t.kids.last(), *c.r#else->0)
}
/// The expression is rejected: a literal, type or function reference in it is.
spec fn expr_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() == 1 && ({ let k = t.kids[0];
    if k.rule == Rule::expression_literal { lit_bad(x, k) } else if k.rule == Rule::function_call { call_bad(x, k) } else if k.rule == Rule::if_then { if_bad(x, k) } else { k.rule == Rule::cast_expression && cast_bad(x, k) } }) }
spec fn call_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() == 3 && (args_bad(x, t.kids[1]) || type_bad(x, t.kids[2]) || forall|a: u32| !#[trigger] x.denotes(ExtensionKind::Function, t.kids[0].kids[0].text, anchor_at(t.kids[0].kids, 1), a)) }
spec fn args_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ exists|i: int| 0 <= i < t.kids.len() && expr_bad(x, #[trigger] t.kids[i]) }
spec fn cast_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() >= 2 && cast_type(t) < t.kids.len() && (expr_bad(x, t.kids[0]) || type_bad(x, t.kids[cast_type(t)])) }
spec fn clause_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() == 2 && (expr_bad(x, t.kids[0]) || expr_bad(x, t.kids[1])) }
spec fn if_bad(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ t.kids.len() > 0 && ((exists|i: int| 0 <= i < t.kids.len() - 1 && clause_bad(x, #[trigger] t.kids[i])) || expr_bad(x, t.kids.last())) }
impl ScopedParsePair for Expression {
    spec fn at() -> Rule { Rule::expression }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Expression) -> bool { expr_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { expr_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for Expression>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Expression>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for ScalarFunction {
    spec fn at() -> Rule { Rule::function_call }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: ScalarFunction) -> bool { call_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { call_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for ScalarFunction>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for ScalarFunction>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for Cast {
    spec fn at() -> Rule { Rule::cast_expression }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Cast) -> bool { cast_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { cast_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for Cast>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Cast>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for IfClause {
    spec fn at() -> Rule { Rule::if_clause }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: IfClause) -> bool { clause_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { clause_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfClause>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfClause>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ScopedParsePair for IfThen {
    spec fn at() -> Rule { Rule::if_then }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: IfThen) -> bool { if_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { if_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfThen>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfThen>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
//@@ item src/parser/expressions.rs FunctionArguments
#[verifier::opaque]
spec fn arg_did(x: &SimpleExtensions, t: Tree, a: FunctionArgument) -> bool { arg_is(x, t, a) && !expr_bad(x, t) }
#[verifier::opaque]
spec fn clause_did(x: &SimpleExtensions, t: Tree, c: IfClause) -> bool { clause_is(x, t, c) && !clause_bad(x, t) }
proof fn lemma_args(x: &SimpleExtensions, t: Tree, v: Seq<FunctionArgument>)
    requires v.len() == t.kids.len(), forall|i: int| 0 <= i < v.len() ==> arg_did(x, #[trigger] t.kids[i], v[i])
    ensures args_are(x, t, v), !args_bad(x, t)
{ reveal(arg_did); }
impl ScopedParsePair for FunctionArguments {
    spec fn at() -> Rule { Rule::argument_list }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: FunctionArguments) -> bool { args_are(x, t, r.0@) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { args_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for FunctionArguments>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for FunctionArguments>::message
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for FunctionArguments>::parse_pair
//@@ sub let mut arguments = Vec::new(); => let mut arguments: Vec<FunctionArgument> = Vec::new();
//@@ at start
    let ghost k = pair@.kids;
    proof { g_argument_list(pair@); assert forall|i: int| 0 <= i < pair@.kids.len() implies ok(#[trigger] pair@.kids[i]) by { lemma_ok_kid(pair@, i); } }
    broadcast use axiom_pairs;
//@@ loop 0 seq
    invariant
        k == pair@.kids, ok(pair@), __s0.len() == k.len(), forall|i: int| 0 <= i < k.len() ==> (#[trigger] __s0[i])@ == k[i],
        forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::expression && ok(k[i]),
        arguments@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> arg_did(extensions, #[trigger] k[i], arguments@[i]),
//@@ at loop 0 start
    proof { assert(e@ == k[__n0 - 1]); assert(ok(k[__n0 - 1])); }
//@@ at loop 0 end
    proof { assert(arg_did(extensions, k[__n0 - 1], arguments@[__n0 - 1])) by { reveal(arg_did); } }
//@@ at tail
    proof {
        lemma_args(extensions, pair@, arguments@);
    }
//@@ end
}
impl ScalarFunction {
//@@ fn src/parser/expressions.rs <ScopedParsePair for ScalarFunction>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::function_call
    ensures match r { Ok(v) => call_is(extensions, pair@, v) && !call_bad(extensions, pair@), Err(_) => call_bad(extensions, pair@) }
//@@ at start
    proof { g_function_call(pair@); lemma_ok_kid(pair@, 0); lemma_ok_kid(pair@, 1); lemma_ok_kid(pair@, 2); }
//@@ end
}
impl Cast {
//@@ fn src/parser/expressions.rs <ScopedParsePair for Cast>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::cast_expression
    ensures match r { Ok(v) => cast_is(extensions, pair@, v) && !cast_bad(extensions, pair@), Err(_) => cast_bad(extensions, pair@) }
//@@ at start
    proof { g_cast_expression(pair@); lemma_ok_kid(pair@, 0); lemma_ok_kid(pair@, 1); if pair@.kids.len() == 3 { lemma_ok_kid(pair@, 2); } if pair@.kids.len() == 3 { g_cast_failure_behavior(pair@.kids[1]); } reveal_strlit("?"); reveal_strlit("!"); }
//@@ end
}
impl Expression {
//@@ fn src/parser/expressions.rs <ScopedParsePair for Expression>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::expression
    ensures match r { Ok(v) => expr_is(extensions, pair@, v) && !expr_bad(extensions, pair@), Err(_) => expr_bad(extensions, pair@) }
//@@ at start
    proof { g_expression(pair@); lemma_ok_kid(pair@, 0); }
//@@ end
}
impl IfClause {
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfClause>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::if_clause
    ensures match r { Ok(v) => clause_is(extensions, pair@, v) && !clause_bad(extensions, pair@), Err(_) => clause_bad(extensions, pair@) }
//@@ at start
    proof { g_if_clause(pair@); lemma_ok_kid(pair@, 0); lemma_ok_kid(pair@, 1); }
//@@ end
}
impl IfThen {
//@@ fn src/parser/expressions.rs <ScopedParsePair for IfThen>::parse_pair as=vx_parse_pair ret=r
    requires ok(pair@), pair@.rule == Rule::if_then
    ensures match r { Ok(v) => if_is(extensions, pair@, v) && !if_bad(extensions, pair@), Err(_) => if_bad(extensions, pair@) }
//@@ at start
    let ghost k = pair@.kids; let ghost t = pair@;
    proof { g_if_then(pair@); assert forall|i: int| 0 <= i < pair@.kids.len() implies ok(#[trigger] pair@.kids[i]) by { lemma_ok_kid(pair@, i); } }
//@@ loop 0
    invariant
        t == pair@, k == t.kids, ok(t), k.len() >= 2, k.last().rule == Rule::expression, forall|i: int| 0 <= i < k.len() - 1 ==> (#[trigger] k[i]).rule == Rule::if_clause && ok(k[i]), ok(k.last()),
        ifs@.len() <= k.len() - 1, iter.iter@ == k.skip(ifs@.len() as int),
        forall|i: int| 0 <= i < ifs@.len() ==> clause_did(extensions, #[trigger] k[i], ifs@[i]),
    ensures ifs@.len() == k.len() - 1
    decreases k.len() - ifs@.len()
//@@ at loop 0 start
    proof { assert(k.skip(ifs@.len() as int).skip(1) =~= k.skip((ifs@.len() + 1) as int)); assert(k.skip(ifs@.len() as int)[0] == k[ifs@.len() as int]); }
//@@ at loop 0 end
    proof { assert(clause_did(extensions, k[ifs@.len() - 1], ifs@[ifs@.len() - 1])) by { reveal(clause_did); } }
//@@ at tail
    proof { reveal(clause_did); }
//@@ end
}
/// An aggregate measure is the function call, without further options.
spec fn measure_is(x: &SimpleExtensions, t: Tree, m: Measure) -> bool {
    m.filter is None && m.measure is Some && ({ let a = m.measure->0; a.invocation == 0 && a.phase == 0 && a.sorts@.len() == 0
        && call_is(x, t, ScalarFunction { function_reference: a.function_reference, arguments: a.arguments, options: a.options, output_type: a.output_type, args: a.args }) })
}
impl ScopedParsePair for Measure {
    spec fn at() -> Rule { Rule::function_call }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Measure) -> bool { measure_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { call_bad(x, t) }
//@@ fn src/parser/expressions.rs <ScopedParsePair for Measure>::rule
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Measure>::message
//@@ end
//@@ fn src/parser/expressions.rs <ScopedParsePair for Measure>::parse_pair
//@@ end
}
} // verus!
