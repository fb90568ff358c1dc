//@@ include names.vx
//@@ include proto.vx
verus! {
//@@ proto Rel r#type::Nullability extensions::SimpleExtensionUrn extensions::SimpleExtensionDeclaration
use proto::*;
use proto::rel::RelType;
use proto::rel_common::{Direct, EmitKind};
use proto::expression::RexType;
use proto::expression::{FieldReference, ReferenceSegment, reference_segment};
use proto::expression::field_reference::{ReferenceType, RootReference, RootType};
//@@ trust derive(Clone) copies a value
}
//@@ include extcore.vx
//@@ include parsers.vx
//@@ include absread.vx
//@@ include checkints.vx
//@@ include convs.vx
//@@ include floatspec.vx
verus! {
#[verifier::external_body]
struct ExtensionError { _p: () }
// ---- argument values
//@@ item src/extensions/args.rs ExtensionValue
//@@ item src/extensions/args.rs TupleValue
//@@ item src/extensions/args.rs Expr
//@@ item src/extensions/args.rs ExtensionColumn sub=r#type=>vtype
//@@ item src/textify/expressions.rs Reference
//@@ item src/extensions/args.rs ExtensionArgs
//@@ item src/extensions/args.rs AddendumKind derive=Clone,Copy,PartialEq,Eq,Structural
/// A direct reference to field i, with nothing nested below it.
spec fn is_field(e: proto::Expression, i: i32) -> bool {
    e.rex_type matches Some(RexType::Selection(f)) && f.reference_type matches Some(ReferenceType::DirectReference(s))
    && s.reference_type matches Some(reference_segment::ReferenceType::StructField(f)) && f.child is None && f.field == i
}
impl From<Reference> for proto::Expression {
    closed spec fn from_rel(v: Reference, r: proto::Expression) -> bool { is_field(r, v.0) }
//@@ fn src/textify/expressions.rs <From<Reference> for Expression>::from as=cfrom lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}
//@@ def from
impl From<$1> for $2 {
    closed spec fn from_rel(v: $1, r: $2) -> bool { $3 }
//@@ fn src/extensions/args.rs <From<$1> for $2>::from as=cfrom lib=into>cinto,@from>cfrom,@try_from>ctry
//@@ end
}
//@@ enddef
//@@ use from proto::Expression ; Expr ; *r.0 == v
//@@ use from Reference ; Expr ; is_field(*r.0, v.0)
//@@ use from Expr ; ExtensionValue ; r == ExtensionValue::Expr(v)
//@@ use from proto::Expression ; ExtensionValue ; r matches ExtensionValue::Expr(e) && *e.0 == v
//@@ use from Reference ; ExtensionValue ; r matches ExtensionValue::Expr(e) && is_field(*e.0, v.0)
impl From<ExtensionValue> for ExtensionValue { open spec fn from_rel(v: ExtensionValue, r: ExtensionValue) -> bool { r == v } fn cfrom(v: ExtensionValue) -> (r: ExtensionValue) { v } }
//@@ trust derive(Default) of ExtensionArgs is the empty list
impl ExtensionArgs {
    #[verifier::external_body] fn default() -> (r: ExtensionArgs) ensures r.positional@.len() == 0, r.named@.len() == 0, r.output_columns@.len() == 0 { unimplemented!() }
//@@ fn src/extensions/args.rs ExtensionArgs::push lib=into>cinto
    ensures
        exists|v: ExtensionValue| #[trigger] value.into_rel(v) && final(self).positional@ == old(self).positional@.push(v),
        final(self).named == old(self).named, final(self).output_columns == old(self).output_columns
//@@ end
//@@ fn src/extensions/args.rs ExtensionArgs::insert ret=r lib=into>cinto
    ensures final(self).positional == old(self).positional, final(self).output_columns == old(self).output_columns,
        exists|k: String, v: ExtensionValue| #[trigger] name.into_rel(k) && #[trigger] value.into_rel(v) && match r {
            None => !has_key(old(self).named@, k@) && final(self).named@ == old(self).named@.push((k, v)),
            Some(_) => has_key(old(self).named@, k@),
        }
//@@ end
}
//@@ fn src/parser/expressions.rs parse_finite ret=r lib=parse,filter
//@@ sub F: FromStr => F: VxParse
//@@ sub is_finite: fn(F) -> bool => is_finite: impl Fn(F) -> bool
    requires F::pval(text@) matches Some(v) ==> call_requires(is_finite, (v,))
    ensures match r { Some(v) => F::pval(text@) == Some(v) && call_ensures(is_finite, (v,), true), None => F::pval(text@) matches Some(v) ==> call_ensures(is_finite, (v,), false) }
//@@ closure 0 ret=bool
    requires call_requires(is_finite, (*value,))
    ensures call_ensures(is_finite, (*value,), vx_r)
//@@ end
/// What a bare scalar in an argument list denotes.
spec fn scalar_is(t: Tree, v: ExtensionValue) -> bool {
    if t.rule == Rule::string_literal { v matches ExtensionValue::String(s) && s@ == unesc(t.text, '\'', 1) }
    else if t.rule == Rule::integer { v matches ExtensionValue::Integer(i) && i64::pval(t.text) == Some(i) }
    else if t.rule == Rule::float { v matches ExtensionValue::Float(f) && f64_of(t.text) == Some(f) && finite64(f) }
    else if t.rule == Rule::boolean { v == ExtensionValue::Boolean(t.text == "true"@) }
    else { v is Null }
}
spec fn scalar_bad(t: Tree) -> bool { t.rule == Rule::float && (f64_of(t.text) is None || !finite64(f64_of(t.text)->0)) }
/// What an argument denotes: the kind follows from how it is written, and nothing is left out.
spec fn val_is(x: &SimpleExtensions, t: Tree, v: ExtensionValue) -> bool
    decreases t
{
    let k = t.kids[0];
    t.kids.len() == 1 &&
    if k.rule == Rule::enum_value { v matches ExtensionValue::Enum(s) && s@ == k.text.skip(1) }
    else if k.rule == Rule::reference { v matches ExtensionValue::Expr(e) && is_field(*e.0, field_of(k) as i32) }
    else if k.rule == Rule::parameter_literal { scalar_is(k.kids[0], v) }
    else if k.rule == Rule::tuple { v matches ExtensionValue::Tuple(l) && vals_are(x, k, l.0@) }
    else { v matches ExtensionValue::Expr(e) && expr_reads(x, k, *e.0) }
}
spec fn vals_are(x: &SimpleExtensions, t: Tree, l: Seq<ExtensionValue>) -> bool
    decreases t
{ l.len() == t.kids.len() && forall|i: int| 0 <= i < t.kids.len() ==> val_is(x, #[trigger] t.kids[i], l[i]) }
spec fn val_fails(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{
    let k = t.kids[0];
    t.kids.len() == 1 &&
    if k.rule == Rule::parameter_literal { scalar_bad(k.kids[0]) }
    else if k.rule == Rule::tuple { vals_fail(x, k) }
    else { k.rule == Rule::expression && expr_fails(x, k) }
}
spec fn vals_fail(x: &SimpleExtensions, t: Tree) -> bool
    decreases t
{ exists|i: int| 0 <= i < t.kids.len() && val_fails(x, #[trigger] t.kids[i]) }
//@@ trust collecting results into a tuple keeps the order and stops at the first error (FromIterator for TupleValue wraps the vector)
impl VxCollect<Result<ExtensionValue, MessageParseError>> for Result<TupleValue, MessageParseError> {
    closed spec fn collected(s: Seq<Result<ExtensionValue, MessageParseError>>, r: Result<TupleValue, MessageParseError>) -> bool {
        match r { Ok(v) => v.0@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v.0@[i]] 0 <= i < s.len() ==> s[i] == Ok::<ExtensionValue, MessageParseError>(v.0@[i]), Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<ExtensionValue, MessageParseError>(e) }
    }
}
/// An enum argument is its name without the '&'.
proof fn lemma_enum(s: Seq<char>)
    requires lex_enum_value(s)
    ensures trim_front(s, '&') == s.skip(1)
{ reveal_with_fuel(trim_front, 3); assert(s.skip(1)[0] == s[1]); assert(alpha(s.skip(1)[0])); }
impl ScopedParsePair for ExtensionValue {
    spec fn at() -> Rule { Rule::extension_argument }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: ExtensionValue) -> bool { val_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { val_fails(x, t) }
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionValue>::rule
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionValue>::message
//@@ end
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
impl ExtensionValue {
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionValue>::parse_pair as=vx_parse_pair ret=r lib=trim_start_matches,parse,@from>cfrom
    requires ok(pair@), pair@.rule == Rule::extension_argument
    ensures match r { Ok(v) => val_is(extensions, pair@, v) && !val_fails(extensions, pair@), Err(_) => val_fails(extensions, pair@) }
//@@ at start
    proof { let t = pair@; let k = t.kids[0]; g_extension_argument(t);
        if k.rule == Rule::enum_value { g_enum_value(k); lemma_enum(k.text); }
        if k.rule == Rule::parameter_literal { g_parameter_literal(k); if k.kids[0].rule == Rule::boolean { g_boolean(k.kids[0]); } if k.kids[0].rule == Rule::string_literal { g_string_literal(k.kids[0]); } }
        if k.rule == Rule::tuple { g_tuple(k); } }
    broadcast use lemma_ok_kid, axiom_pairs;
//@@ closure 1 ret=Result<ExtensionValue,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::extension_argument
    ensures match vx_r { Ok(v) => val_is(extensions, pair@, v) && !val_fails(extensions, pair@), Err(_) => val_fails(extensions, pair@) }
//@@ end
}
/// A column: named with its type, or an expression over the input.
spec fn col_is(x: &SimpleExtensions, t: Tree, c: ExtensionColumn) -> bool {
    let k = t.kids[0];
    if k.rule == Rule::named_column { c matches ExtensionColumn::Named { name, vtype } && name@ == name_of(k.kids[0]) && type_reads(x, k.kids[1], vtype) }
    else if k.rule == Rule::reference { c matches ExtensionColumn::Expr(e) && is_field(*e.0, field_of(k) as i32) }
    else { c matches ExtensionColumn::Expr(e) && expr_reads(x, k, *e.0) }
}
spec fn col_fails(x: &SimpleExtensions, t: Tree) -> bool { let k = t.kids[0]; (k.rule == Rule::named_column && type_fails(x, k.kids[1])) || (k.rule == Rule::expression && expr_fails(x, k)) }
impl ScopedParsePair for ExtensionColumn {
    spec fn at() -> Rule { Rule::extension_column }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: ExtensionColumn) -> bool { col_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { col_fails(x, t) }
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionColumn>::rule
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionColumn>::message
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionColumn>::parse_pair lib=into>cinto,to_string
//@@ sub r#type: ty => vtype: ty
//@@ at start
    proof { let t = pair@; let k = t.kids[0]; g_extension_column(t); if k.rule == Rule::named_column { g_named_column(k); } }
    broadcast use lemma_ok_kid, axiom_pairs;
//@@ end
}
// ---- argument lists
spec fn named_is(x: &SimpleExtensions, t: Tree, p: (String, ExtensionValue)) -> bool { p.0@ == name_of(t.kids[0]) && val_is(x, t.kids[1], p.1) }
spec fn named_are(x: &SimpleExtensions, k: Seq<Tree>, n: Seq<(String, ExtensionValue)>) -> bool { n.len() == k.len() && forall|i: int| 0 <= i < n.len() ==> named_is(x, k[i], #[trigger] n[i]) }
/// The positional and the named arguments written, as lists of trees.
spec fn pos_of(t: Tree) -> Seq<Tree> { if t.kids.len() > 0 && t.kids[0].rule == Rule::extension_arguments { t.kids[0].kids } else { seq![] } }
spec fn named_of(t: Tree) -> Seq<Tree> { if t.kids.len() > 0 && t.kids[0].rule == Rule::extension_named_arguments { t.kids[0].kids } else if t.kids.len() == 2 { t.kids[1].kids } else { seq![] } }
spec fn list_is(x: &SimpleExtensions, t: Tree, a: ExtensionArgs) -> bool {
    a.positional@.len() == pos_of(t).len() && (forall|i: int| 0 <= i < a.positional@.len() ==> val_is(x, pos_of(t)[i], #[trigger] a.positional@[i])) && named_are(x, named_of(t), a.named@)
}
spec fn same_name(k: Seq<Tree>, i: int, j: int) -> bool { name_of(k[i].kids[0]) == name_of(k[j].kids[0]) }
spec fn pair_fails(x: &SimpleExtensions, t: Tree) -> bool { val_fails(x, t.kids[1]) }
/// Rejected: an argument that is rejected, or a name given twice.
spec fn list_fails(x: &SimpleExtensions, t: Tree) -> bool {
    (exists|i: int| 0 <= i < pos_of(t).len() && val_fails(x, #[trigger] pos_of(t)[i])) || (exists|i: int| 0 <= i < named_of(t).len() && pair_fails(x, #[trigger] named_of(t)[i]))
    || exists|i: int, j: int| 0 <= i < j < named_of(t).len() && #[trigger] same_name(named_of(t), i, j)
}
//@@ fn src/parser/extensions.rs extension_args_rule_parsing ret=r lib=to_string
    requires ok(inner_pair@), inner_pair@.rule == Rule::extension_args, old(args).positional@.len() == 0, old(args).named@.len() == 0
    ensures match r { Ok(_) => list_is(extensions, inner_pair@, *final(args)) && final(args).output_columns == old(args).output_columns && !list_fails(extensions, inner_pair@), Err(_) => list_fails(extensions, inner_pair@) }
//@@ at start
    proof { g_extension_args(inner_pair@); }
    let ghost t = inner_pair@; let ghost x = extensions;
    broadcast use lemma_ok_kid, axiom_pairs, axiom_index_map;
//@@ loop 0 seq
    invariant t == inner_pair@, x == extensions, ok(t), rule_extension_args(t), __s0.len() == t.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t.kids[i],
        args.output_columns == old(args).output_columns,
        __n0 == 0 ==> args.positional@.len() == 0 && args.named@.len() == 0,
        __n0 > 0 ==> args.positional@.len() == pos_of(t).len() && (forall|i: int| 0 <= i < args.positional@.len() ==> val_is(x, pos_of(t)[i], #[trigger] args.positional@[i])) && (forall|i: int| 0 <= i < pos_of(t).len() ==> !val_fails(x, #[trigger] pos_of(t)[i])),
        __n0 < t.kids.len() ==> args.named@.len() == 0,
        __n0 == t.kids.len() ==> list_is(x, t, *args) && !list_fails(x, t),
//@@ at loop 0 start
    broadcast use lemma_ok_kid, axiom_pairs;
    proof { if arg@.rule == Rule::extension_arguments { g_extension_arguments(arg@); } if arg@.rule == Rule::extension_named_arguments { g_extension_named_arguments(arg@); } }
//@@ loop 1 seq
    invariant t == inner_pair@, x == extensions, ok(t), t.kids.len() > 0, arg@ == t.kids[0], arg@.rule == Rule::extension_arguments, ok(arg@), rule_extension_args(t), rule_extension_arguments(arg@), pos_of(t) == arg@.kids, __s1.len() == arg@.kids.len(), forall|i: int| 0 <= i < __s1.len() ==> (#[trigger] __s1[i])@ == arg@.kids[i],
        args.output_columns == old(args).output_columns, args.named@.len() == 0,
        args.positional@.len() == __n1, forall|i: int| 0 <= i < __n1 ==> val_is(x, pos_of(t)[i], #[trigger] args.positional@[i]), forall|i: int| 0 <= i < __n1 ==> !val_fails(x, #[trigger] pos_of(t)[i]),
//@@ loop 2 seq
    invariant t == inner_pair@, x == extensions, ok(t), t.kids.len() > 0, arg@ == t.kids[t.kids.len() - 1], arg@.rule == Rule::extension_named_arguments, ok(arg@), rule_extension_args(t), rule_extension_named_arguments(arg@), named_of(t) == arg@.kids, __s2.len() == arg@.kids.len(), forall|i: int| 0 <= i < __s2.len() ==> (#[trigger] __s2[i])@ == arg@.kids[i],
        args.output_columns == old(args).output_columns,
        args.positional@.len() == pos_of(t).len() && (forall|i: int| 0 <= i < args.positional@.len() ==> val_is(x, pos_of(t)[i], #[trigger] args.positional@[i])) && (forall|i: int| 0 <= i < pos_of(t).len() ==> !val_fails(x, #[trigger] pos_of(t)[i])),
        args.named@.len() == __n2, forall|i: int| 0 <= i < __n2 ==> named_is(x, named_of(t)[i], #[trigger] args.named@[i]), forall|i: int| 0 <= i < __n2 ==> !pair_fails(x, #[trigger] named_of(t)[i]),
//@@ at loop 2 start
    broadcast use lemma_ok_kid, axiom_pairs;
    proof { g_extension_named_argument(arg_pair@); assert(ok(arg_pair@)); }
    let ghost nt = arg_pair@; let ghost before = args.named@;
    proof { assert(nt == named_of(t)[__n2 - 1]); }
//@@ at before 0 insert
    proof { assert(key@ == name_of(nt.kids[0])); assert(named_is(x, nt, (key, val)));
        if has_key(before, key@) { let i = choose|i: int| at_key(before, key@, i); assert(named_is(x, named_of(t)[i], before[i])); assert(same_name(named_of(t), i, __n2 - 1)); } }
//@@ at loop 2 end
    proof { broadcast use axiom_index_map; let n = args.named@; assert(n[__n2 - 1].0@ == name_of(nt.kids[0]));
        assert(named_is(x, nt, n[__n2 - 1])); assert forall|i: int| 0 <= i < __n2 implies named_is(x, named_of(t)[i], #[trigger] n[i]) by { if i < __n2 - 1 { assert(n[i] == before[i]); } } }
//@@ at loop 0 end
    proof { broadcast use axiom_index_map; if __n0 == t.kids.len() { assert forall|i: int, j: int| 0 <= i < j < named_of(t).len() implies !#[trigger] same_name(named_of(t), i, j) by { assert(named_is(x, named_of(t)[i], args.named@[i])); assert(named_is(x, named_of(t)[j], args.named@[j])); } } }
//@@ end
// ---- extension relations and addenda
//@@ item src/extensions/any.rs Any
impl From<Any> for pbjson_types::Any {
    closed spec fn from_rel(v: Any, r: pbjson_types::Any) -> bool { r.type_url == v.type_url && r.value@ == v.value@ }
//@@ fn src/extensions/any.rs <From<Any> for pbjson_types::Any>::from as=cfrom
//@@ sub? any.value.into() => any.value
//@@ end
}
//@@ fn src/parser/relations.rs direct_common ret=r
    ensures r.hint is None && r.advanced_extension is None, r.emit_kind is Some && r.emit_kind->0 is Direct
//@@ end
//@@ item src/parser/extensions.rs ExtensionRelationKind derive=Clone,Copy,PartialEq,Eq,Structural
/// The kinds by the prefix they are written with.
spec fn prefix_of(k: ExtensionRelationKind) -> Seq<char> { match k { ExtensionRelationKind::Leaf => "ExtensionLeaf"@, ExtensionRelationKind::Single => "ExtensionSingle"@, ExtensionRelationKind::Multi => "ExtensionMulti"@ } }
spec fn inputs_allowed(k: ExtensionRelationKind, n: int) -> bool { match k { ExtensionRelationKind::Leaf => n == 0, ExtensionRelationKind::Single => n == 1, ExtensionRelationKind::Multi => true } }
/// The detail is stored as it was encoded.
spec fn detail_is(d: Option<Any>, r: Option<pbjson_types::Any>) -> bool { match (d, r) { (Some(a), Some(b)) => b.type_url == a.type_url && b.value@ == a.value@, (None, None) => true, _ => false } }
spec fn direct(c: Option<RelCommon>) -> bool { c is Some && c->0.hint is None && c->0.advanced_extension is None && c->0.emit_kind is Some && c->0.emit_kind->0 is Direct }
/// The relation an extension line denotes, with exactly the inputs below it.
spec fn ext_rel_is(k: ExtensionRelationKind, d: Option<Any>, c: Seq<Rel>, r: Rel) -> bool {
    r.rel_type is Some && match k {
        ExtensionRelationKind::Leaf => r.rel_type->0 matches RelType::ExtensionLeaf(l) && direct(l.common) && detail_is(d, l.detail),
        ExtensionRelationKind::Single => r.rel_type->0 matches RelType::ExtensionSingle(l) && direct(l.common) && detail_is(d, l.detail) && (if c.len() == 0 { l.input is None } else { l.input is Some && *l.input->0 == c[0] }),
        ExtensionRelationKind::Multi => r.rel_type->0 matches RelType::ExtensionMulti(l) && direct(l.common) && detail_is(d, l.detail) && l.inputs@ == c,
    }
}
trait FromStr: Sized { type Err; spec fn str_rel(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::str_rel(s@, r); }
impl FromStr for ExtensionRelationKind {
    type Err = String;
    spec fn str_rel(s: Seq<char>, r: Result<ExtensionRelationKind, String>) -> bool { match r { Ok(k) => s == prefix_of(k), Err(_) => forall|k: ExtensionRelationKind| s != #[trigger] prefix_of(k) } }
//@@ fn src/parser/extensions.rs <FromStr for ExtensionRelationKind>::from_str
//@@ at start
    proof { reveal_strlit("ExtensionLeaf"); reveal_strlit("ExtensionSingle"); reveal_strlit("ExtensionMulti"); }
//@@ end
}
impl ExtensionRelationKind {
//@@ fn src/parser/extensions.rs ExtensionRelationKind::validate_child_count ret=r
    ensures r is Ok <==> inputs_allowed(self, child_count as int)
//@@ end
//@@ fn src/parser/extensions.rs ExtensionRelationKind::create_rel ret=r lib=into_iter
//@@ sub detail.map(Into::into) => detail.map(|vx_a: Any| -> (vx_r: pbjson_types::Any) ensures <pbjson_types::Any as From<Any>>::from_rel(vx_a, vx_r) { vx_a.cinto() })
//@@ sub input.map(Box::new) => input.map(|vx_b: Rel| -> (vx_r: Box<Rel>) ensures *vx_r == vx_b { Box::new(vx_b) })
    ensures ext_rel_is(self, detail, children@, r)
//@@ end
}
//@@ item src/parser/extensions.rs ExtensionInvocation
spec fn cols_are(x: &SimpleExtensions, k: Seq<Tree>, l: Seq<ExtensionColumn>) -> bool { l.len() == k.len() && forall|i: int| 0 <= i < l.len() ==> col_is(x, k[i], #[trigger] l[i]) }
spec fn columns_of(t: Tree) -> Seq<Tree> { if t.kids.len() == 3 { t.kids[2].kids } else { seq![] } }
impl ScopedParsePair for ExtensionInvocation {
    spec fn at() -> Rule { Rule::extension_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: ExtensionInvocation) -> bool {
        t.kids[0].kids[0].text == prefix_of(r.relation_kind) && r.name@ == name_of(t.kids[0].kids[1]) && list_is(x, t.kids[1], r.args) && cols_are(x, columns_of(t), r.args.output_columns@)
    }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { list_fails(x, t.kids[1]) || exists|i: int| 0 <= i < columns_of(t).len() && col_fails(x, #[trigger] columns_of(t)[i]) }
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionInvocation>::rule
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionInvocation>::message
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for ExtensionInvocation>::parse_pair
//@@ at start
    let ghost t = pair@; let ghost x = extensions;
    proof { g_extension_relation(t); g_extension_name(t.kids[0]); g_extension_type(t.kids[0].kids[0]); if t.kids.len() == 3 { g_extension_columns(t.kids[2]); }
        assert(prefix_of(ExtensionRelationKind::Leaf) == "ExtensionLeaf"@); assert(prefix_of(ExtensionRelationKind::Single) == "ExtensionSingle"@); assert(prefix_of(ExtensionRelationKind::Multi) == "ExtensionMulti"@); }
    broadcast use lemma_ok_kid, axiom_pairs;
//@@ loop 0 seq
    invariant t.kids.len() == 3, ok(t), t.kids[2].rule == Rule::extension_columns, rule_extension_columns(t.kids[2]), ok(t.kids[2]), x == extensions, columns_of(t) == t.kids[2].kids, __s0.len() == columns_of(t).len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == columns_of(t)[i],
        list_is(x, t.kids[1], args), !list_fails(x, t.kids[1]), t == pair@,
        args.output_columns@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> col_is(x, columns_of(t)[i], #[trigger] args.output_columns@[i]), forall|i: int| 0 <= i < __n0 ==> !col_fails(x, #[trigger] columns_of(t)[i]),
//@@ at loop 0 start
    broadcast use lemma_ok_kid, axiom_pairs;
    proof { assert(col_pair@ == columns_of(t)[__n0 - 1]); assert(columns_of(t)[__n0 - 1].rule == Rule::extension_column); assert(ok(t.kids[2].kids[__n0 - 1])); }
//@@ end
}
//@@ item src/parser/extensions.rs AddendumInvocation
spec fn addendum_prefix(k: AddendumKind) -> Seq<char> { match k { AddendumKind::Enhancement => "Enh"@, AddendumKind::Optimization => "Opt"@, AddendumKind::ExtensionTable => "Ext"@ } }
impl ScopedParsePair for AddendumInvocation {
    spec fn at() -> Rule { Rule::addendum }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: AddendumInvocation) -> bool {
        t.kids[0].text == addendum_prefix(r.kind) && r.name@ == name_of(t.kids[1]) && list_is(x, t.kids[2], r.args) && r.args.output_columns@.len() == 0
    }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { list_fails(x, t.kids[2]) }
//@@ fn src/parser/extensions.rs <ScopedParsePair for AddendumInvocation>::rule
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for AddendumInvocation>::message
//@@ end
//@@ fn src/parser/extensions.rs <ScopedParsePair for AddendumInvocation>::parse_pair lib=to_string
//@@ at start
    proof { g_addendum(pair@); g_addendum_type(pair@.kids[0]); reveal_strlit("Enh"); reveal_strlit("Opt"); reveal_strlit("Ext"); }
    broadcast use lemma_ok_kid;
//@@ end
}
// ---- the extensions section
//@@ trust the parse tree of one declaration line has fewer than 2^30 nodes
axiom fn axiom_small(rule: Rule, s: Seq<char>) ensures pest_tree(rule, s) is Some ==> small(pest_tree(rule, s)->0);
/// The whole of s is a construct of this rule, and its integers fit.
spec fn readable(rule: Rule, s: Seq<char>) -> bool { pest_tree(rule, s) is Some && pest_tree(rule, s)->0.text == s && ints_ok(pest_tree(rule, s)->0) }
//@@ fn src/parser/common.rs check_complete ret=r lib=len,is_empty
    requires exists|k: int| 0 <= k <= input@.len() && pair.to() == #[trigger] byte_off(input@, k)
    ensures r is Ok <==> pair.to() == byte_off(input@, input@.len() as int)
//@@ at start
    proof { let k = choose|k: int| 0 <= k <= input@.len() && pair.to() == #[trigger] byte_off(input@, k); lemma_boundary(input@, k); lemma_boundary(input@, input@.len() as int); lemma_byte_off(input@, k, input@.len() as int); }
//@@ end
/// A tree that ends where the text ends is the whole text.
proof fn lemma_whole(s: Seq<char>, t: Seq<char>, to: int)
    requires exists|k: int| 0 <= k <= s.len() && t == s.take(k) && to == #[trigger] byte_off(s, k)
    ensures to == byte_off(s, s.len() as int) <==> t == s
{ let k = choose|k: int| 0 <= k <= s.len() && t == s.take(k) && to == #[trigger] byte_off(s, k); lemma_byte_off(s, k, s.len() as int); if k == s.len() { assert(s.take(k) =~= s); } else { assert(s.take(k).len() != s.len()); } }
trait VxParseStr: ParsePair {
//@@ fn src/parser/common.rs traitParsePair::parse_str ret=r
    ensures match r { Ok(v) => readable(Self::at(), s@) && Self::reads(pest_tree(Self::at(), s@)->0, v), Err(_) => !readable(Self::at(), s@) }
//@@ at before 0 check_complete
    proof { axiom_small(Self::at(), s@); lemma_whole(s@, pair@.text, pair.to()); }
//@@ end
}
impl<T: ParsePair> VxParseStr for T {}
//@@ item src/parser/extensions.rs URNExtensionDeclaration
//@@ item src/parser/extensions.rs SimpleExtensionDeclaration
impl ParsePair for URNExtensionDeclaration {
    spec fn at() -> Rule { Rule::extension_urn_declaration }
    spec fn reads(t: Tree, r: URNExtensionDeclaration) -> bool { u32::pval(t.kids[0].kids[0].text) == Some(r.anchor) && r.urn@ == t.kids[1].text }
//@@ fn src/parser/extensions.rs <ParsePair for URNExtensionDeclaration>::rule
//@@ end
//@@ fn src/parser/extensions.rs <ParsePair for URNExtensionDeclaration>::message
//@@ end
//@@ fn src/parser/extensions.rs <ParsePair for URNExtensionDeclaration>::parse_pair lib=parse,to_string
//@@ at start
    proof { g_extension_urn_declaration(pair@); g_urn_anchor(pair@.kids[0]); }
    broadcast use lemma_ok_kid;
//@@ end
}
spec fn urn_line(s: Seq<char>, r: Result<URNExtensionDeclaration, MessageParseError>) -> bool {
    let k = Rule::extension_urn_declaration; match r { Ok(v) => readable(k, s) && URNExtensionDeclaration::reads(pest_tree(k, s)->0, v), Err(_) => !readable(k, s) }
}
impl FromStr for URNExtensionDeclaration {
    type Err = MessageParseError;
    spec fn str_rel(s: Seq<char>, r: Result<URNExtensionDeclaration, MessageParseError>) -> bool { urn_line(s, r) }
//@@ fn src/parser/extensions.rs <FromStr for URNExtensionDeclaration>::from_str
//@@ end
}
/// The three parts of a declaration line, and the names not allowed for a kind.
spec fn d_anchor(t: Tree) -> Option<u32> { u32::pval(t.kids[0].kids[0].text) }
spec fn d_urn(t: Tree) -> Option<u32> { u32::pval(t.kids[1].kids[0].text) }
spec fn d_name(t: Tree) -> Seq<char> { t.kids[2].text }
spec fn name_rejected(k: ExtensionKind, n: Seq<char>) -> bool { (k != ExtensionKind::Type && starts(n, "u!"@)) || (k != ExtensionKind::Function && includes(n, seq![':'])) }
spec fn decl_line(k: ExtensionKind, s: Seq<char>, r: Result<SimpleExtensionDeclaration, MessageParseError>) -> bool {
    let t = pest_tree(Rule::simple_extension, s)->0; let good = readable(Rule::simple_extension, s) && !name_rejected(k, d_name(t));
    match r { Ok(v) => good && d_anchor(t) == Some(v.anchor) && d_urn(t) == Some(v.urn_anchor) && v.name@ == d_name(t), Err(_) => !good }
}
impl SimpleExtensionDeclaration {
//@@ fn src/parser/extensions.rs SimpleExtensionDeclaration::parse_from_kind ret=r lib=parse,starts_with,contains,to_string
    ensures decl_line(kind, s@, r)
//@@ at before 0 check_complete
    proof { let t = pair@; axiom_small(Rule::simple_extension, s@); lemma_whole(s@, t.text, pair.to()); g_simple_extension(t); g_anchor(t.kids[0]); g_urn_anchor(t.kids[1]); }
//@@ at after 0 check_integers
    proof { assert(ok(pair@)); }
    broadcast use lemma_ok_kid;
//@@ end
}
//@@ item src/parser/structural.rs IndentedLine
//@@ item src/parser/extensions.rs ExpectedExtensionLine derive=Clone,Copy,PartialEq,Eq
//@@ item src/parser/extensions.rs ExtensionParseError sub=super::MessageParseError=>MessageParseError
//@@ trust thiserror's #[from] wraps the error in its variant
impl core::convert::From<InsertError> for ExtensionParseError { #[verifier::external_body] fn from(e: InsertError) -> ExtensionParseError { ExtensionParseError::ExtensionError(e) } }
impl core::convert::From<MessageParseError> for ExtensionParseError { #[verifier::external_body] fn from(e: MessageParseError) -> ExtensionParseError { ExtensionParseError::Message(e) } }
//@@ item src/parser/extensions.rs ExtensionParser
pub mod simple { use vstd::prelude::*;
//@@ item src/extensions/simple.rs EXTENSION_URNS_HEADER pub
//@@ item src/extensions/simple.rs EXTENSION_FUNCTIONS_HEADER pub
//@@ item src/extensions/simple.rs EXTENSION_TYPES_HEADER pub
//@@ item src/extensions/simple.rs EXTENSION_TYPE_VARIATIONS_HEADER pub
}
/// The subsection a header line opens.
spec fn section_of(s: Seq<char>) -> Option<ExpectedExtensionLine> {
    if s == "URNs:"@ { Some(ExpectedExtensionLine::ExtensionUrns) } else if s == "Functions:"@ { Some(ExpectedExtensionLine::ExtensionDeclarations(ExtensionKind::Function)) }
    else if s == "Types:"@ { Some(ExpectedExtensionLine::ExtensionDeclarations(ExtensionKind::Type)) } else if s == "Type Variations:"@ { Some(ExpectedExtensionLine::ExtensionDeclarations(ExtensionKind::TypeVariation)) } else { None }
}
spec fn same_table(a: &SimpleExtensions, b: &SimpleExtensions) -> bool { a.urns@ == b.urns@ && a.extensions@ == b.extensions@ }
spec fn header_step(a: ExtensionParser, depth: int, s: Seq<char>, b: ExtensionParser, ok: bool) -> bool {
    same_table(&a.extensions, &b.extensions) && (ok <==> depth == 0 && section_of(s) is Some) && b.state == (if ok { section_of(s)->0 } else { a.state })
}
/// A URN line: accepted exactly when it is one complete declaration of an anchor not used before; it is recorded as written.
spec fn urn_step(a: &SimpleExtensions, s: Seq<char>, b: &SimpleExtensions, ok: bool) -> bool {
    let k = Rule::extension_urn_declaration; let t = pest_tree(k, s)->0; let n = u32::pval(t.kids[0].kids[0].text)->0;
    (ok <==> readable(k, s) && !a.has_urn(n)) && b.extensions@ == a.extensions@
    && (ok ==> exists|u: String| u@ == t.kids[1].text && b.urns@ == #[trigger] a.urns@.insert(n, u)) && (!ok ==> b.urns@ == a.urns@)
}
/// A declaration line: accepted exactly when it is one complete declaration, of an allowed name, an anchor not used before for the kind, and a declared URN.
spec fn decl_step(k: ExtensionKind, a: &SimpleExtensions, s: Seq<char>, b: &SimpleExtensions, ok: bool) -> bool {
    let t = pest_tree(Rule::simple_extension, s)->0; let n = d_anchor(t)->0; let u = d_urn(t)->0;
    (ok <==> readable(Rule::simple_extension, s) && !name_rejected(k, d_name(t)) && !a.has_ext(k, n) && a.has_urn(u)) && b.urns@ == a.urns@
    && (ok ==> exists|c: CompoundName| c.name@ == stored_name(k, d_name(t)) && b.extensions@ == #[trigger] a.extensions@.insert((n, k), (u, c)))
}
/// What one line of the extensions section does.
spec fn line_step(a: ExtensionParser, depth: int, s: Seq<char>, b: ExtensionParser, ok: bool) -> bool {
    if s.len() == 0 { ok && b.state is Extensions && same_table(&a.extensions, &b.extensions) }
    else if depth == 0 { header_step(a, depth, s, b, ok) }
    else if depth == 1 && a.state is ExtensionUrns { b.state == a.state && urn_step(&a.extensions, s, &b.extensions, ok) }
    else if depth == 1 && a.state is ExtensionDeclarations { b.state == a.state && decl_step(a.state->ExtensionDeclarations_0, &a.extensions, s, &b.extensions, ok) }
    else { !ok && same_table(&a.extensions, &b.extensions) }
}
impl ExtensionParser {
//@@ fn src/parser/extensions.rs <Default for ExtensionParser>::default ret=r
    ensures r.state is Extensions, r.extensions.urns@ == Map::<u32, String>::empty(), r.extensions.extensions@ == Map::<(u32, ExtensionKind), (u32, CompoundName)>::empty()
//@@ end
//@@ fn src/parser/extensions.rs ExtensionParser::parse_subsection ret=r
    ensures header_step(*old(self), line.0 as int, line.1@, *final(self), r is Ok)
//@@ at start
    proof { reveal_strlit("URNs:"); reveal_strlit("Functions:"); reveal_strlit("Types:"); reveal_strlit("Type Variations:"); }
//@@ end
//@@ fn src/parser/extensions.rs ExtensionParser::parse_extension_urns ret=r
//@@ sub? .map_err(ExtensionParseError::Message) => .map_err(|vx_e: MessageParseError| -> (vx_r: ExtensionParseError) { ExtensionParseError::Message(vx_e) })
    ensures
        line.0 == 0 ==> header_step(*old(self), 0, line.1@, *final(self), r is Ok),
        line.0 == 1 ==> final(self).state == old(self).state && urn_step(&old(self).extensions, line.1@, &final(self).extensions, r is Ok),
        line.0 > 1 ==> r is Err && same_table(&old(self).extensions, &final(self).extensions),
//@@ end
//@@ fn src/parser/extensions.rs ExtensionParser::parse_declarations ret=r
    ensures
        line.0 == 0 ==> header_step(*old(self), 0, line.1@, *final(self), r is Ok),
        line.0 == 1 ==> final(self).state == old(self).state && decl_step(extension_kind, &old(self).extensions, line.1@, &final(self).extensions, r is Ok),
        line.0 > 1 ==> r is Err && same_table(&old(self).extensions, &final(self).extensions),
//@@ end
//@@ fn src/parser/extensions.rs ExtensionParser::parse_line ret=r lib=is_empty
    ensures line_step(*old(self), line.0 as int, line.1@, *final(self), r is Ok)
//@@ end
//@@ fn src/parser/extensions.rs ExtensionParser::extensions ret=r
    ensures *r == self.extensions
//@@ end
}
} // verus!
