//@@ include printsep.vx
verus! {
use proto::{Expression, FunctionArgument, FunctionOption, AggregateFunction};
use proto::function_argument::ArgType;
use proto::expression::{Cast, FieldReference, IfThen, ReferenceSegment, RexType, ScalarFunction, cast, reference_segment};
use proto::expression::field_reference::{ReferenceType, RootType, RootReference};
use proto::expression::if_then::IfClause;
// ---- printing of expressions
//@@ trust a value behind `&dyn Display` is written as the value is
#[verifier::external_body]
pub struct VxDyn { _p: () }
impl VxDyn { pub uninterp spec fn d(&self) -> Seq<char>; }
impl VxDisplay for VxDyn { open spec fn disp(&self) -> Seq<char> { self.d() } }
#[verifier::external_body]
pub fn vx_dyn<T: VxDisplay>(x: &T) -> (r: VxDyn) requires !x.dbad() ensures r.d() == x.disp() { unimplemented!() }
//@@ fn src/textify/expressions.rs textify_enum ret=r
    ensures r is Ok ==> final(w).text() == old(w).text() + enum_shown(s@)
//@@ at start
    proof { cat2(old(w).text(), "&"@, name_text(s@)); }
//@@ end
spec fn enum_shown(s: Seq<char>) -> Seq<char> { "&"@ + name_text(s) }
//@@ item src/textify/expressions.rs Reference
spec fn dollar(n: int) -> Seq<char> { "$"@ + dec(n) }
impl VxDisplay for Reference { closed spec fn disp(&self) -> Seq<char> { dollar(self.0 as int) } }
impl Reference {
//@@ fn src/textify/expressions.rs <fmt::Display for Reference>::fmt as=vx_fmt ret=r
    ensures r is Ok ==> final(f).text() == old(f).text() + self.disp()
//@@ at start
    proof { cat2(old(f).text(), "$"@, dec(self.0 as int)); }
//@@ end
}
impl Textify for Reference {
    spec fn bad(&self, c: Cx) -> bool { false }
    spec fn shown(&self, c: Cx) -> Seq<char> { dollar(self.0 as int) }
//@@ use tx
}
impl Reference {
//@@ fn src/textify/expressions.rs <Textify for Reference>::textify as=vx_textify ret=r
//@@ use txu
//@@ end
}
/// The field a reference is for, if it is one into the input row.
spec fn field_of(f: FieldReference) -> Option<int> {
    match (f.root_type, f.reference_type) {
        (Some(RootType::RootReference(_)), Some(ReferenceType::DirectReference(s))) => match s.reference_type { Some(reference_segment::ReferenceType::StructField(x)) => if x.child is None { Some(x.field as int) } else { None }, _ => None },
        _ => None,
    }
}
spec fn fref_shown(f: FieldReference) -> Seq<char> { match field_of(f) { Some(n) => dollar(n), None => seq![] } }
impl Expression {
//@@ fn src/textify/expressions.rs <From<Reference> for Expression>::from as=vx_expression_from ret=res
    ensures res.rex_type is Some, res.rex_type->0 is Selection, field_of(*res.rex_type->0->Selection_0) == Some(r.0 as int)
//@@ end
}
impl Textify for FieldReference {
    spec fn bad(&self, c: Cx) -> bool { field_of(*self) is None }
    spec fn shown(&self, c: Cx) -> Seq<char> { fref_shown(*self) }
//@@ use tx
}
impl FieldReference {
//@@ fn src/textify/expressions.rs <Textify for FieldReference>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
// ---- what an expression is written as
spec fn pref_list(s: Seq<String>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > s.len() { seq![] } else { pref_list(s, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + s[n - 1]@ } }
spec fn option_shown(o: FunctionOption) -> Seq<char> { o.name@ + "⇒["@ + pref_list(o.preference@, o.preference@.len() as int) + "]"@ }
/// `name(args, options)`.
spec fn call_shown(c: Cx, f: u32, args: Seq<char>, n: nat, options: Seq<FunctionOption>) -> Seq<char> {
    ext_txt(c, ExtensionKind::Function, f) + "("@ + args + (if n == 0 || options.len() == 0 { seq![] } else { ", "@ }) + sep_text(c, options, ", "@, options.len() as int) + ")"@
}
spec fn out_shown(c: Cx, t: Option<proto::Type>) -> Seq<char> { match t { Some(t) => ":"@ + type_shown(c, t), None => seq![] } }
spec fn out_bad(c: Cx, t: Option<proto::Type>) -> bool { match t { Some(t) => type_bad(c, t), None => true } }
spec fn target_shown(c: Cx, t: Option<proto::Type>) -> Seq<char> { match t { Some(t) => type_shown(c, t), None => seq![] } }
spec fn expr_shown(c: Cx, e: Expression) -> Seq<char>
    decreases e
{ match e.rex_type { Some(r) => rex_shown(c, r), None => seq![] } }
spec fn expr_bad(c: Cx, e: Expression) -> bool
    decreases e
{ match e.rex_type { Some(r) => rex_bad(c, r), None => true } }
spec fn sub_shown(c: Cx, e: Option<Box<Expression>>) -> Seq<char>
    decreases e
{ match e { Some(e) => expr_shown(c, *e), None => seq![] } }
spec fn sub_bad(c: Cx, e: Option<Box<Expression>>) -> bool
    decreases e
{ match e { Some(e) => expr_bad(c, *e), None => true } }
spec fn opt_expr_shown(c: Cx, e: Option<Expression>) -> Seq<char>
    decreases e
{ match e { Some(e) => expr_shown(c, e), None => seq![] } }
spec fn opt_expr_bad(c: Cx, e: Option<Expression>) -> bool
    decreases e
{ match e { Some(e) => expr_bad(c, e), None => true } }
spec fn arg_shown(c: Cx, a: Option<ArgType>) -> Seq<char>
    decreases a
{ match a { Some(ArgType::Type(t)) => type_shown(c, t), Some(ArgType::Value(e)) => expr_shown(c, e), Some(ArgType::Enum(s)) => enum_shown(s@), None => seq![] } }
spec fn arg_bad(c: Cx, a: Option<ArgType>) -> bool
    decreases a
{ match a { Some(ArgType::Type(t)) => type_bad(c, t), Some(ArgType::Value(e)) => expr_bad(c, e), Some(ArgType::Enum(s)) => false, None => true } }
spec fn args_list(c: Cx, v: Vec<FunctionArgument>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { args_list(c, v, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + arg_shown(c, v@[n - 1].arg_type) } }
spec fn args_bad(c: Cx, v: Vec<FunctionArgument>) -> bool
    decreases v
{ exists|i: int| 0 <= i < v@.len() && arg_bad(c, #[trigger] v@[i].arg_type) }
spec fn ifs_list(c: Cx, v: Vec<IfClause>, n: int) -> Seq<char>
    decreases v, n
{ if n <= 0 || n > v@.len() { seq![] } else { ifs_list(c, v, n - 1) + (opt_expr_shown(c, v@[n - 1].r#if) + " -> "@ + opt_expr_shown(c, v@[n - 1].then) + ", "@) } }
spec fn ifs_bad(c: Cx, v: Vec<IfClause>) -> bool
    decreases v
{ exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && (opt_expr_bad(c, v@[i].r#if) || opt_expr_bad(c, v@[i].then)) }
spec fn scalar_shown(c: Cx, s: ScalarFunction) -> Seq<char>
    decreases s
{ call_shown(c, s.function_reference, args_list(c, s.arguments, s.arguments@.len() as int), s.arguments@.len(), s.options@) + out_shown(c, s.output_type) }
spec fn scalar_bad(c: Cx, s: ScalarFunction) -> bool
    decreases s
{ !c.x.has_ext(ExtensionKind::Function, s.function_reference) || args_bad(c, s.arguments) || out_bad(c, s.output_type) }
spec fn agg_shown(c: Cx, s: AggregateFunction) -> Seq<char> { call_shown(c, s.function_reference, args_list(c, s.arguments, s.arguments@.len() as int), s.arguments@.len(), s.options@) + out_shown(c, s.output_type) }
spec fn agg_bad(c: Cx, s: AggregateFunction) -> bool { !c.x.has_ext(ExtensionKind::Function, s.function_reference) || args_bad(c, s.arguments) || out_bad(c, s.output_type) }
spec fn ifthen_shown(c: Cx, i: IfThen) -> Seq<char>
    decreases i
{ "if_then("@ + ifs_list(c, i.ifs, i.ifs@.len() as int) + "_ -> "@ + sub_shown(c, i.r#else) + ")"@ }
spec fn ifthen_bad(c: Cx, i: IfThen) -> bool
    decreases i
{ ifs_bad(c, i.ifs) || sub_bad(c, i.r#else) }
spec fn behaviour(n: int) -> Option<Seq<char>> { if n == 0 { Some(""@) } else if n == 1 { Some("?"@) } else if n == 2 { Some("!"@) } else { None } }
spec fn cast_shown(c: Cx, x: Cast) -> Seq<char>
    decreases x
{ "("@ + sub_shown(c, x.input) + ")::"@ + behaviour(x.failure_behavior as int)->0 + target_shown(c, x.r#type) }
spec fn cast_bad(c: Cx, x: Cast) -> bool
    decreases x
{ sub_bad(c, x.input) || behaviour(x.failure_behavior as int) is None || out_bad(c, x.r#type) }
spec fn rex_shown(c: Cx, r: RexType) -> Seq<char>
    decreases r
{ match r { RexType::Literal(l) => literal_shown(c, l), RexType::Selection(f) => fref_shown(*f), RexType::ScalarFunction(s) => scalar_shown(c, s), RexType::IfThen(i) => ifthen_shown(c, *i), RexType::Cast(x) => cast_shown(c, *x), _ => seq![] } }
spec fn rex_bad(c: Cx, r: RexType) -> bool
    decreases r
{ match r { RexType::Literal(l) => literal_bad(c, l), RexType::Selection(f) => field_of(*f) is None, RexType::ScalarFunction(s) => scalar_bad(c, s), RexType::IfThen(i) => ifthen_bad(c, *i), RexType::Cast(x) => cast_bad(c, *x), _ => true } }
//@@ item src/textify/expressions.rs FunctionInvocation derive=Clone,Copy
impl<'a> FunctionInvocation<'a> {
//@@ fn src/textify/expressions.rs <From<&'aScalarFunction> for FunctionInvocation<'a>>::from as=vx_from_scalar ret=r
    ensures r.function_reference == f.function_reference, r.arguments@ == f.arguments@, r.options@ == f.options@
//@@ end
//@@ fn src/textify/expressions.rs <From<&'aAggregateFunction> for FunctionInvocation<'a>>::from as=vx_from_aggregate ret=r
    ensures r.function_reference == f.function_reference, r.arguments@ == f.arguments@, r.options@ == f.options@
//@@ end
}
impl Textify for FunctionOption {
    spec fn bad(&self, c: Cx) -> bool { false }
    spec fn shown(&self, c: Cx) -> Seq<char> { option_shown(*self) }
//@@ use tx
}
impl FunctionOption {
//@@ fn src/textify/expressions.rs <Textify for FunctionOption>::textify as=vx_textify ret=r lib=iter
//@@ use txu
//@@ at start
    let ghost a = old(w).text() + self.name@ + "⇒["@; let ghost p = self.preference@;
    proof { nil(a); cat4(old(w).text(), self.name@, "⇒["@, pref_list(p, p.len() as int), "]"@); }
//@@ loop 0 seq
    invariant first == (__n0 == 0), p == self.preference@, __s0.len() == p.len(), forall|i: int| #![trigger __s0[i]] #![trigger p[i]] 0 <= i < __s0.len() ==> *__s0[i] == p[i], w.text() == a + pref_list(p, __n0 as int),
//@@ at loop 0 start
    proof { cat3(a, pref_list(p, __n0 - 1), if __n0 > 1 { ", "@ } else { seq![] }, p[__n0 - 1]@); nil(a + pref_list(p, __n0 - 1)); nil(pref_list(p, __n0 - 1)); }
//@@ end
}
impl Textify for FunctionArgument {
    spec fn bad(&self, c: Cx) -> bool { arg_bad(c, self.arg_type) }
    spec fn shown(&self, c: Cx) -> Seq<char> { arg_shown(c, self.arg_type) }
//@@ use tx
}
impl FunctionArgument {
//@@ fn src/textify/expressions.rs <Textify for FunctionArgument>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
impl Textify for ArgType {
    spec fn bad(&self, c: Cx) -> bool { arg_bad(c, Some(*self)) }
    spec fn shown(&self, c: Cx) -> Seq<char> { arg_shown(c, Some(*self)) }
//@@ use tx
}
impl ArgType {
//@@ fn src/textify/expressions.rs <Textify for ArgType>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
proof fn lemma_args(c: Cx, v: Vec<FunctionArgument>, n: int)
    requires 0 <= n <= v@.len()
    ensures sep_text(c, v@, ", "@, n) == args_list(c, v, n)
    decreases n
{ if n > 0 { lemma_args(c, v, n - 1); } }
proof fn lemma_args_bad(c: Cx, v: Vec<FunctionArgument>)
    ensures sep_bad(c, v@) == args_bad(c, v)
{
    if sep_bad(c, v@) { let i = choose|i: int| 0 <= i < v@.len() && #[trigger] v@[i].bad(c); assert(arg_bad(c, v@[i].arg_type)); }
    if args_bad(c, v) { let i = choose|i: int| 0 <= i < v@.len() && arg_bad(c, #[trigger] v@[i].arg_type); assert(v@[i].bad(c)); }
}
impl<'a> Textify for FunctionInvocation<'a> {
    spec fn bad(&self, c: Cx) -> bool { !c.x.has_ext(ExtensionKind::Function, self.function_reference) || sep_bad(c, self.arguments@) }
    spec fn shown(&self, c: Cx) -> Seq<char> { call_shown(c, self.function_reference, sep_text(c, self.arguments@, ", "@, self.arguments@.len() as int), self.arguments@.len(), self.options@) }
//@@ use tx
}
impl<'a> FunctionInvocation<'a> {
//@@ fn src/textify/expressions.rs <Textify for FunctionInvocation>::textify as=vx_textify ret=r
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); let b = if self.arguments@.len() == 0 || self.options@.len() == 0 { Seq::<char>::empty() } else { ", "@ }; reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
        cat6(old(w).text(), ext_txt(c, ExtensionKind::Function, self.function_reference), "("@, sep_text(c, self.arguments@, ", "@, self.arguments@.len() as int), b, sep_text(c, self.options@, ", "@, self.options@.len() as int), ")"@); }
//@@ end
}
impl Textify for ScalarFunction {
    spec fn bad(&self, c: Cx) -> bool { scalar_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { scalar_shown(c, *self) }
//@@ use tx
}
impl ScalarFunction {
//@@ fn src/textify/expressions.rs <Textify for ScalarFunction>::textify as=vx_textify ret=r
//@@ sub FunctionInvocation::from(self) => FunctionInvocation::vx_from_scalar(self)
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); lemma_args(c, self.arguments, self.arguments@.len() as int); lemma_args_bad(c, self.arguments); cat2(old(w).text(), call_shown(c, self.function_reference, args_list(c, self.arguments, self.arguments@.len() as int), self.arguments@.len(), self.options@), out_shown(c, self.output_type)); }
//@@ end
}
impl Textify for AggregateFunction {
    spec fn bad(&self, c: Cx) -> bool { agg_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { agg_shown(c, *self) }
//@@ use tx
}
impl AggregateFunction {
//@@ fn src/textify/expressions.rs <Textify for AggregateFunction>::textify as=vx_textify ret=r
//@@ sub FunctionInvocation::from(self) => FunctionInvocation::vx_from_aggregate(self)
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); lemma_args(c, self.arguments, self.arguments@.len() as int); lemma_args_bad(c, self.arguments); cat2(old(w).text(), call_shown(c, self.function_reference, args_list(c, self.arguments, self.arguments@.len() as int), self.arguments@.len(), self.options@), out_shown(c, self.output_type)); }
//@@ end
}
impl Textify for Cast {
    spec fn bad(&self, c: Cx) -> bool { cast_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { cast_shown(c, *self) }
//@@ use tx
}
impl Cast {
//@@ fn src/textify/expressions.rs <Textify for Cast>::textify as=vx_textify ret=r lib=@try_from>vx_try_from,as_deref
//@@ sub fb: &dyn fmt::Display => fb: VxDyn
//@@ sub &"" => vx_dyn(&"")
//@@ sub &"?" => vx_dyn(&"?")
//@@ sub &"!" => vx_dyn(&"!")
//@@ sub &failure_err => vx_dyn(&failure_err)
//@@ use txc
//@@ at start
    proof { let c = ctx.cx(); cat5(old(w).text(), "("@, sub_shown(c, self.input), ")::"@, behaviour(self.failure_behavior as int)->0, target_shown(c, self.r#type)); }
//@@ end
}
impl Textify for IfThen {
    spec fn bad(&self, c: Cx) -> bool { ifthen_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { ifthen_shown(c, *self) }
//@@ use tx
}
impl IfThen {
//@@ fn src/textify/expressions.rs <Textify for IfThen>::textify as=vx_textify ret=r lib=as_deref
//@@ use txc
//@@ at start
    let ghost c = ctx.cx(); let ghost a = old(w).text() + "if_then("@; let ghost v = self.ifs;
    proof { nil(a); cat5(old(w).text(), "if_then("@, ifs_list(c, v, v@.len() as int), "_ -> "@, sub_shown(c, self.r#else), ")"@); }
//@@ loop 0 iter=it
    invariant c == ctx.cx(), v == self.ifs, it.seq().len() == v@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *it.seq()[i] == v@[i], ifs_bad(c, v) ==> c.faulty,
        (exists|i: int| #![trigger v@[i]] 0 <= i < it.index@ && (opt_expr_bad(c, v@[i].r#if) || opt_expr_bad(c, v@[i].then))) ==> c.reported,
        (forall|i: int| #![trigger v@[i]] 0 <= i < it.index@ ==> !(opt_expr_bad(c, v@[i].r#if) || opt_expr_bad(c, v@[i].then))) ==> w.text() == a + ifs_list(c, v, it.index@),
//@@ at loop 0 start
    proof { let n = it.index@; let x = v@[n]; let (s, t) = (opt_expr_shown(c, x.r#if), opt_expr_shown(c, x.then)); cat4(a + ifs_list(c, v, n), s, " -> "@, t, ", "@); cat2(a, ifs_list(c, v, n), s + " -> "@ + t + ", "@); }
//@@ end
}
impl Textify for RexType {
    spec fn bad(&self, c: Cx) -> bool { rex_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { rex_shown(c, *self) }
//@@ use tx
}
impl RexType {
//@@ fn src/textify/expressions.rs <Textify for RexType>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
impl Textify for Expression {
    spec fn bad(&self, c: Cx) -> bool { expr_bad(c, *self) }
    spec fn shown(&self, c: Cx) -> Seq<char> { expr_shown(c, *self) }
//@@ use tx
}
impl Expression {
//@@ fn src/textify/expressions.rs <Textify for Expression>::textify as=vx_textify ret=r
//@@ use txc
//@@ end
}
} // verus!
