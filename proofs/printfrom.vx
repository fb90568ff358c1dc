verus! {
// ---- what enumerated values are called
trait ValueEnum { spec fn label(&self) -> Option<Seq<char>>;
    fn as_enum_str(&self) -> (r: Result<Cow<'static, str>, PlanError>) ensures match r { Ok(s) => self.label() == Some(s.txt()), Err(_) => self.label() is None }; }
spec fn sort_label(n: i32) -> Option<Seq<char>> { if n == 1 { Some("AscNullsFirst"@) } else if n == 2 { Some("AscNullsLast"@) } else if n == 3 { Some("DescNullsFirst"@) } else if n == 4 { Some("DescNullsLast"@) } else if n == 5 { Some("Clustered"@) } else { None } }
spec fn join_label(n: i32) -> Option<Seq<char>> {
    if n == 1 { Some("Inner"@) } else if n == 2 { Some("Outer"@) } else if n == 3 { Some("Left"@) } else if n == 4 { Some("Right"@) } else if n == 5 { Some("LeftSemi"@) } else if n == 6 { Some("LeftAnti"@) } else if n == 7 { Some("LeftSingle"@) }
    else if n == 8 { Some("RightSemi"@) } else if n == 9 { Some("RightAnti"@) } else if n == 10 { Some("RightSingle"@) } else if n == 11 { Some("LeftMark"@) } else if n == 12 { Some("RightMark"@) } else { None }
}
spec fn set_label(n: i32) -> Option<Seq<char>> {
    if n == 1 { Some("MinusPrimary"@) } else if n == 7 { Some("MinusPrimaryAll"@) } else if n == 2 { Some("MinusMultiset"@) } else if n == 3 { Some("IntersectionPrimary"@) } else if n == 4 { Some("IntersectionMultiset"@) }
    else if n == 8 { Some("IntersectionMultisetAll"@) } else if n == 5 { Some("UnionDistinct"@) } else if n == 6 { Some("UnionAll"@) } else { None }
}
impl ValueEnum for SortKind { spec fn label(&self) -> Option<Seq<char>> { match *self { SortKind::Direction(d) => sort_label(d), _ => None } }
//@@ fn src/textify/values.rs <ValueEnum for SortKind>::as_enum_str lib=@try_from>vx_try_from
//@@ sub? Cow::Owned(vx_any_string()) => Cow::<str>::Owned(vx_any_string())
//@@ end
}
impl ValueEnum for join_rel::JoinType { spec fn label(&self) -> Option<Seq<char>> { join_label(self.num()) }
//@@ fn src/textify/values.rs <ValueEnum for join_rel::JoinType>::as_enum_str
//@@ end
}
impl ValueEnum for set_rel::SetOp { spec fn label(&self) -> Option<Seq<char>> { set_label(self.num()) }
//@@ fn src/textify/values.rs <ValueEnum for set_rel::SetOp>::as_enum_str
//@@ end
}
/// A value that is an enumerated name, or missing.
spec fn enum_is(l: Option<Seq<char>>, v: Value) -> bool { match l { Some(s) => v is Enum && v->Enum_0.txt() == s, None => v is Missing } }
//@@ fn src/textify/values.rs enum_str_value ret=r
    ensures match result { Ok(s) => r == Value::Enum(s), Err(_) => r is Missing }
//@@ end
trait VxEnumNum: Sized { spec fn num_of(n: i32) -> Option<Self>; fn vx_try_from(n: i32) -> (r: Result<Self, UnknownEnumValue>) ensures match r { Ok(v) => Self::num_of(n) == Some(v), Err(_) => Self::num_of(n) is None }; }
spec fn set_of(n: i32) -> Option<set_rel::SetOp> { if set_rel::SetOp::known(n) { Some(choose|o: set_rel::SetOp| o.num() == n) } else { None } }
impl VxEnumNum for set_rel::SetOp { spec fn num_of(n: i32) -> Option<Self> { set_of(n) } #[verifier::external_body] fn vx_try_from(n: i32) -> (r: Result<Self, UnknownEnumValue>) { unimplemented!() } }
proof fn lemma_set(n: i32)
    ensures match set_of(n) { Some(o) => set_label(n) == o.label(), None => set_label(n) is None }
{
    if set_rel::SetOp::known(n) {
        assert(exists|o: set_rel::SetOp| o.num() == n) by { let r = [set_rel::SetOp::Unspecified]; 
            assert(set_rel::SetOp::Unspecified.num() == 0); assert(set_rel::SetOp::MinusPrimary.num() == 1); assert(set_rel::SetOp::MinusPrimaryAll.num() == 7); assert(set_rel::SetOp::MinusMultiset.num() == 2); assert(set_rel::SetOp::IntersectionPrimary.num() == 3);
            assert(set_rel::SetOp::IntersectionMultiset.num() == 4); assert(set_rel::SetOp::IntersectionMultisetAll.num() == 8); assert(set_rel::SetOp::UnionDistinct.num() == 5); assert(set_rel::SetOp::UnionAll.num() == 6); }
    }
}
//@@ fn src/textify/values.rs decode_enum_field ret=r lib=@try_from>vx_try_from
//@@ sub T: TryFrom<i32> + ValueEnum => T: VxEnumNum + ValueEnum
    ensures match T::num_of(raw) { Some(v) => enum_is(v.label(), r), None => r is Missing }
//@@ end
impl<'a> Value<'a> {
//@@ fn src/textify/values.rs <From<&'a T> for Value<'a>>::from as=from_enum ret=r
//@@ sub fn from_enum(enum_val: &'a T) => fn from_enum<T: ValueEnum>(enum_val: &'a T)
    ensures enum_is(enum_val.label(), r)
//@@ end
//@@ fn src/textify/values.rs <From<&'a SortField> for Value<'a>>::from as=from_sort_field ret=r lib=@from>from_enum
    ensures sort_is(*sf, r)
//@@ end
}
spec fn expr_is(e: Option<Expression>, v: Value) -> bool { match e { Some(e) => v is Expression && *v->Expression_0 == e, None => v is Missing } }
spec fn unbox<T>(o: Option<Box<T>>) -> Option<T> { match o { Some(b) => Some(*b), None => None } }
/// `(expression, &Direction)`
spec fn sort_is(f: SortField, v: Value) -> bool {
    v is Tuple && v->Tuple_0@.len() == 2 && expr_is(f.expr, v->Tuple_0@[0]) && enum_is(match f.sort_kind { Some(k) => k.label(), None => None }, v->Tuple_0@[1])
}
// ---- relations
spec fn refs_are(v: Seq<Value>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == Value::Reference(i as i32) }
spec fn refs_upto(v: Seq<Value>, n: int) -> bool { n <= v.len() && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == Value::Reference(i as i32) }
spec fn is_inline(r: Relation) -> bool { r.arguments is Some && r.arguments->0 is Inline }
spec fn pos<'a>(r: Relation<'a>) -> Seq<Value<'a>> { r.arguments->0->Inline_0.positional@ }
spec fn nam<'a>(r: Relation<'a>) -> Seq<NamedArg<'a>> { r.arguments->0->Inline_0.named@ }
spec fn emit_of(c: Option<RelCommon>) -> Option<EmitKind> { match c { Some(c) => c.emit_kind, None => None } }
/// The parts every relation shares: name, emit, output syntax, addenda.
spec fn base_is(c: Cx, r: Relation, name: Seq<char>, common: Option<RelCommon>, a: Option<AdvancedExtension>) -> bool {
    head_is(r, name, common, OutputSyntax::Implicit) && r.addenda.lines@ == opt_adv(c.g, a)
}
spec fn head_is(r: Relation, name: Seq<char>, common: Option<RelCommon>, o: OutputSyntax) -> bool { r.name.txt() == name && opt_deref(r.emit) == emit_of(common) && r.output_syntax == o }
spec fn exprs_are(e: Seq<Expression>, v: Seq<Value>) -> bool { v.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> expr_is(Some(#[trigger] e[i]), v[i]) }
// ---- Read
spec fn types_of(s: NamedStruct) -> Seq<Type> { match s.r#struct { Some(t) => t.types@, None => seq![] } }
spec fn field_is(s: NamedStruct, i: int, v: Value) -> bool {
    v is Field && (match v->Field_0 { Some(n) => i < s.names@.len() && n.0@ == s.names@[i]@, None => i >= s.names@.len() })
        && (match v->Field_1 { Some(t) => i < types_of(s).len() && *t == types_of(s)[i], None => i >= types_of(s).len() })
}
/// One column per name or type, whichever list is longer.
spec fn fields_are(s: NamedStruct, v: Seq<Value>) -> bool {
    v.len() == (if s.names@.len() > types_of(s).len() { s.names@.len() } else { types_of(s).len() }) && forall|i: int| 0 <= i < v.len() ==> field_is(s, i, #[trigger] v[i])
}
spec fn read_cols(r: ReadRel, v: Seq<Value>) -> bool { match r.base_schema { Some(s) => fields_are(s, v), None => v.len() == 1 && v[0] is Missing } }
spec fn names_are(s: Seq<String>, v: Seq<Name>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).0@ == s[i]@ }
spec fn row_is(f: Seq<Expression>, v: Value) -> bool { v is Tuple && exprs_are(f, v->Tuple_0@) }
spec fn vrows_are(t: VirtualTable, v: Seq<Value>) -> bool { v.len() == t.expressions@.len() && forall|i: int| 0 <= i < v.len() ==> row_is(t.expressions@[i].fields@, #[trigger] v[i]) }
spec fn vfilter_is(r: ReadRel, n: Seq<NamedArg>) -> bool { match r.filter { Some(f) => n.len() == 1 && named_is(n[0], "filter"@) && expr_is(Some(*f), n[0].value), None => n.len() == 0 } }
/// An empty table with a filter is written `_, filter=`.
spec fn vargs_are(r: ReadRel, t: VirtualTable, p: Seq<Value>, n: Seq<NamedArg>) -> bool {
    vfilter_is(r, n) && if t.expressions@.len() == 0 && r.filter is Some { p.len() == 1 && p[0] is EmptyGroup } else { vrows_are(t, p) }
}
spec fn read_is(c: Cx, r: ReadRel, p: Relation) -> bool {
    read_cols(r, p.columns@) && p.children@.len() == 0 && match r.read_type {
        Some(ReadType::NamedTable(t)) => head_is(p, "Read"@, r.common, if emit_of(r.common) is Some && emit_of(r.common)->0 is Emit { OutputSyntax::Explicit } else { OutputSyntax::Implicit })
            && p.addenda.lines@ == opt_adv(c.g, r.advanced_extension) && is_inline(p) && nam(p).len() == 0 && pos(p).len() == 1 && pos(p)[0] is TableName && names_are(t.names@, pos(p)[0]->TableName_0@),
        Some(ReadType::VirtualTable(t)) => base_is(c, p, "Read:Virtual"@, r.common, r.advanced_extension) && p.arguments is Some
            && (match p.arguments->0 {
                RelationArgs::Inline(a) => !(t.expressions@.len() > 0 && t.expressions@.len() >= c.o.virtual_table_multiline_threshold) && vargs_are(r, t, a.positional@, a.named@),
                RelationArgs::Rows { rows, named } => t.expressions@.len() > 0 && t.expressions@.len() >= c.o.virtual_table_multiline_threshold && vargs_are(r, t, rows@, named@),
            }),
        Some(ReadType::ExtensionTable(t)) => head_is(p, "Read:Extension"@, r.common, OutputSyntax::Implicit) && p.arguments is None
            && p.addenda.lines@ == seq![line_of(AddendumKind::ExtensionTable, match t.detail { Some(d) => decoded(c.g, AddendumKind::ExtensionTable, d), None => Err(ExtensionError::MissingDetail) })] + opt_adv(c.g, r.advanced_extension),
        _ => base_is(c, p, "Read"@, r.common, r.advanced_extension) && is_inline(p) && nam(p).len() == 0 && pos(p).len() == 1 && pos(p)[0] is Missing,
    }
}
spec fn kid_width(k: Option<Relation>) -> int { match k { Some(k) => width(k), None => 0 } }
spec fn kids_width(v: Seq<Option<Relation>>) -> int
    decreases v.len()
{ if v.len() == 0 { 0 } else { kids_width(v.drop_last()) + kid_width(v.last()) } }
spec fn filter_is(c: Cx, f: FilterRel, r: Relation) -> bool {
    base_is(c, r, "Filter"@, f.common, f.advanced_extension) && is_inline(r) && pos(r).len() == 1 && nam(r).len() == 0 && expr_is(unbox(f.condition), pos(r)[0]) && refs_are(r.columns@, kids_width(r.children@))
}
spec fn project_is(c: Cx, p: ProjectRel, r: Relation) -> bool {
    let n = kids_width(r.children@);
    base_is(c, r, "Project"@, p.common, p.advanced_extension) && r.arguments is None && r.columns@.len() == n + p.expressions@.len() && refs_upto(r.columns@, n)
        && forall|i: int| 0 <= i < p.expressions@.len() ==> expr_is(Some(p.expressions@[i]), #[trigger] r.columns@[n + i])
}
spec fn sorts_are(s: Seq<SortField>, v: Seq<Value>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> sort_is(#[trigger] s[i], v[i]) }
spec fn sort_rel_is(c: Cx, s: SortRel, r: Relation) -> bool {
    base_is(c, r, "Sort"@, s.common, s.advanced_extension) && is_inline(r) && nam(r).len() == 0 && sorts_are(s.sorts@, pos(r)) && refs_are(r.columns@, kids_width(r.children@))
}
spec fn named_is(n: NamedArg, name: Seq<char>) -> bool { n.name.txt() == name }
spec fn limit_is(m: CountMode, v: Value) -> bool { match m { CountMode::CountExpr(e) => expr_is(Some(*e), v), CountMode::Count(k) => v == Value::Integer(k) } }
spec fn offset_is(m: OffsetMode, v: Value) -> bool { match m { OffsetMode::OffsetExpr(e) => expr_is(Some(*e), v), OffsetMode::Offset(k) => v == Value::Integer(k) } }
spec fn fetch_args(f: FetchRel, n: Seq<NamedArg>) -> bool {
    match (f.count_mode, f.offset_mode) {
        (Some(l), Some(o)) => n.len() == 2 && named_is(n[0], "limit"@) && limit_is(l, n[0].value) && named_is(n[1], "offset"@) && offset_is(o, n[1].value),
        (Some(l), None) => n.len() == 1 && named_is(n[0], "limit"@) && limit_is(l, n[0].value),
        (None, Some(o)) => n.len() == 1 && named_is(n[0], "offset"@) && offset_is(o, n[0].value),
        (None, None) => n.len() == 0,
    }
}
spec fn fetch_is(c: Cx, f: FetchRel, r: Relation) -> bool {
    base_is(c, r, "Fetch"@, f.common, f.advanced_extension) && is_inline(r) && pos(r).len() == 0 && fetch_args(f, nam(r)) && refs_are(r.columns@, kids_width(r.children@))
}
spec fn join_width(n: i32, l: int, r: int) -> int {
    if n == 5 || n == 6 || n == 7 { l } else if n == 8 || n == 9 || n == 10 { r } else if n == 11 { l + 1 } else if n == 12 { r + 1 } else { l + r }
}
spec fn join_is(c: Cx, j: JoinRel, r: Relation) -> bool {
    base_is(c, r, "Join"@, j.common, j.advanced_extension) && is_inline(r) && pos(r).len() == 2 && enum_is(join_label(j.r#type), pos(r)[0]) && expr_is(unbox(j.expression), pos(r)[1])
        && (match j.post_join_filter { Some(f) => nam(r).len() == 1 && named_is(nam(r)[0], "post_filter"@) && expr_is(Some(*f), nam(r)[0].value), None => nam(r).len() == 0 })
        && r.children@.len() == 2 && refs_are(r.columns@, join_width(j.r#type, kid_width(r.children@[0]), kid_width(r.children@[1])))
}
spec fn set_is(c: Cx, s: SetRel, r: Relation) -> bool {
    base_is(c, r, "Set"@, s.common, s.advanced_extension) && is_inline(r) && pos(r).len() == 1 && nam(r).len() == 0 && enum_is(set_label(s.op), pos(r)[0])
        && refs_are(r.columns@, if s.inputs@.len() == 0 { 0 } else { kids_width(r.children@) / s.inputs@.len() as int })
}
spec fn cross_is(c: Cx, x: CrossRel, r: Relation) -> bool { base_is(c, r, "Cross"@, x.common, x.advanced_extension) && r.arguments is None && refs_are(r.columns@, kids_width(r.children@)) }
// ---- extension relations
//@@ item src/extensions/registry.rs ExtensionInput
//@@ item src/extensions/registry.rs ExtensionContext
impl ExtensionInput {
//@@ fn src/extensions/registry.rs ExtensionInput::new ret=r
    ensures r.emitted_column_count == emitted_column_count
//@@ end
}
impl<'a> ExtensionContext<'a> {
//@@ fn src/extensions/registry.rs ExtensionContext::new ret=r
    ensures r.inputs@ == inputs@
//@@ end
}
spec fn widths(v: Seq<ExtensionInput>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].emitted_column_count as int) }
/// The widths of the inputs that are there.
spec fn inputs_of(v: Seq<Option<Relation>>) -> Seq<int>
    decreases v.len()
{ if v.len() == 0 { seq![] } else { inputs_of(v.drop_last()) + (match v.last() { Some(k) => seq![width(k)], None => seq![] }) } }
/// What the registry makes of a relation's detail, given the widths of its inputs.
uninterp spec fn decoded_rel(g: ExtensionRegistry, d: Any, inputs: Seq<int>) -> Decoded;
impl ExtensionRegistry { #[verifier::external_body] fn decode_with_context(&self, d: AnyRef, x: &ExtensionContext) -> (r: Decoded) ensures r == decoded_rel(*self, d.any(), widths(x.inputs@)) { unimplemented!() } }
//@@ trust filter_map keeps what its function yields, in order
spec fn somes<U>(m: Seq<Option<U>>) -> Seq<U>
    decreases m.len()
{ if m.len() == 0 { seq![] } else { somes(m.drop_last()) + (match m.last() { Some(x) => seq![x], None => seq![] }) } }
spec fn each<T, U, F: Fn(T) -> Option<U>>(f: F, s: Seq<T>, m: Seq<Option<U>>) -> bool { m.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] m[i]) }
trait VxFilterMap<T>: Sized { spec fn vx_fm(self) -> Seq<T>;
    fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>) requires forall|i: int| 0 <= i < self.vx_fm().len() ==> call_requires(f, (#[trigger] self.vx_fm()[i],))
        ensures exists|m: Seq<Option<U>>| each(f, self.vx_fm(), m) && r@ == #[trigger] somes(m); }
impl<T> VxFilterMap<T> for VxIter<T> { spec fn vx_fm(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>) { unimplemented!() } }
spec fn input_is(k: Option<Relation>, i: Option<ExtensionInput>) -> bool { match i { Some(i) => k is Some && i.emitted_column_count == width(k->0), None => k is None } }
proof fn lemma_inputs(v: Seq<Option<Relation>>, m: Seq<Option<ExtensionInput>>)
    requires m.len() == v.len(), forall|i: int| 0 <= i < m.len() ==> input_is(v[i], #[trigger] m[i])
    ensures widths(somes(m)) == inputs_of(v)
    decreases m.len()
{
    if m.len() > 0 { lemma_inputs(v.drop_last(), m.drop_last()); assert(input_is(v[m.len() - 1], m[m.len() - 1])); assert(m.last() == m[m.len() - 1]); assert(v.last() == v[m.len() - 1]); }
    assert(widths(somes(m)) =~= inputs_of(v));
}
spec fn earg_is(n: NamedArg, p: (String, ExtensionValue)) -> bool { n.name.txt() == p.0@ && n.value == Value::ExtensionArgument(p.1) }
spec fn eargs_are(a: ExtensionArgs, p: Seq<Value>, n: Seq<NamedArg>, v: Seq<Value>) -> bool {
    p.len() == a.positional@.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == Value::ExtensionArgument(a.positional@[i]))
        && n.len() == a.named.view().len() && (forall|i: int| 0 <= i < n.len() ==> earg_is(#[trigger] n[i], a.named.view()[i]))
        && v.len() == a.output_columns@.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == Value::ExtColumn(a.output_columns@[i]))
}
spec fn ext_is(c: Cx, kind: Seq<char>, d: Option<Any>, r: Relation) -> bool {
    r.emit is None && r.output_syntax == OutputSyntax::Implicit && r.addenda.lines@.len() == 0
        && match (match d { Some(d) => decoded_rel(c.g, d, inputs_of(r.children@)), None => Err(ExtensionError::MissingDetail) }) {
            Ok(p) => r.name.txt() == kind + ":"@ + name_text(p.0@) && is_inline(r) && eargs_are(p.1, pos(r), nam(r), r.columns@),
            Err(_) => r.name.txt() == kind && r.arguments is None && r.columns@.len() == 1 && r.columns@[0] is Missing,
        }
}
// ---- Aggregate
//@@ trust encode_to_vec is a function of the message; HashSet::insert says whether the element is new
uninterp spec fn enc(e: Expression) -> Seq<u8>;
impl Expression { #[verifier::external_body] fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == enc(*self) { unimplemented!() } }
#[verifier::external_body]
pub struct VxBytesSet { _p: () }
impl View for VxBytesSet { type V = Set<Seq<u8>>; uninterp spec fn view(&self) -> Set<Seq<u8>>; }
type HashSet = VxBytesSet;
impl VxBytesSet {
    #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Vec<u8>) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
/// The first occurrence of each expression.
spec fn encs(s: Seq<Expression>) -> Set<Seq<u8>>
    decreases s.len()
{ if s.len() == 0 { Set::empty() } else { encs(s.drop_last()).insert(enc(s.last())) } }
spec fn firsts(s: Seq<Expression>) -> Seq<Expression>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if encs(s.drop_last()).contains(enc(s.last())) { firsts(s.drop_last()) } else { firsts(s.drop_last()).push(s.last()) } }
spec fn flat(g: Seq<Grouping>, n: int) -> Seq<Expression>
    decreases n
{ if n <= 0 || n > g.len() { seq![] } else { flat(g, n - 1) + g[n - 1].grouping_expressions@ } }
/// The deprecated form: expressions inside the groupings, none beside them.
spec fn old_style(a: AggregateRel) -> bool { a.grouping_expressions@.len() == 0 && exists|i: int| 0 <= i < a.groupings@.len() && (#[trigger] a.groupings@[i]).grouping_expressions@.len() > 0 }
spec fn gref_is(e: Seq<Expression>, k: u32, v: Value) -> bool { expr_is(if (k as int) < e.len() { Some(e[k as int]) } else { None }, v) }
spec fn group_is(a: AggregateRel, g: Grouping, v: Seq<Value>) -> bool {
    if old_style(a) { exprs_are(g.grouping_expressions@, v) } else { v.len() == g.expression_references@.len() && forall|i: int| 0 <= i < v.len() ==> gref_is(a.grouping_expressions@, g.expression_references@[i], #[trigger] v[i]) }
}
spec fn sets_are(a: AggregateRel, s: Seq<Vec<Value>>) -> bool {
    if a.groupings@.len() == 0 { s.len() == 1 && s[0]@.len() == 0 } else { s.len() == a.groupings@.len() && forall|i: int| 0 <= i < s.len() ==> group_is(a, a.groupings@[i], (#[trigger] s[i])@) }
}
/// One set is spread, several are written as tuples; an empty one is `_`.
spec fn tuple_is(s: Seq<Value>, v: Value) -> bool { if s.len() == 0 { v is EmptyGroup } else { v is Tuple && v->Tuple_0@ == s } }
spec fn sets_shown(s: Seq<Vec<Value>>, p: Seq<Value>) -> bool {
    if s.len() == 1 { if s[0]@.len() == 0 { p.len() == 1 && p[0] is EmptyGroup } else { p == s[0]@ } } else { p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> tuple_is(s[i]@, #[trigger] p[i]) }
}
spec fn groups_shown(a: AggregateRel, p: Seq<Value>) -> bool { exists|s: Seq<Vec<Value>>| #[trigger] sets_are(a, s) && sets_shown(s, p) }
spec fn measure_is(m: proto::aggregate_rel::Measure, v: Value) -> bool { match m.measure { Some(f) => v is AggregateFunction && *v->AggregateFunction_0 == f, None => v is Missing } }
spec fn gexprs(a: AggregateRel) -> Seq<Expression> { if old_style(a) { firsts(flat(a.groupings@, a.groupings@.len() as int)) } else { a.grouping_expressions@ } }
spec fn acols_are(a: AggregateRel, v: Seq<Value>, n: int) -> bool {
    let k = gexprs(a).len();
    v.len() == k + n && (forall|i: int| 0 <= i < k ==> expr_is(Some(gexprs(a)[i]), #[trigger] v[i])) && (forall|i: int| 0 <= i < n ==> measure_is(#[trigger] a.measures@[i], v[k + i]))
}
spec fn agg_is(c: Cx, a: AggregateRel, r: Relation) -> bool {
    base_is(c, r, "Aggregate"@, a.common, a.advanced_extension) && is_inline(r) && nam(r).len() == 0 && groups_shown(a, pos(r)) && acols_are(a, r.columns@, a.measures@.len() as int)
}
/// A relation that has no text form.
spec fn rel_unsup(r: Rel) -> bool
    decreases r
{
    match r.rel_type {
        Some(RelType::Read(_)) => false, Some(RelType::ExtensionLeaf(_)) => false,
        Some(RelType::Filter(f)) => in_unsup(f.input), Some(RelType::Project(f)) => in_unsup(f.input), Some(RelType::Aggregate(f)) => in_unsup(f.input), Some(RelType::Sort(f)) => in_unsup(f.input), Some(RelType::Fetch(f)) => in_unsup(f.input),
        Some(RelType::Join(j)) => in_unsup(j.left) || in_unsup(j.right), Some(RelType::Cross(j)) => in_unsup(j.left) || in_unsup(j.right),
        Some(RelType::Set(s)) => exists|i: int| 0 <= i < s.inputs@.len() && rel_unsup(#[trigger] s.inputs@[i]),
        Some(RelType::ExtensionSingle(f)) => in_unsup(f.input),
        Some(RelType::ExtensionMulti(s)) => exists|i: int| 0 <= i < s.inputs@.len() && rel_unsup(#[trigger] s.inputs@[i]),
        _ => true,
    }
}
spec fn in_unsup(r: Option<Box<Rel>>) -> bool
    decreases r
{ match r { Some(b) => rel_unsup(*b), None => false } }
spec fn some_all(v: Seq<Rel>) -> Seq<Option<Rel>> { Seq::new(v.len(), |i: int| Some(v[i])) }
/// The relation printed for a plan's relation.
spec fn rel_is(c: Cx, rel: Rel, r: Relation) -> bool
    decreases r
{
    match rel.rel_type {
        Some(RelType::Filter(f)) => filter_is(c, *f, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::Project(f)) => project_is(c, *f, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::Sort(f)) => sort_rel_is(c, *f, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::Fetch(f)) => fetch_is(c, *f, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::Join(f)) => join_is(c, *f, r) && kids_are(c, seq![unbox(f.left), unbox(f.right)], r.children),
        Some(RelType::Cross(f)) => cross_is(c, *f, r) && kids_are(c, seq![unbox(f.left), unbox(f.right)], r.children),
        Some(RelType::Set(f)) => set_is(c, f, r) && kids_are(c, some_all(f.inputs@), r.children),
        Some(RelType::Read(f)) => read_is(c, *f, r),
        Some(RelType::Aggregate(f)) => agg_is(c, *f, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::ExtensionLeaf(f)) => ext_is(c, "ExtensionLeaf"@, f.detail, r) && r.children@.len() == 0,
        Some(RelType::ExtensionSingle(f)) => ext_is(c, "ExtensionSingle"@, f.detail, r) && kids_are(c, seq![unbox(f.input)], r.children),
        Some(RelType::ExtensionMulti(f)) => ext_is(c, "ExtensionMulti"@, f.detail, r) && kids_are(c, some_all(f.inputs@), r.children),
        _ => c.reported,
    }
}
spec fn kids_are(c: Cx, v: Seq<Option<Rel>>, k: Vec<Option<Relation>>) -> bool
    decreases k
{ v.len() == k@.len() && forall|i: int| 0 <= i < v.len() ==> (match #[trigger] k@[i] { Some(b) => v[i] is Some && rel_is(c, v[i]->0, b), None => v[i] is None }) }
spec fn kid_is(c: Cx, v: Option<Rel>, k: Option<Relation>) -> bool { match k { Some(b) => v is Some && rel_is(c, v->0, b), None => v is None } }
spec fn opt_refs(v: Seq<Option<&Rel>>) -> Seq<Option<Rel>> { Seq::new(v.len(), |i: int| opt_deref(v[i])) }
spec fn any_unsup(v: Seq<Option<&Rel>>) -> bool { exists|i: int| 0 <= i < v.len() && ref_unsup(#[trigger] v[i]) }
spec fn ref_unsup(v: Option<&Rel>) -> bool { match v { Some(r) => rel_unsup(*r), None => false } }
//@@ fn src/textify/rels.rs get_emit ret=r
    ensures opt_deref(r) == emit_of(opt_deref(rel))
//@@ closure 0 ret=Option<&EmitKind>
    ensures opt_deref(vx_r) == c.emit_kind
//@@ end
//@@ fn src/textify/rels.rs join_output_width ret=r
    ensures r == join_width(join_type.num(), left_columns as int, right_columns as int)
//@@ at start
    assume(left_columns + right_columns + 1 <= usize::MAX);
//@@ end
//@@ fn src/textify/rels.rs join_output_columns ret=r pure
//@@ sub (0..total_columns) => (0..total_columns).vx_elems()
    ensures refs_are(r@, join_width(join_type.num(), left_columns as int, right_columns as int))
//@@ end
//@@ trust Option<Iterator>.into_iter().flatten() yields the elements of the iterator, or nothing
#[verifier::reject_recursive_types(T)]
struct VxOnce<T> { i: Option<VxIter<T>> }
trait VxOptIter<T>: Sized { fn vx_into_iter(self) -> (r: VxOnce<T>); }
impl<T> VxOptIter<T> for Option<VxIter<T>> { #[verifier::external_body] fn vx_into_iter(self) -> (r: VxOnce<T>) ensures r.i == self { unimplemented!() } }
impl<T> VxOnce<T> { #[verifier::external_body] fn flatten(self) -> (r: VxIter<T>) ensures match self.i { Some(i) => r@ == i@, None => r@.len() == 0 } { unimplemented!() } }
//@@ fn src/textify/rels.rs schema_to_values ret=r lib=iter,into_iter
//@@ sub Name(n) => Name(n.as_str())
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    ensures fields_are(*schema, r@)
//@@ closure 0 ret=VxIter<&'a Type>
    ensures vx_r@.len() == s.types@.len(), forall|i: int| #![trigger vx_r@[i]] 0 <= i < vx_r@.len() ==> *vx_r@[i] == s.types@[i]
//@@ closure 1 ret=Name<'a>
    ensures vx_r.0@ == n@
//@@ loop 0
    invariant fields@.len() == max0(types_of(*schema).len() - values@.len()), names@.len() == max0(schema.names@.len() - values@.len()),
        forall|i: int| #![trigger fields@[i]] 0 <= i < fields@.len() ==> *fields@[i] == types_of(*schema)[values@.len() + i],
        forall|i: int| #![trigger names@[i]] 0 <= i < names@.len() ==> *names@[i] == schema.names@[values@.len() + i],
        values@.len() <= (if schema.names@.len() > types_of(*schema).len() { schema.names@.len() } else { types_of(*schema).len() }),
        forall|i: int| 0 <= i < values@.len() ==> field_is(*schema, i, #[trigger] values@[i]),
    ensures fields_are(*schema, values@)
//@@ end
spec fn max0(n: int) -> int { if n < 0 { 0 } else { n } }
//@@ fn src/textify/rels.rs read_columns ret=r
    ensures read_cols(*rel, r@)
//@@ end
proof fn lemma_one(c: Cx, i: Option<Box<Rel>>)
    ensures forall|v: Seq<Option<&Rel>>| #![trigger opt_refs(v)] #![trigger any_unsup(v)] v.len() == 1 && opt_deref(v[0]) == unbox(i) ==> opt_refs(v) == seq![unbox(i)] && any_unsup(v) == in_unsup(i)
{
    assert forall|v: Seq<Option<&Rel>>| #![trigger opt_refs(v)] #![trigger any_unsup(v)] v.len() == 1 && opt_deref(v[0]) == unbox(i) implies opt_refs(v) == seq![unbox(i)] && any_unsup(v) == in_unsup(i) by {
        assert(opt_refs(v) =~= seq![unbox(i)]);
        assert(ref_unsup(v[0]) == in_unsup(i));
    }
}
proof fn lemma_two(c: Cx, i: Option<Box<Rel>>, j: Option<Box<Rel>>)
    ensures forall|v: Seq<Option<&Rel>>| #![trigger opt_refs(v)] #![trigger any_unsup(v)] v.len() == 2 && opt_deref(v[0]) == unbox(i) && opt_deref(v[1]) == unbox(j) ==> opt_refs(v) == seq![unbox(i), unbox(j)] && any_unsup(v) == (in_unsup(i) || in_unsup(j))
{
    assert forall|v: Seq<Option<&Rel>>| #![trigger opt_refs(v)] #![trigger any_unsup(v)] v.len() == 2 && opt_deref(v[0]) == unbox(i) && opt_deref(v[1]) == unbox(j) implies opt_refs(v) == seq![unbox(i), unbox(j)] && any_unsup(v) == (in_unsup(i) || in_unsup(j)) by {
        assert(opt_refs(v) =~= seq![unbox(i), unbox(j)]);
        assert(ref_unsup(v[0]) == in_unsup(i)); assert(ref_unsup(v[1]) == in_unsup(j));
    }
}
impl<'a> Relation<'a> {
//@@ trust the columns of all inputs of one relation together do not overflow usize
//@@ fn src/textify/rels.rs Relation::convert_children ret=r
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires any_unsup(refs@) ==> ctx.cx().faulty
    ensures kids_are(ctx.cx(), opt_refs(refs@), r.0), r.1 == kids_width(r.0@)
//@@ loop 0 seq
    invariant __s0 == refs@, any_unsup(refs@) ==> ctx.cx().faulty, children@.len() == __n0, inputs == kids_width(children@), forall|i: int| 0 <= i < __n0 ==> kid_is(ctx.cx(), opt_deref(refs@[i]), #[trigger] children@[i]),
//@@ at loop 0 start
    let ghost kids0 = children@;
    proof { assert(ref_unsup(refs@[__n0 - 1]) ==> any_unsup(refs@)); }
//@@ at before 0 emitted
    assume(kids_width(children@) + width(child) <= usize::MAX);
//@@ at loop 0 end
    proof { assert(children@.drop_last() =~= kids0); }
//@@ end
//@@ fn src/textify/rels.rs Relation::from_filter ret=r pure=2 lib=as_deref
//@@ sub (0..columns) => (0..columns).vx_elems()
//@@ sub c.as_ref() => &**c
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires in_unsup(rel.input) ==> ctx.cx().faulty
    ensures filter_is(ctx.cx(), *rel, r), kids_are(ctx.cx(), seq![unbox(rel.input)], r.children)
//@@ closure 0 ret=Value<'a>
    ensures expr_is(Some(**c), vx_r)
//@@ at before 0 convert_children
    proof { lemma_one(ctx.cx(), rel.input); }
//@@ end
//@@ def from1
//@@ fn src/textify/rels.rs Relation::from_$1 ret=r $3
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires in_unsup(rel.input) ==> ctx.cx().faulty
    ensures $2(ctx.cx(), *rel, r), kids_are(ctx.cx(), seq![unbox(rel.input)], r.children)
//@@ at before 0 convert_children
    proof { lemma_one(ctx.cx(), rel.input); }
//@@ enddef
//@@ use from1 project ; project_is ; lib=as_deref
//@@ loop 0 seq
    invariant columns@.len() == __n0, refs_are(columns@, __n0 as int), __s0.len() == input_columns, forall|i: int| 0 <= i < __s0.len() ==> #[trigger] __s0[i] == i,
//@@ loop 1 seq
    invariant columns@.len() == input_columns + __n1, refs_upto(columns@, input_columns as int), __s1 == refs(rel.expressions@),
        forall|i: int| 0 <= i < __n1 ==> expr_is(Some(rel.expressions@[i]), #[trigger] columns@[input_columns + i]),
//@@ end
//@@ use from1 sort ; sort_rel_is ; lib=as_deref,@from>from_sort_field
//@@ loop 0 seq
    invariant __s0 == refs(rel.sorts@), positional@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> sort_is(#[trigger] rel.sorts@[i], positional@[i]),
//@@ loop 1 seq
    invariant col_values@.len() == __n1, refs_are(col_values@, __n1 as int), __s1.len() == input_columns, forall|i: int| 0 <= i < __s1.len() ==> #[trigger] __s1[i] == i,
//@@ end
//@@ use from1 fetch ; fetch_is ; lib=as_deref pure=0
//@@ sub (0..input_columns) => (0..input_columns).vx_elems()
//@@ end
//@@ def from2
//@@ fn src/textify/rels.rs Relation::from_$1 ret=r $3
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires in_unsup(rel.left) || in_unsup(rel.right) ==> ctx.cx().faulty
    ensures $2(ctx.cx(), *rel, r), kids_are(ctx.cx(), seq![unbox(rel.left), unbox(rel.right)], r.children)
//@@ at before 0 convert_children
    proof { lemma_two(ctx.cx(), rel.left, rel.right); }
//@@ enddef
//@@ use from2 join ; join_is ; lib=as_deref,@try_from>vx_try_from
//@@ sub c.as_ref() => &**c
//@@ sub Expression(post_join_filter.as_ref()) => Expression(&**post_join_filter)
//@@ closure 0 ret=Value<'a>
    ensures expr_is(Some(**c), vx_r)
//@@ end
//@@ use from2 cross ; cross_is ; lib=as_deref pure=0
//@@ sub (0..total_columns) => (0..total_columns).vx_elems()
//@@ end
//@@ fn src/textify/rels.rs Relation::from_set ret=r lib=iter pure=0
//@@ sub .map(Some) => .map(|r: &'a Rel| -> (o: Option<&'a Rel>) ensures o == Some(r) { Some(r) })
//@@ sub (0..width) => (0..width).vx_elems()
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires (exists|i: int| 0 <= i < rel.inputs@.len() && rel_unsup(#[trigger] rel.inputs@[i])) ==> ctx.cx().faulty
    ensures set_is(ctx.cx(), *rel, r), kids_are(ctx.cx(), some_all(rel.inputs@), r.children)
//@@ at before 0 convert_children
    proof { lemma_set(rel.op); assert(opt_refs(child_refs@) =~= some_all(rel.inputs@)); if any_unsup(child_refs@) { let i = choose|i: int| 0 <= i < child_refs@.len() && ref_unsup(#[trigger] child_refs@[i]); assert(rel_unsup(rel.inputs@[i])); } }
//@@ end
//@@ fn src/textify/rels.rs Relation::from_read ret=r lib=iter
//@@ sub .map(Value::Expression) => .map(|e: &'a Expression| -> (v: Value<'a>) ensures v == Value::Expression(e) { Value::Expression(e) })
//@@ sub .map(AnyRef::from) => .map(|a: &'a Any| -> (v: AnyRef<'a>) ensures v.any() == *a { AnyRef::from(a) })
//@@ sub filter.as_ref()) => &**filter)
//@@ sub Name(n) => Name(n.as_str())
    ensures read_is(ctx.cx(), *rel, r)
//@@ closure 0 ret=Option<&'a EmitKind>
    ensures opt_deref(vx_r) == c.emit_kind
//@@ closure 1 ret=Name<'a>
    ensures vx_r.0@ == n@
//@@ closure 2 ret=Value<'a>
    ensures row_is(row.fields@, vx_r)
//@@ end
//@@ fn src/textify/rels.rs Relation::from_extension ret=r lib=iter,filter_map,into_iter fmtmodel
//@@ sub Name(&name) => Name(name.as_str())
//@@ sub .map(Value::ExtColumn) => .map(|e: ExtensionColumn| -> (v: Value<'a>) ensures v == Value::ExtColumn(e) { Value::ExtColumn(e) })
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires any_unsup(child_refs@) ==> ctx.cx().faulty
    ensures ext_is(ctx.cx(), ext_type@, match detail { Some(d) => Some(d.any()), None => None }, r), kids_are(ctx.cx(), opt_refs(child_refs@), r.children)
//@@ closure 0 ret=Option<ExtensionInput>
    ensures input_is(*child, vx_r)
//@@ closure 1 ret=ExtensionInput
    ensures vx_r.emitted_column_count == width(*child)
//@@ at after 0 convert_children
    proof { assert(Seq::<char>::empty() + ext_type@ =~= ext_type@);
        assert forall|m: Seq<Option<ExtensionInput>>| m.len() == children@.len() && (forall|i: int| 0 <= i < m.len() ==> input_is(children@[i], #[trigger] m[i])) implies widths(#[trigger] somes(m)) == inputs_of(children@) by { lemma_inputs(children@, m); } }
//@@ loop 0 seq
    invariant positional@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> #[trigger] positional@[i] == Value::ExtensionArgument(__s0[i]),
//@@ loop 1 seq
    invariant named@.len() == __n1, forall|i: int| 0 <= i < __n1 ==> earg_is(#[trigger] named@[i], __s1[i]),
//@@ end
//@@ fn src/textify/rels.rs Relation::from_extension_leaf ret=r
//@@ sub .map(AnyRef::from) => .map(|a: &'a Any| -> (v: AnyRef<'a>) ensures v.any() == *a { AnyRef::from(a) })
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    ensures ext_is(ctx.cx(), "ExtensionLeaf"@, rel.detail, r), r.children@.len() == 0
//@@ end
//@@ fn src/textify/rels.rs Relation::from_extension_single ret=r lib=as_deref
//@@ sub .map(AnyRef::from) => .map(|a: &'a Any| -> (v: AnyRef<'a>) ensures v.any() == *a { AnyRef::from(a) })
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires in_unsup(rel.input) ==> ctx.cx().faulty
    ensures ext_is(ctx.cx(), "ExtensionSingle"@, rel.detail, r), kids_are(ctx.cx(), seq![unbox(rel.input)], r.children)
//@@ at start
    proof { lemma_one(ctx.cx(), rel.input); }
//@@ end
//@@ fn src/textify/rels.rs Relation::from_extension_multi ret=r
//@@ sub .map(AnyRef::from) => .map(|a: &'a Any| -> (v: AnyRef<'a>) ensures v.any() == *a { AnyRef::from(a) })
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires (exists|i: int| 0 <= i < rel.inputs@.len() && rel_unsup(#[trigger] rel.inputs@[i])) ==> ctx.cx().faulty
    ensures ext_is(ctx.cx(), "ExtensionMulti"@, rel.detail, r), kids_are(ctx.cx(), some_all(rel.inputs@), r.children)
//@@ loop 0 seq
    invariant __s0 == refs(rel.inputs@), child_refs@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> opt_deref(#[trigger] child_refs@[i]) == Some(rel.inputs@[i]),
//@@ at tail
    proof { assert(opt_refs(child_refs@) =~= some_all(rel.inputs@)); if any_unsup(child_refs@) { let i = choose|i: int| 0 <= i < child_refs@.len() && ref_unsup(#[trigger] child_refs@[i]); assert(rel_unsup(rel.inputs@[i])); } }
//@@ end
//@@ fn src/textify/rels.rs Relation::get_grouping_sets ret=r
    ensures exprs_are(firsts(flat(rel.groupings@, rel.groupings@.len() as int)), r.0@), r.1@.len() == rel.groupings@.len(), forall|i: int| 0 <= i < r.1@.len() ==> exprs_are(rel.groupings@[i].grouping_expressions@, (#[trigger] r.1@[i])@)
//@@ loop 0 seq
    invariant __s0 == refs(rel.groupings@), exprs_are(firsts(flat(rel.groupings@, __n0 as int)), expression_list@), seen_expressions@ == encs(flat(rel.groupings@, __n0 as int)),
        grouping_sets@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> exprs_are(rel.groupings@[i].grouping_expressions@, (#[trigger] grouping_sets@[i])@),
//@@ at loop 0 start
    let ghost f0 = flat(rel.groupings@, __n0 - 1); let ghost gs = rel.groupings@[__n0 - 1].grouping_expressions@;
    proof { assert(gs.take(0) =~= seq![]); assert(f0 + gs.take(0) =~= f0); }
//@@ loop 1 seq
    invariant __s1 == refs(gs), exprs_are(firsts(f0 + gs.take(__n1 as int)), expression_list@), seen_expressions@ == encs(f0 + gs.take(__n1 as int)), exprs_are(gs.take(__n1 as int), grouping_set@),
//@@ at loop 1 start
    proof { let a = f0 + gs.take(__n1 as int); assert(a.drop_last() =~= f0 + gs.take(__n1 - 1)); assert(a.last() == gs[__n1 - 1]); }
//@@ at loop 0 end
    proof { assert(gs.take(gs.len() as int) =~= gs); }
//@@ end
//@@ fn src/textify/rels.rs Relation::from_aggregate ret=r lib=as_deref,iter,extend
//@@ sub (expression_list, grouping_sets) = Relation::get_grouping_sets(rel); => let vx_p = Relation::get_grouping_sets(rel); expression_list = vx_p.0; grouping_sets = vx_p.1;
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires in_unsup(rel.input) ==> ctx.cx().faulty
    ensures agg_is(ctx.cx(), *rel, r), kids_are(ctx.cx(), seq![unbox(rel.input)], r.children)
//@@ closure 0 ret=bool
    ensures vx_r == (g.grouping_expressions@.len() > 0)
//@@ sub .map(Value::Expression) => .map(|e: &'a Expression| -> (v: Value<'a>) ensures v == Value::Expression(e) { Value::Expression(e) })
//@@ sub .map(Value::AggregateFunction) => .map(|e: &'a AggregateFunction| -> (v: Value<'a>) ensures v == Value::AggregateFunction(e) { Value::AggregateFunction(e) })
//@@ loop 0 seq
    invariant __s0 == refs(rel.groupings@), !old_style(*rel), grouping_sets@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> group_is(*rel, rel.groupings@[i], (#[trigger] grouping_sets@[i])@),
//@@ loop 1 seq
    invariant __s1 == refs(group.expression_references@), grouping_set@.len() == __n1, forall|i: int| 0 <= i < __n1 ==> gref_is(rel.grouping_expressions@, group.expression_references@[i], #[trigger] grouping_set@[i]),
//@@ loop 2 seq
    invariant sets_are(*rel, __s2), is_single == (__s2.len() == 1), if __s2.len() == 1 { __n2 == 1 ==> sets_shown(__s2, positional@) } else { positional@.len() == __n2 && forall|i: int| 0 <= i < __n2 ==> tuple_is(__s2[i]@, #[trigger] positional@[i]) }, __n2 == 0 ==> positional@.len() == 0,
//@@ loop 3 seq
    invariant __s3 == refs(rel.measures@), acols_are(*rel, all_outputs@, __n3 as int),
//@@ at before 0 convert_children
    proof { lemma_one(ctx.cx(), rel.input); }
//@@ end
//@@ fn src/textify/rels.rs Relation::from_rel ret=r fmtmodel
//@@ attr #[verifier::exec_allows_no_decreases_clause]
    requires rel_unsup(*rel) ==> ctx.cx().faulty
    ensures rel_is(ctx.cx(), *rel, r)
//@@ end
}
impl Rel {
//@@ fn src/textify/rels.rs <NamedRelation for Rel>::name ret=r
//@@ end
//@@ fn src/textify/rels.rs <Textify for Rel>::textify as=vx_textify ret=r lib=textify
    requires rel_ill(ctx.cx(), *self) ==> ctx.cx().faulty
    ensures r is Ok ==> rel_wrote(ctx.cx(), *self, old(w).text(), final(w).text())
//@@ end
}
/// A relation that cannot be written in full: an error has to be reported.
spec fn rel_ill(c: Cx, rel: Rel) -> bool { rel_unsup(rel) || exists|r: Relation| #[trigger] rel_is(c, rel, r) && rln_bad(c, r) }
/// What writing a relation leaves: the text of the relation it stands for, or a report.
spec fn rel_wrote(c: Cx, rel: Rel, a: Seq<char>, b: Seq<char>) -> bool { exists|r: Relation| #[trigger] rel_is(c, rel, r) && wrote(rln_bad(c, r), c, a, b, rln_txt(c, r)) }
spec fn root_head(c: Cx, n: Seq<Seq<char>>) -> Seq<char> { c.ind + "Root["@ + names_txt(n, n.len() as int) + "]\n"@ }
spec fn names_txt(s: Seq<Seq<char>>, n: int) -> Seq<char>
    decreases n
{ if n <= 0 || n > s.len() { seq![] } else { names_txt(s, n - 1) + (if n > 1 { ", "@ } else { seq![] }) + name_text(s[n - 1]) } }
proof fn lemma_names(c: Cx, v: Seq<Name>, s: Seq<Seq<char>>, n: int)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0@ == s[i], 0 <= n <= s.len()
    ensures sep_text(c, v, ", "@, n) == names_txt(s, n), !sep_bad(c, v)
    decreases n
{
    if sep_bad(c, v) { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i].bad(c); assert(false); }
    if n > 0 { lemma_names(c, v, s, n - 1); assert(v[n - 1].0@ == s[n - 1]); }
}
spec fn root_ill(c: Cx, r: RelRoot) -> bool { match r.input { Some(i) => rel_ill(in1(c), i), None => true } }
spec fn root_wrote(c: Cx, r: RelRoot, a: Seq<char>, b: Seq<char>) -> bool { match r.input { Some(i) => rel_wrote(in1(c), i, a + root_head(c, texts_of(r.names@)), b), None => c.reported } }
impl RelRoot {
//@@ fn src/textify/rels.rs <Textify for RelRoot>::textify as=vx_textify ret=r lib=iter,textify
//@@ sub ctx.separated(names.vx_iter(), ", ") => ctx.separated(names.as_slice(), ", ")
//@@ sub Name(n) => Name(n.as_str())
    requires root_ill(ctx.cx(), *self) ==> ctx.cx().faulty
    ensures r is Ok ==> root_wrote(ctx.cx(), *self, old(w).text(), final(w).text())
//@@ closure 0 ret=Name<'_>
    ensures vx_r.0@ == n@
//@@ at after 0 collect
    proof { let c = ctx.cx(); let s = texts_of(self.names@); lemma_names(c, names@, s, s.len() as int); cat4(old(w).text(), c.ind, "Root["@, names_txt(s, s.len() as int), "]\n"@);
        assert("]"@ + "\n"@ =~= "]\n"@) by { reveal_strlit("]"); reveal_strlit("\n"); reveal_strlit("]\n"); }
        cat2(old(w).text() + c.ind + "Root["@ + names_txt(s, s.len() as int), "]"@, "\n"@); }
//@@ end
}
} // verus!
