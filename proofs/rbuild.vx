//@@ include names.vx
//@@ include proto.vx
verus! {
//@@ proto PlanRel r#type::Nullability join_rel::JoinType
use proto::*;
use proto::extensions::AdvancedExtension;
#[verifier::external_body]
pub struct SimpleExtensions { _p: () }
}
//@@ include parsers.vx
verus! {
#[verifier::external_body]
pub struct ExtensionParseError { _p: () }
//@@ item src/parser/errors.rs ParseContext
impl ParseContext {
//@@ fn src/parser/errors.rs ParseContext::new ret=r
    ensures r.line_no == line_no, r.line@ == line@
//@@ end
    #[verifier::external_body] fn clone(&self) -> (r: ParseContext) ensures r.line_no == self.line_no, r.line@ == self.line@ { unimplemented!() }
}
/// Why a handler failed; the registry's own kind is the unknown name.
enum ExtensionError { NotFound { name: String }, Other(()) }
//@@ item src/parser/errors.rs ParseError
impl ParseError {
    /// The line an error names.
    spec fn names(&self, n: int) -> bool { match *self {
        ParseError::Extension(c, _) => c.line_no == n, ParseError::ExtensionDetail(c, _) => c.line_no == n, ParseError::Plan(c, _) => c.line_no == n, ParseError::Expected { context, .. } => context.line_no == n,
        ParseError::NoRelationFound => false, ParseError::UnregisteredExtension { context, .. } => context.line_no == n, ParseError::RelationParse(c, _) => c.line_no == n, ParseError::ValidationError(c, _) => c.line_no == n,
        ParseError::Initial(c, _) => c.line_no == n, ParseError::Relation(c, _) => c.line_no == n } }
}
// ---- what the other units establish
//@@ trust the extension payload (crate Any) converts to the protobuf Any it stands for (unit eread)
#[verifier::external_body]
pub struct Any { _p: () }
uninterp spec fn payload(a: Any) -> crate::pbjson_types::Any;
trait VxInto { spec fn vx_any(self) -> crate::pbjson_types::Any; fn vx_into(self) -> (r: crate::pbjson_types::Any) ensures r == self.vx_any(); }
impl VxInto for Any { closed spec fn vx_any(self) -> crate::pbjson_types::Any { payload(self) } #[verifier::external_body] fn vx_into(self) -> (r: crate::pbjson_types::Any) { unimplemented!() } }
#[verifier::external_body]
pub struct ExtensionValue { _p: () }
#[verifier::external_body]
pub struct ExtensionColumn { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { p: core::marker::PhantomData<(K, V)> }
//@@ item src/extensions/args.rs ExtensionArgs
//@@ item src/extensions/args.rs AddendumKind derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/parser/extensions.rs ExtensionRelationKind derive=Clone,Copy,PartialEq,Eq,Structural
//@@ item src/parser/extensions.rs ExtensionInvocation
//@@ item src/parser/extensions.rs AddendumInvocation
//@@ trust relations, extension lines and addenda read as their units establish (rels, eread): abstract here
uninterp spec fn made_of<T>(x: &SimpleExtensions, t: Tree, r: T) -> bool;
uninterp spec fn not_made<T>(x: &SimpleExtensions, t: Tree) -> bool;
spec fn columns_of(t: Tree) -> Seq<Tree> { if t.kids.len() == 3 { t.kids[2].kids } else { seq![] } }
//@@ def scoped
impl ScopedParsePair for $1 {
    spec fn at() -> Rule { Rule::$2 }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: $1) -> bool { made_of::<$1>(x, t, r) && $3 }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { not_made::<$1>(x, t) }
    #[verifier::external_body]
    fn rule() -> (r: Rule) { unimplemented!() }
    #[verifier::external_body]
    fn message() -> &'static str { unimplemented!() }
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
//@@ enddef
//@@ use scoped AddendumInvocation ; addendum ; true
//@@ use scoped ExtensionInvocation ; extension_relation ; r.args.output_columns@.len() == columns_of(t).len()
/// A relation kind's own line, given its inputs and their width (contracts of unit rels).
trait RelationParsePair: Sized {
    spec fn at() -> Rule;
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: Self, n: int) -> bool;
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool;
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool;
    fn rule() -> (r: Rule) ensures r == Self::at();
    fn message() -> &'static str;
    fn parse_pair_with_context(extensions: &SimpleExtensions, pair: Pair<Rule>, input_children: Vec<Rel>, input_field_count: usize) -> (r: Result<(Self, usize), MessageParseError>)
        requires ok(pair@), pair@.rule == Self::at(), input_field_count <= input_children@.len() * 0x40000000
        ensures match r { Ok((v, n)) => Self::reads(extensions, pair@, input_children@, input_field_count as int, v, n as int) && !Self::fails(extensions, pair@, input_children@, input_field_count as int) && n <= 0x40000000,
            Err(_) => Self::fails(extensions, pair@, input_children@, input_field_count as int) };
    fn into_rel(self, adv_ext: Option<AdvancedExtension>) -> (r: Rel) ensures self.made(adv_ext, r);
}
uninterp spec fn rel_reads<T>(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: T, n: int) -> bool;
uninterp spec fn rel_fails<T>(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool;
uninterp spec fn rel_made<T>(v: T, adv: Option<AdvancedExtension>, r: Rel) -> bool;
//@@ def relkind
impl RelationParsePair for $1 {
    spec fn at() -> Rule { Rule::$2 }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: $1, n: int) -> bool { rel_reads::<$1>(x, t, kids, width, r, n) }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { rel_fails::<$1>(x, t, kids, width) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { rel_made::<$1>(self, adv, r) }
    #[verifier::external_body]
    fn rule() -> (r: Rule) { unimplemented!() }
    #[verifier::external_body]
    fn message() -> &'static str { unimplemented!() }
    #[verifier::external_body]
    fn parse_pair_with_context(extensions: &SimpleExtensions, pair: Pair<Rule>, input_children: Vec<Rel>, input_field_count: usize) -> (r: Result<(Self, usize), MessageParseError>) { unimplemented!() }
    #[verifier::external_body]
    fn into_rel(self, adv_ext: Option<AdvancedExtension>) -> (r: Rel) { unimplemented!() }
}
//@@ enddef
//@@ item src/parser/relations.rs VirtualReadRel
//@@ use relkind VirtualReadRel ; virtual_read_relation
//@@ use relkind ReadRel ; read_relation
//@@ use relkind FilterRel ; filter_relation
//@@ use relkind ProjectRel ; project_relation
//@@ use relkind AggregateRel ; aggregate_relation
//@@ use relkind SortRel ; sort_relation
//@@ use relkind FetchRel ; fetch_relation
//@@ use relkind JoinRel ; join_relation
//@@ use relkind CrossRel ; cross_relation
uninterp spec fn join_of(s: Seq<char>) -> join_rel::JoinType;
uninterp spec fn join_is(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: JoinRel, n: int) -> bool;
uninterp spec fn join_fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>) -> bool;
uninterp spec fn join_width(j: join_rel::JoinType, l: int, r: int) -> int;
#[verifier::external_body]
fn join_output_width(join_type: join_rel::JoinType, left_columns: usize, right_columns: usize) -> (r: usize)
    requires left_columns <= 0x40000000, right_columns <= 0x40000000
    ensures r == join_width(join_type, left_columns as int, right_columns as int) { unimplemented!() }
#[verifier::external_body]
fn parse_join_relation_pair<F: Fn(join_rel::JoinType) -> usize>(extensions: &SimpleExtensions, pair: Pair<Rule>, input_children: Vec<Rel>, direct_width: F) -> (r: Result<(JoinRel, usize), MessageParseError>)
    requires ok(pair@), pair@.rule == Rule::join_relation, input_children@.len() == 2 ==> forall|j: join_rel::JoinType| call_requires(direct_width, (j,))
    ensures match r { Ok((v, n)) => input_children@.len() == 2 && !join_fails(extensions, pair@, input_children@) && n <= 0x40000000
            && exists|w: usize| #[trigger] call_ensures(direct_width, (join_of(pair@.kids[0].text),), w) && join_is(extensions, pair@, input_children@, w as int, v, n as int),
        Err(_) => join_fails(extensions, pair@, input_children@) } { unimplemented!() }
uninterp spec fn set_is(t: Tree, kids: Seq<Rel>, counts: Seq<usize>, adv: Option<AdvancedExtension>, r: Rel) -> bool;
uninterp spec fn set_fails(kids: Seq<Rel>, counts: Seq<usize>) -> bool;
#[verifier::external_body]
fn parse_set_relation_pair(pair: Pair<Rule>, input_children: Vec<Rel>, child_field_counts: &[usize], advanced_extension: Option<AdvancedExtension>) -> (r: Result<(Rel, usize), MessageParseError>)
    requires ok(pair@), pair@.rule == Rule::set_relation, child_field_counts@.len() == input_children@.len()
    ensures match r { Ok((v, n)) => !set_fails(input_children@, child_field_counts@) && set_is(pair@, input_children@, child_field_counts@, advanced_extension, v) && n == pair@.kids[1].kids.len() && n <= 0x40000000,
        Err(_) => set_fails(input_children@, child_field_counts@) } { unimplemented!() }
uninterp spec fn ext_read_is(x: &SimpleExtensions, t: Tree, detail: Any, adv: Option<AdvancedExtension>, r: Rel, n: int) -> bool;
uninterp spec fn columns_fail(x: &SimpleExtensions, t: Tree) -> bool;
//@@ item src/parser/relations.rs ExtensionReadRel
impl ExtensionReadRel {
    #[verifier::external_body]
    fn parse_pair_with_detail(extensions: &SimpleExtensions, pair: Pair<Rule>, input_children: Vec<Rel>, input_field_count: usize, detail: Any, advanced_extension: Option<AdvancedExtension>) -> (r: Result<(Rel, usize), MessageParseError>)
    requires ok(pair@), pair@.rule == Rule::extension_read_relation
    ensures match r { Ok((v, n)) => input_children@.len() == 0 && input_field_count == 0 && !columns_fail(extensions, pair@.kids[0]) && ext_read_is(extensions, pair@, detail, advanced_extension, v, n as int) && n <= 0x40000000,
        Err(_) => input_children@.len() > 0 || input_field_count != 0 || columns_fail(extensions, pair@.kids[0]) } { unimplemented!() }
}
spec fn inputs_allowed(k: ExtensionRelationKind, n: int) -> bool { match k { ExtensionRelationKind::Leaf => n == 0, ExtensionRelationKind::Single => n == 1, ExtensionRelationKind::Multi => true } }
uninterp spec fn ext_rel_is(k: ExtensionRelationKind, d: Option<Any>, c: Seq<Rel>, r: Rel) -> bool;
impl ExtensionRelationKind {
    #[verifier::external_body]
    fn validate_child_count(self, child_count: usize) -> (r: Result<(), String>) ensures r is Ok <==> inputs_allowed(self, child_count as int) { unimplemented!() }
    #[verifier::external_body]
    fn create_rel(self, detail: Option<Any>, children: Vec<Rel>) -> (r: Rel) ensures ext_rel_is(self, detail, children@, r) { unimplemented!() }
}
// ---- payloads from the registry
//@@ trust what a handler of the registry answers is arbitrary (the registry itself: unit registry)
#[verifier::external_body]
pub struct ExtensionRegistry { _p: () }
/// The registry's answer for a name of a kind (None: extension relations) with these arguments.
uninterp spec fn answers(g: &ExtensionRegistry, kind: Option<AddendumKind>, name: Seq<char>, args: ExtensionArgs, r: Result<Any, ExtensionError>) -> bool;
impl ExtensionRegistry {
    #[verifier::external_body] fn parse_extension(&self, name: &str, args: &ExtensionArgs) -> (r: Result<Any, ExtensionError>) ensures answers(self, None, name@, *args, r) { unimplemented!() }
    #[verifier::external_body] fn parse_enhancement(&self, name: &str, args: &ExtensionArgs) -> (r: Result<Any, ExtensionError>) ensures answers(self, Some(AddendumKind::Enhancement), name@, *args, r) { unimplemented!() }
    #[verifier::external_body] fn parse_optimization(&self, name: &str, args: &ExtensionArgs) -> (r: Result<Any, ExtensionError>) ensures answers(self, Some(AddendumKind::Optimization), name@, *args, r) { unimplemented!() }
    #[verifier::external_body] fn parse_extension_table(&self, name: &str, args: &ExtensionArgs) -> (r: Result<Any, ExtensionError>) ensures answers(self, Some(AddendumKind::ExtensionTable), name@, *args, r) { unimplemented!() }
}
/// A failed lookup is an error at this line: unknown name or the handler's reason.
spec fn refused(g: &ExtensionRegistry, kind: Option<AddendumKind>, name: Seq<char>, args: ExtensionArgs, line: int, e: ParseError) -> bool {
    e.names(line) && exists|f: ExtensionError| #[trigger] answers(g, kind, name, args, Err(f)) && match f { ExtensionError::NotFound { .. } => e matches ParseError::UnregisteredExtension { name: n, .. } && n@ == name, _ => e is ExtensionDetail && e->ExtensionDetail_1 == f }
}
//@@ item src/parser/relations.rs RelationParsingContext
impl<'a> RelationParsingContext<'a> {
//@@ fn src/parser/relations.rs RelationParsingContext::resolve_extension_detail ret=r
    ensures match r { Ok(d) => d is Some && answers(self.registry, None, extension_name@, *extension_args, Ok(d->0)), Err(e) => refused(self.registry, None, extension_name@, *extension_args, self.line_no as int, e) }
//@@ end
//@@ fn src/parser/relations.rs RelationParsingContext::resolve_addendum_detail ret=r
    ensures match r { Ok(d) => answers(self.registry, Some(kind), name@, *args, Ok(d)), Err(e) => refused(self.registry, Some(kind), name@, *args, self.line_no as int, e) }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(self.line_no as int), match err { ExtensionError::NotFound { .. } => vx_r matches ParseError::UnregisteredExtension { name: n, .. } && n@ == name@, _ => vx_r is ExtensionDetail && vx_r->ExtensionDetail_1 == err }
//@@ end
}
// ---- addenda
//@@ item src/parser/structural.rs Addendum
//@@ item src/parser/structural.rs RelationNode
//@@ item src/parser/structural.rs ParsedChild
//@@ item src/parser/structural.rs ParsedAddendum
//@@ item src/parser/structural.rs Addenda
//@@ item src/parser/structural.rs RelationContext
} // verus!
//@@ include nodeshape.vx
verus! {
type PA<'a> = ParsedAddendum<'a>;
spec fn addendum_is(x: &SimpleExtensions, a: Addendum, p: ParsedAddendum) -> bool { p.line_no == a.line_no && AddendumInvocation::reads(x, a.pair@, p.invocation) }
/// d is what the registry made of the addendum.
spec fn resolves(g: &ExtensionRegistry, p: ParsedAddendum, d: Any) -> bool { answers(g, Some(p.invocation.kind), p.invocation.name@, p.invocation.args, Ok(d)) }
spec fn unresolved(g: &ExtensionRegistry, p: ParsedAddendum, e: ParseError) -> bool { refused(g, Some(p.invocation.kind), p.invocation.name@, p.invocation.args, p.line_no as int, e) }
impl<'a> ParsedAddendum<'a> {
//@@ fn src/parser/structural.rs ParsedAddendum::parse ret=r
    requires ok(addendum.pair@), addendum.pair@.rule == Rule::addendum
    ensures match r { Ok(p) => addendum_is(extensions, addendum, p), Err(e) => e.names(addendum.line_no as int) && AddendumInvocation::fails(extensions, addendum.pair@) }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ end
//@@ fn src/parser/structural.rs ParsedAddendum::context ret=r
    ensures r.line_no == self.line_no
//@@ end
//@@ fn src/parser/structural.rs ParsedAddendum::relation_context ret=r
    ensures r.line_no == self.line_no, r.registry == registry
//@@ end
//@@ fn src/parser/structural.rs ParsedAddendum::resolve_detail ret=r
    ensures match r { Ok(d) => resolves(registry, *self, d), Err(e) => unresolved(registry, *self, e) }
//@@ end
}
spec fn of_kind<'a>(s: Seq<PA<'a>>, k: AddendumKind) -> Seq<PA<'a>>
    decreases s.len()
{ if s.len() == 0 { s } else { let r = of_kind(s.drop_last(), k); if s.last().invocation.kind == k { r.push(s.last()) } else { r } } }
spec fn but_kind<'a>(s: Seq<PA<'a>>, k: AddendumKind) -> Seq<PA<'a>>
    decreases s.len()
{ if s.len() == 0 { s } else { let r = but_kind(s.drop_last(), k); if s.last().invocation.kind == k { r } else { r.push(s.last()) } } }
spec fn detail_is(g: &ExtensionRegistry, p: ParsedAddendum, v: crate::pbjson_types::Any) -> bool { exists|d: Any| #[trigger] resolves(g, p, d) && v == payload(d) }
spec fn details_are(g: &ExtensionRegistry, s: Seq<PA>, v: Seq<crate::pbjson_types::Any>) -> bool { s.len() == v.len() && forall|i: int| #![trigger v[i]] 0 <= i < s.len() ==> detail_is(g, s[i], v[i]) }
spec fn enh_is(g: &ExtensionRegistry, s: Seq<PA>, v: Option<crate::pbjson_types::Any>) -> bool { match v { Some(d) => s.len() == 1 && detail_is(g, s[0], d), None => s.len() == 0 } }
/// The advanced extension the + Enh and + Opt lines of a relation state: at most one enhancement, the optimizations in order, nothing if there are no lines.
spec fn advanced_is(g: &ExtensionRegistry, s: Seq<PA>, r: Option<AdvancedExtension>) -> bool {
    of_kind(s, AddendumKind::ExtensionTable).len() == 0 && match r {
        Some(a) => s.len() > 0 && enh_is(g, of_kind(s, AddendumKind::Enhancement), a.enhancement) && details_are(g, of_kind(s, AddendumKind::Optimization), a.optimization@),
        None => s.len() == 0 }
}
/// An error at the line of one of these addenda.
spec fn at_addendum(s: Seq<PA>, e: ParseError) -> bool { exists|i: int| 0 <= i < s.len() && e.names((#[trigger] s[i]).line_no as int) }
proof fn lemma_kinds(s: Seq<PA>)
    ensures of_kind(s, AddendumKind::Enhancement).len() + of_kind(s, AddendumKind::Optimization).len() + of_kind(s, AddendumKind::ExtensionTable).len() == s.len(),
        of_kind(s, AddendumKind::ExtensionTable).len() + but_kind(s, AddendumKind::ExtensionTable).len() == s.len(),
    decreases s.len()
{ if s.len() > 0 { lemma_kinds(s.drop_last()); } }
/// What is left without a kind are elements of the whole.
proof fn lemma_but(s: Seq<PA>, k: AddendumKind)
    ensures forall|i: int| 0 <= i < but_kind(s, k).len() ==> s.contains(#[trigger] but_kind(s, k)[i])
    decreases s.len()
{ if s.len() > 0 { lemma_but(s.drop_last(), k); assert forall|i: int| 0 <= i < but_kind(s, k).len() implies s.contains(#[trigger] but_kind(s, k)[i]) by { let b = but_kind(s.drop_last(), k); if i < b.len() { let j = choose|j: int| 0 <= j < s.len() - 1 && s.drop_last()[j] == b[i]; assert(s[j] == b[i]); } else { assert(s[s.len() - 1] == but_kind(s, k)[i]); } } } }
trait VxFirst<T> { spec fn vx_all(&self) -> Seq<T>; fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(p) => self.vx_all().len() > 0 && *p == self.vx_all()[0], None => self.vx_all().len() == 0 }; }
impl<T> VxFirst<T> for Vec<T> { closed spec fn vx_all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() } }
impl<'a> Addenda<'a> {
//@@ fn src/parser/structural.rs Addenda::parse ret=r lib=into_iter
    requires forall|i: int| 0 <= i < addenda@.len() ==> ok((#[trigger] addenda@[i]).pair@) && addenda@[i].pair@.rule == Rule::addendum
    ensures match r { Ok(a) => a.items@.len() == addenda@.len() && forall|i: int| 0 <= i < addenda@.len() ==> addendum_is(extensions, addenda@[i], #[trigger] a.items@[i]),
        Err(e) => exists|i: int| 0 <= i < addenda@.len() && e.names((#[trigger] addenda@[i]).line_no as int) }
//@@ closure 0 ret=Result<ParsedAddendum<'a>,ParseError>
    requires ok(addendum.pair@), addendum.pair@.rule == Rule::addendum
    ensures match vx_r { Ok(p) => addendum_is(extensions, addendum, p), Err(e) => e.names(addendum.line_no as int) }
//@@ end
//@@ fn src/parser/structural.rs Addenda::first ret=r lib=first
    ensures match r { Some(p) => self.items@.len() > 0 && *p == self.items@[0], None => self.items@.len() == 0 }
//@@ end
//@@ fn src/parser/structural.rs Addenda::reject_all ret=r
    ensures match r { Ok(_) => self.items@.len() == 0, Err(e) => at_addendum(self.items@, e) }
//@@ at start
    proof { if self.items@.len() > 0 { let l = self.items@[0].line_no; } }
//@@ end
//@@ fn src/parser/structural.rs Addenda::into_standard_advanced_extension ret=r lib=into
    ensures match r { Ok(v) => advanced_is(registry, self.items@, v), Err(e) => at_addendum(self.items@, e) }
//@@ at start
    let ghost s = self.items@;
    proof { assert(s.take(0) =~= Seq::empty()); assert(s.take(s.len() as int) =~= s); lemma_kinds(s); }
//@@ loop 0 seq
    invariant
        __s0 == s, s == self.items@, of_kind(s.take(__n0), AddendumKind::ExtensionTable).len() == 0,
        enh_is(registry, of_kind(s.take(__n0), AddendumKind::Enhancement), enhancement), details_are(registry, of_kind(s.take(__n0), AddendumKind::Optimization), optimizations@),
//@@ at loop 0 start
    proof { assert(s.take(__n0).drop_last() =~= s.take(__n0 - 1)); assert(s.take(__n0).last() == s[__n0 - 1]); assert(addendum == s[__n0 - 1]); }
//@@ end
//@@ fn src/parser/structural.rs Addenda::into_extension_read_parts ret=r
    ensures match r {
        Ok((d, v)) => of_kind(self.items@, AddendumKind::ExtensionTable).len() == 1 && resolves(registry, of_kind(self.items@, AddendumKind::ExtensionTable)[0], d) && advanced_is(registry, but_kind(self.items@, AddendumKind::ExtensionTable), v),
        Err(e) => e.names(relation_context.line_no as int) || at_addendum(self.items@, e) }
//@@ at start
    let ghost s = self.items@; let ghost k = AddendumKind::ExtensionTable;
    proof { assert(s.take(0) =~= Seq::empty()); assert(s.take(s.len() as int) =~= s); lemma_but(s, k); }
//@@ loop 0 seq
    invariant
        __s0 == s, s == self.items@, k == AddendumKind::ExtensionTable, advanced_addenda@ == but_kind(s.take(__n0), k),
        match extension_table { Some(p) => of_kind(s.take(__n0), k) == seq![p] && s.contains(p), None => of_kind(s.take(__n0), k).len() == 0 },
//@@ at loop 0 start
    proof { assert(s.take(__n0).drop_last() =~= s.take(__n0 - 1)); assert(s.take(__n0).last() == s[__n0 - 1]); assert(addendum == s[__n0 - 1]); }
//@@ at loop 0 end
    proof { if extension_table is Some { assert(of_kind(s.take(__n0), k) =~= seq![extension_table->0]); } }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(relation_context.line_no as int)
//@@ end
}
// ---- inputs
//@@ trust usize has 64 bits
global size_of usize == 8;
spec fn rels_of(s: Seq<ParsedChild>) -> Seq<Rel> { Seq::new(s.len(), |i: int| s[i].rel) }
spec fn widths(s: Seq<ParsedChild>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].field_count) }
spec fn narrow(s: Seq<ParsedChild>) -> bool { s.len() < 0x40000000 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).field_count <= 0x40000000 }
proof fn lemma_total(s: Seq<usize>, b: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= b
    ensures 0 <= total(s) <= s.len() * b
    decreases s.len()
{ if s.len() > 0 { lemma_total(s.drop_last(), b); assert(s.len() * b == (s.len() - 1) * b + b) by (nonlinear_arith) requires s.len() > 0; } }
proof fn lemma_width(s: Seq<ParsedChild>)
    requires narrow(s)
    ensures 0 <= total(widths(s)) <= s.len() * 0x40000000 <= usize::MAX
{ lemma_total(widths(s), 0x40000000); }
impl<'a> RelationContext<'a> {
//@@ fn src/parser/structural.rs RelationContext::input_field_count ret=r lib=iter
    requires narrow(self.children@)
    ensures r == total(widths(self.children@))
//@@ at start
    proof { lemma_width(self.children@); assert forall|s: Seq<usize>| s.len() == self.children@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == self.children@[i].field_count) implies #[trigger] total(s) == total(widths(self.children@)) by { assert(s =~= widths(self.children@)); } }
//@@ closure 0 ret=usize
    ensures vx_r == c.field_count
//@@ end
//@@ fn src/parser/structural.rs RelationContext::child_field_counts ret=r lib=iter
//@@ sub impl Iterator < Item = usize > + '_ => VxIter<usize>
    ensures r@ =~= widths(self.children@)
//@@ closure 0 ret=usize
    ensures vx_r == c.field_count
//@@ end
//@@ fn src/parser/structural.rs RelationContext::as_parse_context ret=r
    ensures r.line_no == self.line_no
//@@ end
}
//@@ fn src/parser/structural.rs into_rels ret=r lib=into_iter
    ensures r@ =~= rels_of(children@)
//@@ closure 0 ret=Rel
    ensures vx_r == c.rel
//@@ end
// ---- one relation line
spec fn std_rel<T: RelationParsePair>(x: &SimpleExtensions, g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    exists|v: T, adv: Option<AdvancedExtension>| #[trigger] v.made(adv, r) && advanced_is(g, adds, adv) && T::reads(x, t, rels_of(kids), total(widths(kids)), v, n) && !T::fails(x, t, rels_of(kids), total(widths(kids)))
}
spec fn join_line(x: &SimpleExtensions, g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    kids.len() == 2 && !join_fails(x, t, rels_of(kids))
    && exists|v: JoinRel, adv: Option<AdvancedExtension>| #[trigger] v.made(adv, r) && advanced_is(g, adds, adv) && join_is(x, t, rels_of(kids), join_width(join_of(t.kids[0].text), kids[0].field_count as int, kids[1].field_count as int), v, n)
}
spec fn set_line(g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    !set_fails(rels_of(kids), widths(kids)) && n == t.kids[1].kids.len() && exists|adv: Option<AdvancedExtension>| #[trigger] advanced_is(g, adds, adv) && set_is(t, rels_of(kids), widths(kids), adv, r)
}
/// An extension line: no addenda, the inputs its kind allows, its arguments as written given to the handler of its name, as many columns as written.
spec fn ext_line(x: &SimpleExtensions, g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    adds.len() == 0 && n == columns_of(t).len()
    && exists|v: ExtensionInvocation, d: Any| #![trigger answers(g, None, v.name@, v.args, Ok(d))] ExtensionInvocation::reads(x, t, v) && answers(g, None, v.name@, v.args, Ok(d)) && inputs_allowed(v.relation_kind, kids.len() as int) && ext_rel_is(v.relation_kind, Some(d), rels_of(kids), r)
}
/// An extension read: exactly one + Ext line, whose payload is stored; the others are its advanced extension.
spec fn ext_read_line(x: &SimpleExtensions, g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    let tables = of_kind(adds, AddendumKind::ExtensionTable);
    kids.len() == 0 && tables.len() == 1 && !columns_fail(x, t.kids[0])
    && exists|d: Any, adv: Option<AdvancedExtension>| #[trigger] ext_read_is(x, t, d, adv, r, n) && resolves(g, tables[0], d) && advanced_is(g, but_kind(adds, AddendumKind::ExtensionTable), adv)
}
spec fn line_rel(x: &SimpleExtensions, g: &ExtensionRegistry, t: Tree, kids: Seq<ParsedChild>, adds: Seq<PA>, r: Rel, n: int) -> bool {
    match t.rule {
        Rule::extension_read_relation => ext_read_line(x, g, t, kids, adds, r, n), Rule::extension_relation => ext_line(x, g, t, kids, adds, r, n),
        Rule::join_relation => join_line(x, g, t, kids, adds, r, n), Rule::set_relation => set_line(g, t, kids, adds, r, n),
        Rule::virtual_read_relation => std_rel::<VirtualReadRel>(x, g, t, kids, adds, r, n), Rule::read_relation => std_rel::<ReadRel>(x, g, t, kids, adds, r, n),
        Rule::filter_relation => std_rel::<FilterRel>(x, g, t, kids, adds, r, n), Rule::project_relation => std_rel::<ProjectRel>(x, g, t, kids, adds, r, n),
        Rule::aggregate_relation => std_rel::<AggregateRel>(x, g, t, kids, adds, r, n), Rule::sort_relation => std_rel::<SortRel>(x, g, t, kids, adds, r, n),
        Rule::fetch_relation => std_rel::<FetchRel>(x, g, t, kids, adds, r, n), Rule::cross_relation => std_rel::<CrossRel>(x, g, t, kids, adds, r, n),
        _ => false }
}
impl<'a> RelationContext<'a> {
    spec fn fine(&self) -> bool { ok(self.pair@) && narrow(self.children@) }
    spec fn gives(&self, x: &SimpleExtensions, g: &ExtensionRegistry, r: Result<(Rel, usize), ParseError>) -> bool {
        match r { Ok((v, n)) => line_rel(x, g, self.pair@, self.children@, self.addenda.items@, v, n as int) && n <= 0x40000000, Err(e) => e.names(self.line_no as int) || at_addendum(self.addenda.items@, e) }
    }
}
//@@ item src/parser/structural.rs TreeBuilder
//@@ item src/parser/structural.rs RelationParser
/// A node whose tree and inputs the conversion may rely on.
spec fn node_fine(n: RelationNode) -> bool { node_shape(n) && node_sized(n) }
/// The line belongs to the node: its own, an addendum's, or one below it.
spec fn has_line(n: RelationNode, l: int) -> bool
    decreases n
{ n.line_no == l || (exists|i: int| 0 <= i < n.addenda@.len() && (#[trigger] n.addenda@[i]).line_no == l) || exists|i: int| 0 <= i < n.children@.len() && has_line(#[trigger] n.children@[i], l) }
spec fn error_in(n: RelationNode, e: ParseError) -> bool { exists|l: int| #[trigger] has_line(n, l) && e.names(l) }
/// r is the relation a node denotes: its own line, applied to the relations of exactly its children in their order, with exactly its addenda.
spec fn denotes(x: &SimpleExtensions, g: &ExtensionRegistry, n: RelationNode, r: Rel, w: int) -> bool
    decreases n
{
    exists|kids: Seq<ParsedChild>, adds: Seq<PA>| #[trigger] line_rel(x, g, n.pair@, kids, adds, r, w) && kids.len() == n.children@.len() && adds.len() == n.addenda@.len()
        && (forall|i: int| 0 <= i < adds.len() ==> addendum_is(x, n.addenda@[i], #[trigger] adds[i]))
        && (forall|i: int| #![trigger kids[i]] 0 <= i < n.children@.len() ==> denotes(x, g, n.children@[i], kids[i].rel, kids[i].field_count as int))
}
/// What a top-level line denotes: a plain relation, or a root with its written names and exactly one input.
spec fn plan_is(x: &SimpleExtensions, g: &ExtensionRegistry, n: RelationNode, p: PlanRel) -> bool {
    p.rel_type is Some && if n.pair@.rule != Rule::root_relation { p.rel_type->0 is Rel && exists|w: int| #[trigger] denotes(x, g, n, p.rel_type->0->Rel_0, w) }
    else { p.rel_type->0 is Root && ({ let r = p.rel_type->0->Root_0; n.addenda@.len() == 0 && n.children@.len() == 1 && names_are(r.names@, n.pair@.kids[0].kids) && r.input is Some && exists|w: int| #[trigger] denotes(x, g, n.children@[0], r.input->0, w) }) }
}
spec fn names_are(v: Seq<String>, t: Seq<Tree>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] v[i])@ == name_of(t[i]) }
spec fn top_fine(n: RelationNode) -> bool { top_shape(n) && node_sized(n) }
impl<'a> RelationNode<'a> {
//@@ fn src/parser/structural.rs RelationNode::context ret=r
    ensures r.line_no == self.line_no
//@@ end
}
impl<'a> TreeBuilder<'a> {
    spec fn done(&self) -> Seq<RelationNode<'a>> { match self.current { Some(n) => self.completed@.push(n), None => self.completed@ } }
//@@ fn src/parser/structural.rs TreeBuilder::finish ret=r lib=take
    ensures r@ == old(self).done()
//@@ end
}
impl<'a> RelationParser<'a> {
//@@ fn src/parser/structural.rs RelationParser::parse_relation ret=r
    requires ctx.fine(), relation_rule(ctx.pair@.rule)
    ensures ctx.gives(extensions, registry, r)
//@@ end
//@@ fn src/parser/structural.rs RelationParser::parse_rel ret=r lib=iter
    requires ctx.fine(), ctx.pair@.rule == T::at()
    ensures match r { Ok((v, n)) => std_rel::<T>(extensions, registry, ctx.pair@, ctx.children@, ctx.addenda.items@, v, n as int) && n <= 0x40000000, Err(e) => e.names(ctx.line_no as int) || at_addendum(ctx.addenda.items@, e) }
//@@ at start
    proof { lemma_width(ctx.children@); assert forall|s: Seq<usize>| s.len() == ctx.children@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ctx.children@[i].field_count) implies #[trigger] total(s) == total(widths(ctx.children@)) by { assert(s =~= widths(ctx.children@)); } }
//@@ closure 0 ret=usize
    ensures vx_r == c.field_count
//@@ end
//@@ fn src/parser/structural.rs RelationParser::parse_join_relation ret=r
    requires ctx.fine(), ctx.pair@.rule == Rule::join_relation
    ensures ctx.gives(extensions, registry, r)
//@@ closure 0 ret=usize
    requires child_field_counts@.len() == 2, child_field_counts@[0] <= 0x40000000, child_field_counts@[1] <= 0x40000000 ensures vx_r == join_width(join_type, child_field_counts@[0] as int, child_field_counts@[1] as int)
//@@ closure 1 ret=(Rel,usize)
    ensures __vx0.0.made(advanced_extension, vx_r.0), vx_r.1 == __vx0.1
//@@ closure 2 ret=ParseError
    ensures vx_r.names(context.line_no as int)
//@@ end
//@@ fn src/parser/structural.rs RelationParser::parse_set_relation ret=r
    requires ctx.fine(), ctx.pair@.rule == Rule::set_relation
    ensures match r { Ok((v, n)) => set_line(registry, ctx.pair@, ctx.children@, ctx.addenda.items@, v, n as int) && n <= 0x40000000, Err(e) => e.names(ctx.line_no as int) || at_addendum(ctx.addenda.items@, e) }
//@@ closure 0 ret=ParseError
    ensures vx_r.names(context.line_no as int)
//@@ end
//@@ fn src/parser/structural.rs RelationParser::parse_extension_relation ret=r lib=to_string
    requires ctx.fine(), ctx.pair@.rule == Rule::extension_relation
    ensures ctx.gives(extensions, registry, r)
//@@ at start
    proof { g_extension_relation(ctx.pair@); }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ closure 1 ret=ParseError
    ensures vx_r.names(line_no as int)
//@@ end
//@@ fn src/parser/structural.rs RelationParser::parse_extension_read_relation ret=r
    requires ctx.fine(), ctx.pair@.rule == Rule::extension_read_relation
    ensures ctx.gives(extensions, registry, r)
//@@ closure 0 ret=ParseError
    ensures vx_r.names(context.line_no as int)
//@@ end
//@@ fn src/parser/structural.rs RelationParser::build_rel ret=r
    requires node_fine(node)
    ensures match r { Ok((v, n)) => denotes(extensions, registry, node, v, n as int) && n <= 0x40000000, Err(e) => error_in(node, e) }
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ at start
    let ghost n0 = node;
//@@ loop 0 seq
    invariant
        __s0 == n0.children@, node_fine(n0), n0 == node, node.addenda == n0.addenda, node.pair == n0.pair, node.line_no == n0.line_no, children@.len() == __n0,
        forall|i: int| 0 <= i < __n0 ==> denotes(extensions, registry, n0.children@[i], (#[trigger] children@[i]).rel, children@[i].field_count as int) && children@[i].field_count <= 0x40000000,
//@@ at loop 0 start
    proof { assert(child == n0.children@[__n0 - 1]); assert forall|l: int| #[trigger] has_line(child, l) implies has_line(n0, l) by { assert(has_line(n0.children@[__n0 - 1], l)); } }
//@@ at before 0 parse
    proof {
        assert(addenda_shape(n0.addenda@)); assert forall|i: int| 0 <= i < n0.addenda@.len() implies ok((#[trigger] n0.addenda@[i]).pair@) && n0.addenda@[i].pair@.rule == Rule::addendum by { assert(addendum_shape(n0.addenda@[i])); }
        assert forall|e: ParseError| (exists|i: int| 0 <= i < n0.addenda@.len() && e.names((#[trigger] n0.addenda@[i]).line_no as int)) implies #[trigger] error_in(n0, e) by { let i = choose|i: int| 0 <= i < n0.addenda@.len() && e.names((#[trigger] n0.addenda@[i]).line_no as int); assert(has_line(n0, n0.addenda@[i].line_no as int)); }
        assert forall|e: ParseError| e.names(n0.line_no as int) implies #[trigger] error_in(n0, e) by { assert(has_line(n0, n0.line_no as int)); }
    }
//@@ at tail
    proof { assert forall|e: ParseError| at_addendum(addenda.items@, e) implies #[trigger] error_in(n0, e) by { let i = choose|i: int| 0 <= i < addenda.items@.len() && e.names((#[trigger] addenda.items@[i]).line_no as int); assert(e.names(n0.addenda@[i].line_no as int)); } }
//@@ end
//@@ fn src/parser/structural.rs RelationParser::build_plan_rel ret=r
    requires top_fine(node)
    ensures match r { Ok(p) => plan_is(extensions, registry, node, p), Err(e) => error_in(node, e) }
//@@ at start
    let ghost n0 = node;
    proof { assert(ok(node.pair@)); if node.pair@.rule == Rule::root_relation { g_root_relation(node.pair@); lemma_ok_kid(node.pair@, 0); assert(ok(node.pair@.kids[0])); g_root_name_list(node.pair@.kids[0]); } assert(has_line(n0, n0.line_no as int)); if n0.addenda@.len() > 0 { assert(has_line(n0, n0.addenda@[0].line_no as int)); } if n0.children@.len() == 1 { assert(node_fine(n0.children@[0])); assert forall|l: int| #[trigger] has_line(n0.children@[0], l) implies has_line(n0, l) by { } } }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=String
    requires ok(name_pair@), name_pair@.rule == Rule::name ensures vx_r@ == name_of(name_pair@)
//@@ at tail
    proof { assert(names_are(names@, n0.pair@.kids[0].kids)); assert(n0.addenda@.len() == 0); assert(n0.children@.len() == 1); assert(n0.pair@.rule == Rule::root_relation); assert(exists|w: int| #[trigger] denotes(extensions, registry, n0.children@[0], child, w)); let q = RelRoot { names: names, input: Some(child) }; assert(q.input->0 == child); assert(names_are(q.names@, n0.pair@.kids[0].kids)); assert(exists|w: int| #[trigger] denotes(extensions, registry, n0.children@[0], q.input->0, w)); assert(plan_is(extensions, registry, n0, PlanRel { rel_type: Some(plan_rel::RelType::Root(q)) })); }
//@@ end
//@@ fn src/parser/structural.rs RelationParser::build ret=r lib=into_iter
    requires forall|i: int| 0 <= i < self.tree.done().len() ==> top_fine(#[trigger] self.tree.done()[i])
    ensures match r {
        Ok(v) => v@.len() == self.tree.done().len() && forall|i: int| 0 <= i < v@.len() ==> plan_is(extensions, registry, self.tree.done()[i], #[trigger] v@[i]),
        Err(e) => exists|i: int| 0 <= i < self.tree.done().len() && error_in(#[trigger] self.tree.done()[i], e) }
//@@ closure 0 ret=Result<PlanRel,ParseError>
    requires top_fine(n) ensures match vx_r { Ok(p) => plan_is(extensions, registry, n, p), Err(e) => error_in(n, e) }
//@@ end
}
} // verus!
