//@@ include names.vx
//@@ include proto.vx
verus! {
//@@ proto Rel r#type::Nullability sort_field::SortDirection join_rel::JoinType set_rel::SetOp
use proto::*;
use proto::rel::RelType;
use proto::rel_common::{Direct, Emit, EmitKind};
use proto::extensions::AdvancedExtension;
use proto::expression::{Literal, RexType, nested};
use proto::expression::literal::LiteralType;
use proto::aggregate_rel::Grouping;
use proto::fetch_rel::{CountMode, OffsetMode};
use proto::sort_field::SortKind;
#[verifier::external_body]
pub struct SimpleExtensions { _p: () }
}
//@@ include parsers.vx
verus! {
} // verus!
//@@ include absread.vx
verus! {
// ---- names and columns
spec fn names_are(v: Seq<String>, t: Seq<Tree>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] v[i])@ == name_of(t[i]) }
//@@ item src/parser/relations.rs TableName
impl ParsePair for TableName {
    spec fn at() -> Rule { Rule::table_name }
    spec fn reads(t: Tree, r: TableName) -> bool { names_are(r.0@, t.kids) }
//@@ fn src/parser/relations.rs <ParsePair for TableName>::rule
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for TableName>::message
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for TableName>::parse_pair
//@@ at start
    proof { g_table_name(pair@); }
    let ghost k = pair@.kids;
    broadcast use lemma_ok_kid;
//@@ loop 0
    invariant
        ok(pair@), k == pair@.kids, forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).rule == Rule::name,
        names@.len() <= k.len(), iter.iter@ == k.skip(names@.len() as int), names_are(names@, k.take(names@.len() as int)),
    ensures names@.len() == k.len(), names_are(names@, k), iter.iter@.len() == 0
    decreases iter.iter@.len()
//@@ at loop 0 start
    proof { assert(k.take(k.len() as int) =~= k); }
//@@ end
}
//@@ item src/parser/relations.rs Column
spec fn column_is(x: &SimpleExtensions, t: Tree, c: Column) -> bool { c.name@ == name_of(t.kids[0]) && type_reads(x, t.kids[1], c.typ) }
impl ScopedParsePair for Column {
    spec fn at() -> Rule { Rule::named_column }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: Column) -> bool { column_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { type_fails(x, t.kids[1]) }
//@@ fn src/parser/relations.rs <ScopedParsePair for Column>::rule
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for Column>::message
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for Column>::parse_pair
//@@ at start
    proof { g_named_column(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
}
//@@ item src/parser/relations.rs NamedColumnList
spec fn columns_are(x: &SimpleExtensions, t: Tree, c: Seq<Column>) -> bool { c.len() == t.kids.len() && forall|i: int| 0 <= i < c.len() ==> column_is(x, t.kids[i], #[trigger] c[i]) }
spec fn columns_fail(x: &SimpleExtensions, t: Tree) -> bool { exists|i: int| 0 <= i < t.kids.len() && type_fails(x, (#[trigger] t.kids[i]).kids[1]) }
impl ScopedParsePair for NamedColumnList {
    spec fn at() -> Rule { Rule::named_column_list }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: NamedColumnList) -> bool { columns_are(x, t, r.0@) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { columns_fail(x, t) }
//@@ fn src/parser/relations.rs <ScopedParsePair for NamedColumnList>::rule
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for NamedColumnList>::message
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for NamedColumnList>::parse_pair
//@@ at start
    proof { g_named_column_list(pair@); }
    let ghost t = pair@;
    broadcast use lemma_ok_kid, axiom_pairs;
//@@ loop 0 seq
    invariant
        t == pair@, ok(t), forall|i: int| 0 <= i < t.kids.len() ==> (#[trigger] t.kids[i]).rule == Rule::named_column,
        __s0.len() == t.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t.kids[i],
        columns@.len() == __n0, forall|i: int| 0 <= i < __n0 ==> column_is(extensions, t.kids[i], #[trigger] columns@[i]),
        forall|i: int| 0 <= i < __n0 ==> !type_fails(extensions, (#[trigger] t.kids[i]).kids[1]),
//@@ end
}

// ---- output columns
/// The columns a reference list selects.
spec fn mapping(t: Seq<Tree>) -> Seq<i32> { Seq::new(t.len(), |i: int| field_of(t[i]) as i32) }
spec fn fields_are(m: Seq<i32>, t: Seq<Tree>) -> bool { m =~= mapping(t) }
spec fn identity(m: Seq<i32>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] m[i] == i }
/// The emitted columns m of n: all of them in order exactly when the emit is direct.
spec fn emit_is(e: EmitKind, m: Seq<i32>, n: int) -> bool { if identity(m, n) { e is Direct } else { e is Emit && e->Emit_0.output_mapping@ == m } }
spec fn plain(c: RelCommon) -> bool { c.hint is None && c.advanced_extension is None && c.emit_kind is Some }
spec fn common_is(c: Option<RelCommon>, m: Seq<i32>, n: int) -> bool { c is Some && plain(c->0) && emit_is(c->0.emit_kind->0, m, n) }
/// The columns a reference list t selects out of n.
spec fn emits(c: Option<RelCommon>, t: Tree, n: int) -> bool { common_is(c, mapping(t.kids), n) }
//@@ fn src/parser/relations.rs expect_one_child ret=r
    ensures match r { Ok(b) => input_children@.len() == 1 && *b == input_children@[0], Err(_) => input_children@.len() != 1 }
//@@ end
//@@ fn src/parser/relations.rs parse_output_mapping ret=r
    requires ok(pair@), pair@.rule == Rule::reference_list
    ensures fields_are(r@, pair@.kids), r@.len() < 0x40000000
//@@ at start
    proof { g_reference_list(pair@); }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=i32
    requires ok(p@), p@.rule == Rule::reference ensures vx_r == field_of(p@)
//@@ end
//@@ fn src/parser/relations.rs make_emit ret=r lib=iter pure
    requires output_mapping@.len() < 0x40000000
    ensures emit_is(r, output_mapping@, direct_output_count as int)
//@@ end
//@@ fn src/parser/relations.rs direct_common ret=r
    ensures plain(r), r.emit_kind->0 is Direct
//@@ end
//@@ fn src/parser/relations.rs parse_emit ret=r
    requires ok(reference_list@), reference_list@.rule == Rule::reference_list
    ensures emit_is(r.0, mapping(reference_list@.kids), direct_output_count as int), r.1 == reference_list@.kids.len(), r.1 < 0x40000000
//@@ end
//@@ fn src/parser/relations.rs parse_emit_suffix ret=r
    requires ok(suffix@), suffix@.rule == Rule::emit_suffix
    ensures match r {
        Some((e, n)) => suffix@.kids.len() > 0 && e is Emit && fields_are(e->Emit_0.output_mapping@, suffix@.kids[0].kids) && n == suffix@.kids[0].kids.len(),
        None => suffix@.kids.len() == 0 }
//@@ at start
    proof { g_emit_suffix(suffix@); }
    broadcast use lemma_ok_kid;
//@@ end
/// The output clause of a read: `=>` and a bare `+>` are direct, `+> .. |> refs` is exactly the written emit.
spec fn output_is(x: &SimpleExtensions, t: Tree, cols: Seq<Column>, c: Option<RelCommon>, n: int) -> bool {
    let o = t.kids[0]; columns_are(x, o.kids[0], cols) && c is Some && plain(c->0)
    && if o.rule == Rule::direct_output && o.kids[1].kids.len() > 0 { let e = c->0.emit_kind->0; e is Emit && fields_are(e->Emit_0.output_mapping@, o.kids[1].kids[0].kids) && n == o.kids[1].kids[0].kids.len() }
       else { c->0.emit_kind->0 is Direct && n == o.kids[0].kids.len() }
}
//@@ fn src/parser/relations.rs parse_output ret=r
    requires ok(output@), output@.rule == Rule::output
    ensures match r { Ok((cols, c, n)) => output_is(extensions, output@, cols@, c, n as int) && n < 0x40000000 && !columns_fail(extensions, output@.kids[0].kids[0]), Err(_) => columns_fail(extensions, output@.kids[0].kids[0]) }
//@@ at start
    proof { g_output(output@); let o = output@.kids[0]; if o.rule == Rule::implicit_output { g_implicit_output(o); } else { g_direct_output(o); g_emit_suffix(o.kids[1]); } }
    broadcast use lemma_ok_kid;
//@@ end
spec fn schema_is(s: Option<NamedStruct>, cols: Seq<Column>) -> bool {
    s is Some && s->0.names@.len() == cols.len() && s->0.r#struct is Some && s->0.r#struct->0.types@.len() == cols.len()
    && (forall|i: int| 0 <= i < cols.len() ==> #[trigger] s->0.names@[i] == cols[i].name) && (forall|i: int| 0 <= i < cols.len() ==> #[trigger] s->0.r#struct->0.types@[i] == cols[i].typ)
    && s->0.r#struct->0.nullability == 2 && s->0.r#struct->0.type_variation_reference == 0
}
//@@ fn src/parser/relations.rs build_named_struct ret=r lib=into_iter
    ensures schema_is(Some(r), columns@)
//@@ closure 0 ret=(String,Type)
    ensures vx_r.0 == c.name, vx_r.1 == c.typ
//@@ end

// ---- relations
/// What a relation's text means, given its inputs and how many columns they have together.
trait RelationParsePair: Sized {
    spec fn at() -> Rule;
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: Self, n: int) -> bool;
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool;
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool;
    fn rule() -> (r: Rule) ensures r == Self::at();
    fn message() -> &'static str;
    fn parse_pair_with_context(extensions: &SimpleExtensions, pair: Pair<Rule>, input_children: Vec<Rel>, input_field_count: usize) -> (r: Result<(Self, usize), MessageParseError>)
        requires ok(pair@), pair@.rule == Self::at(), input_field_count <= input_children@.len() * 0x40000000
        ensures match r { Ok((v, n)) => Self::reads(extensions, pair@, input_children@, input_field_count as int, v, n as int) && !Self::fails(extensions, pair@, input_children@, input_field_count as int) && n <= 0x40000000,
            Err(_) => Self::fails(extensions, pair@, input_children@, input_field_count as int) };
    fn into_rel(self, adv_ext: Option<AdvancedExtension>) -> (r: Rel) ensures self.made(adv_ext, r);
}
spec fn named_table(r: ReadRel, names: Seq<Tree>) -> bool {
    r.read_type is Some && r.read_type->0 is NamedTable && names_are(r.read_type->0->NamedTable_0.names@, names) && r.read_type->0->NamedTable_0.advanced_extension is None
}
/// Fields of a read that the text does not set.
spec fn bare_read(r: ReadRel) -> bool { r.filter is None && r.best_effort_filter is None && r.projection is None && r.advanced_extension is None }
impl RelationParsePair for ReadRel {
    spec fn at() -> Rule { Rule::read_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: ReadRel, n: int) -> bool {
        bare_read(r) && named_table(r, t.kids[0].kids) && exists|cols: Seq<Column>| #[trigger] output_is(x, t.kids[1], cols, r.common, n) && schema_is(r.base_schema, cols)
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() > 0 || width != 0 || columns_fail(x, t.kids[1].kids[0].kids[0]) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Read && *(r.rel_type->0->Read_0) == (ReadRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for ReadRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ReadRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ReadRel>::parse_pair_with_context
//@@ at start
    proof { g_read_relation(pair@); g_output(pair@.kids[1]); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ReadRel>::into_rel
//@@ end
}

// ---- expression lists
spec fn exprs_are(x: &SimpleExtensions, t: Seq<Tree>, v: Seq<Expression>) -> bool { v.len() == t.len() && forall|i: int| #![trigger t[i]] #![trigger v[i]] 0 <= i < t.len() ==> expr_reads(x, t[i], v[i]) }
spec fn exprs_fail(x: &SimpleExtensions, t: Seq<Tree>) -> bool { exists|i: int| 0 <= i < t.len() && expr_fails(x, #[trigger] t[i]) }
//@@ fn src/parser/relations.rs parse_expression_list ret=r
    requires ok(pair@), pair@.rule == Rule::expression_list
    ensures match r { Ok(v) => exprs_are(extensions, pair@.kids, v@) && !exprs_fail(extensions, pair@.kids), Err(_) => exprs_fail(extensions, pair@.kids) }
//@@ at start
    proof { g_expression_list(pair@); }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=Result<Expression,MessageParseError>
    requires ok(expr_pair@), expr_pair@.rule == Rule::expression ensures match vx_r { Ok(v) => expr_reads(extensions, expr_pair@, v) && !expr_fails(extensions, expr_pair@), Err(_) => expr_fails(extensions, expr_pair@) }
//@@ end
/// The expressions of one row of a virtual table.
spec fn row_of(t: Tree) -> Seq<Tree> { if t.kids.len() == 0 { Seq::empty() } else { t.kids[0].kids } }
spec fn rows_of(t: Tree) -> Seq<Tree> { if t.kids[0].rule == Rule::empty { Seq::empty() } else { t.kids[0].kids } }
//@@ fn src/parser/relations.rs parse_virtual_row ret=r
    requires ok(pair@), pair@.rule == Rule::virtual_row
    ensures match r { Ok(v) => exprs_are(extensions, row_of(pair@), v.fields@) && !exprs_fail(extensions, row_of(pair@)), Err(_) => exprs_fail(extensions, row_of(pair@)) }
//@@ at start
    proof { g_virtual_row(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
spec fn rows_are(x: &SimpleExtensions, t: Seq<Tree>, v: Seq<nested::Struct>) -> bool { v.len() == t.len() && forall|i: int| #![trigger t[i]] #![trigger v[i]] 0 <= i < t.len() ==> exprs_are(x, row_of(t[i]), v[i].fields@) }
spec fn rows_fail(x: &SimpleExtensions, t: Seq<Tree>) -> bool { exists|i: int| 0 <= i < t.len() && exprs_fail(x, row_of(#[trigger] t[i])) }
//@@ fn src/parser/relations.rs parse_virtual_read_rows ret=r
    requires ok(pair@), pair@.rule == Rule::virtual_read_rows
    ensures match r { Ok(v) => rows_are(extensions, rows_of(pair@), v@) && !rows_fail(extensions, rows_of(pair@)), Err(_) => rows_fail(extensions, rows_of(pair@)) }
//@@ at start
    proof { g_virtual_read_rows(pair@); if pair@.kids[0].rule != Rule::empty { g_virtual_row_list(pair@.kids[0]); } }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=Result<nested::Struct,MessageParseError>
    requires ok(row@), row@.rule == Rule::virtual_row ensures match vx_r { Ok(v) => exprs_are(extensions, row_of(row@), v.fields@) && !exprs_fail(extensions, row_of(row@)), Err(_) => exprs_fail(extensions, row_of(row@)) }
//@@ end
//@@ item src/parser/relations.rs VirtualReadRel
/// An optional clause at position i that holds an expression.
spec fn clause(t: Tree, i: int, rule: Rule) -> Option<Tree> { if i < t.kids.len() && t.kids[i].rule == rule { Some(t.kids[i].kids[0]) } else { None } }
spec fn clause_is(x: &SimpleExtensions, c: Option<Tree>, e: Option<Box<Expression>>) -> bool { match c { Some(t) => e is Some && expr_reads(x, t, *(e->0)), None => e is None } }
spec fn clause_fails(x: &SimpleExtensions, c: Option<Tree>) -> bool { c is Some && expr_fails(x, c->0) }
spec fn virtual_columns(t: Tree) -> Tree { if t.kids[1].rule == Rule::virtual_read_filter { t.kids[2] } else { t.kids[1] } }
impl RelationParsePair for VirtualReadRel {
    spec fn at() -> Rule { Rule::virtual_read_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: VirtualReadRel, n: int) -> bool {
        r.0.read_type is Some && r.0.read_type->0 is VirtualTable && rows_are(x, rows_of(t.kids[0]), r.0.read_type->0->VirtualTable_0.expressions@)
        && clause_is(x, clause(t, 1, Rule::virtual_read_filter), r.0.filter)
        && r.0.common is Some && plain(r.0.common->0) && r.0.common->0.emit_kind->0 is Direct && r.0.best_effort_filter is None && r.0.projection is None && r.0.advanced_extension is None
        && n == virtual_columns(t).kids.len() && exists|cols: Seq<Column>| #[trigger] columns_are(x, virtual_columns(t), cols) && schema_is(r.0.base_schema, cols)
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() > 0 || clause_fails(x, clause(t, 1, Rule::virtual_read_filter)) || rows_fail(x, rows_of(t.kids[0])) || columns_fail(x, virtual_columns(t)) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Read && *(r.rel_type->0->Read_0) == (ReadRel { advanced_extension: adv, ..self.0 }) }
//@@ fn src/parser/relations.rs <RelationParsePair for VirtualReadRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for VirtualReadRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for VirtualReadRel>::parse_pair_with_context lib=transpose
//@@ sub map(Box::new) => vx_boxed()
//@@ at start
    proof { g_virtual_read_relation(pair@); }
    broadcast use lemma_ok_kid, g_virtual_read_filter;
//@@ closure 0 ret=Result<Box<Expression>,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::virtual_read_filter ensures match vx_r { Ok(v) => expr_reads(extensions, pair@.kids[0], *v) && !expr_fails(extensions, pair@.kids[0]), Err(_) => expr_fails(extensions, pair@.kids[0]) }
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for VirtualReadRel>::into_rel
//@@ end
}
impl RelationParsePair for FilterRel {
    spec fn at() -> Rule { Rule::filter_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: FilterRel, n: int) -> bool {
        r.input is Some && *(r.input->0) == kids[0] && r.condition is Some && expr_reads(x, t.kids[0], *(r.condition->0))
        && emits(r.common, t.kids[1], width) && r.advanced_extension is None && n == t.kids[1].kids.len()
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 1 || expr_fails(x, t.kids[0]) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Filter && *(r.rel_type->0->Filter_0) == (FilterRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for FilterRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FilterRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FilterRel>::parse_pair_with_context
//@@ at start
    proof { g_filter_relation(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FilterRel>::into_rel
//@@ end
}

/// The computed expressions among the arguments of a projection.
spec fn computed(t: Seq<Tree>) -> Seq<Tree>
    decreases t.len()
{ if t.len() == 0 { t } else if t.last().kids[0].rule == Rule::expression { computed(t.drop_last()).push(t.last().kids[0]) } else { computed(t.drop_last()) } }
/// The columns the arguments select: a reference is that column, an expression the next computed column.
spec fn selected(t: Seq<Tree>, width: int) -> Seq<i32>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { let u = t.drop_last(); selected(u, width).push(if t.last().kids[0].rule == Rule::expression { (width + computed(u).len()) as i32 } else { field_of(t.last().kids[0]) as i32 }) } }
proof fn lemma_selected(t: Seq<Tree>, width: int)
    ensures selected(t, width).len() == t.len(), computed(t).len() <= t.len()
    decreases t.len()
{ if t.len() > 0 { lemma_selected(t.drop_last(), width); } }
proof fn lemma_computed(x: &SimpleExtensions, t: Seq<Tree>, n: int)
    requires 0 <= n <= t.len()
    ensures exprs_fail(x, computed(t.take(n))) ==> exprs_fail(x, computed(t)), n > 0 && t[n - 1].kids[0].rule == Rule::expression && expr_fails(x, t[n - 1].kids[0]) ==> exprs_fail(x, computed(t.take(n)))
    decreases t.len() - n
{
    if n < t.len() {
        lemma_computed(x, t, n + 1);
        let u = t.take(n + 1); assert(u.drop_last() =~= t.take(n));
        if exprs_fail(x, computed(t.take(n))) { let i = choose|i: int| 0 <= i < computed(t.take(n)).len() && expr_fails(x, #[trigger] computed(t.take(n))[i]); assert(computed(u)[i] == computed(t.take(n))[i]); }
    } else { assert(t.take(n) =~= t); }
    if n > 0 && t[n - 1].kids[0].rule == Rule::expression && expr_fails(x, t[n - 1].kids[0]) { let u = t.take(n); assert(u.last() == t[n - 1]); let c = computed(u); assert(c[c.len() - 1] == t[n - 1].kids[0]); }
}
impl RelationParsePair for ProjectRel {
    spec fn at() -> Rule { Rule::project_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: ProjectRel, n: int) -> bool {
        r.input is Some && *(r.input->0) == kids[0] && exprs_are(x, computed(t.kids[0].kids), r.expressions@)
        && common_is(r.common, selected(t.kids[0].kids, width), width + computed(t.kids[0].kids).len()) && r.advanced_extension is None && n == t.kids[0].kids.len()
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 1 || exprs_fail(x, computed(t.kids[0].kids)) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Project && *(r.rel_type->0->Project_0) == (ProjectRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for ProjectRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ProjectRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ProjectRel>::parse_pair_with_context
//@@ at start
    proof { g_project_relation(pair@); g_project_argument_list(pair@.kids[0]); }
    broadcast use lemma_ok_kid, axiom_pairs;
    let ghost t = pair@.kids[0];
    proof { assert(t.kids.take(t.kids.len() as int) =~= t.kids); }
//@@ loop 0 seq
    invariant
        ok(t), t == pair@.kids[0], input_children@.len() == 1, input_field_count <= 0x40000000,
        forall|i: int| 0 <= i < t.kids.len() ==> (#[trigger] t.kids[i]).rule == Rule::project_argument,
        __s0.len() == t.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t.kids[i],
        output_mapping@ == selected(t.kids.take(__n0 as int), input_field_count as int), output_mapping@.len() == __n0,
        exprs_are(extensions, computed(t.kids.take(__n0 as int)), expressions@), !exprs_fail(extensions, computed(t.kids.take(__n0 as int))), computed(t.kids.take(__n0 as int)).len() <= __n0,
//@@ at loop 0 start
    proof {
        let u = t.kids.take(__n0); let k = t.kids[__n0 - 1];
        g_project_argument(k); assert(u.drop_last() =~= t.kids.take(__n0 - 1)); assert(u.last() == k);
        assert(t.kids.take(t.kids.len() as int) =~= t.kids); assert(ok(k)); assert(ok(k.kids[0])); lemma_computed(extensions, t.kids, __n0);
        if k.kids[0].rule == Rule::expression { let c = computed(u); assert(c.drop_last() =~= computed(u.drop_last())); assert(c.last() == k.kids[0]); }
        lemma_selected(u, input_field_count as int); lemma_selected(u.drop_last(), input_field_count as int);
    }
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for ProjectRel>::into_rel
//@@ end
}

// ---- keywords
spec fn ampersand() -> char { '&' }
use proto::sort_field::SortDirection;
/// The direction a name stands for.
spec fn direction_of(s: Seq<char>) -> Option<SortDirection> { if s == "AscNullsFirst"@ { Some(SortDirection::AscNullsFirst) } else if s == "AscNullsLast"@ { Some(SortDirection::AscNullsLast) } else if s == "DescNullsFirst"@ { Some(SortDirection::DescNullsFirst) } else if s == "DescNullsLast"@ { Some(SortDirection::DescNullsLast) } else if s == "Clustered"@ { Some(SortDirection::Clustered) } else { None } }
proof fn lemma_directions(s: Seq<char>)
    ensures s == "&AscNullsFirst"@ ==> trim_front(s, ampersand()) == "AscNullsFirst"@, s == "&AscNullsLast"@ ==> trim_front(s, ampersand()) == "AscNullsLast"@, s == "&DescNullsFirst"@ ==> trim_front(s, ampersand()) == "DescNullsFirst"@, s == "&DescNullsLast"@ ==> trim_front(s, ampersand()) == "DescNullsLast"@, s == "&Clustered"@ ==> trim_front(s, ampersand()) == "Clustered"@
{ reveal_strlit("AscNullsFirst"); reveal_strlit("&AscNullsFirst"); reveal_strlit("AscNullsLast"); reveal_strlit("&AscNullsLast"); reveal_strlit("DescNullsFirst"); reveal_strlit("&DescNullsFirst"); reveal_strlit("DescNullsLast"); reveal_strlit("&DescNullsLast"); reveal_strlit("Clustered"); reveal_strlit("&Clustered"); reveal_with_fuel(trim_front, 3);
    if s == "&AscNullsFirst"@ { assert(s.skip(1) =~= "AscNullsFirst"@); }
    if s == "&AscNullsLast"@ { assert(s.skip(1) =~= "AscNullsLast"@); }
    if s == "&DescNullsFirst"@ { assert(s.skip(1) =~= "DescNullsFirst"@); }
    if s == "&DescNullsLast"@ { assert(s.skip(1) =~= "DescNullsLast"@); }
    if s == "&Clustered"@ { assert(s.skip(1) =~= "Clustered"@); } }
//@@ fn src/parser/common.rs sort_direction_from_str ret=r
    ensures match r { Ok(d) => direction_of(name@) == Some(d), Err(_) => direction_of(name@) is None }
//@@ at start
    broadcast use crate::vx_axioms::axiom_str_ext;
    proof { reveal_strlit("AscNullsFirst"); reveal_strlit("&AscNullsFirst"); reveal_strlit("AscNullsLast"); reveal_strlit("&AscNullsLast"); reveal_strlit("DescNullsFirst"); reveal_strlit("&DescNullsFirst"); reveal_strlit("DescNullsLast"); reveal_strlit("&DescNullsLast"); reveal_strlit("Clustered"); reveal_strlit("&Clustered"); }
//@@ end
spec fn sort_is(x: &SimpleExtensions, t: Tree, r: SortField) -> bool {
    r.expr is Some && expr_reads(x, t.kids[0], r.expr->0) && r.sort_kind is Some && r.sort_kind->0 is Direction
    && match direction_of(t.kids[1].text.skip(1)) { Some(d) => r.sort_kind->0->Direction_0 == d.num(), None => false }
}
impl ScopedParsePair for SortField {
    spec fn at() -> Rule { Rule::sort_field }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: SortField) -> bool { sort_is(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { expr_fails(x, t.kids[0]) }
//@@ fn src/parser/relations.rs <ScopedParsePair for SortField>::rule
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for SortField>::message
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for SortField>::parse_pair lib=trim_start_matches
//@@ at start
    proof { g_sort_field(pair@); let k = pair@.kids[1]; g_sort_direction(k); lemma_directions(k.text); lemma_direction_text(k.text); }
    broadcast use lemma_ok_kid;
//@@ end
}
proof fn lemma_direction_text(s: Seq<char>)
    ensures s == "&AscNullsFirst"@ ==> s.skip(1) == "AscNullsFirst"@, s == "&AscNullsLast"@ ==> s.skip(1) == "AscNullsLast"@, s == "&DescNullsFirst"@ ==> s.skip(1) == "DescNullsFirst"@, s == "&DescNullsLast"@ ==> s.skip(1) == "DescNullsLast"@, s == "&Clustered"@ ==> s.skip(1) == "Clustered"@
{ reveal_strlit("AscNullsFirst"); reveal_strlit("&AscNullsFirst"); reveal_strlit("AscNullsLast"); reveal_strlit("&AscNullsLast"); reveal_strlit("DescNullsFirst"); reveal_strlit("&DescNullsFirst"); reveal_strlit("DescNullsLast"); reveal_strlit("&DescNullsLast"); reveal_strlit("Clustered"); reveal_strlit("&Clustered"); if s == "&AscNullsFirst"@ { assert(s.skip(1) =~= "AscNullsFirst"@); } if s == "&AscNullsLast"@ { assert(s.skip(1) =~= "AscNullsLast"@); } if s == "&DescNullsFirst"@ { assert(s.skip(1) =~= "DescNullsFirst"@); } if s == "&DescNullsLast"@ { assert(s.skip(1) =~= "DescNullsLast"@); } if s == "&Clustered"@ { assert(s.skip(1) =~= "Clustered"@); } }
/// The sort keys written in a list (the list may be `_`).
spec fn sort_trees(t: Tree) -> Seq<Tree> { if t.kids.len() > 0 && t.kids[0].rule == Rule::empty { Seq::empty() } else { t.kids } }
impl RelationParsePair for SortRel {
    spec fn at() -> Rule { Rule::sort_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: SortRel, n: int) -> bool {
        let k = sort_trees(t.kids[0]);
        r.input is Some && *(r.input->0) == kids[0] && r.sorts@.len() == k.len() && (forall|i: int| 0 <= i < k.len() ==> sort_is(x, k[i], #[trigger] r.sorts@[i]))
        && emits(r.common, t.kids[1], width) && r.advanced_extension is None && n == t.kids[1].kids.len()
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 1 || exists|i: int| 0 <= i < sort_trees(t.kids[0]).len() && expr_fails(x, (#[trigger] sort_trees(t.kids[0])[i]).kids[0]) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Sort && *(r.rel_type->0->Sort_0) == (SortRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for SortRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for SortRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for SortRel>::parse_pair_with_context
//@@ at start
    proof { g_sort_relation(pair@); g_sort_field_list(pair@.kids[0]); }
    broadcast use lemma_ok_kid, axiom_pairs;
    let ghost t = pair@.kids[0];
//@@ loop 0 seq
    invariant
        ok(t), t == pair@.kids[0], t.rule == Rule::sort_field_list, rule_sort_field_list(t), input_children@.len() == 1,
        __s0.len() == t.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t.kids[i],
        t.kids.len() > 0 && t.kids[0].rule == Rule::empty ==> sorts@.len() == 0, !(t.kids.len() > 0 && t.kids[0].rule == Rule::empty) ==> sorts@.len() == __n0,
        forall|i: int| 0 <= i < sorts@.len() ==> sort_is(extensions, t.kids[i], #[trigger] sorts@[i]),
        t.kids.len() > 0 && t.kids[0].rule == Rule::empty || forall|i: int| 0 <= i < __n0 ==> !expr_fails(extensions, (#[trigger] t.kids[i]).kids[0]),
//@@ at loop 0 start
    proof { let k = t.kids[__n0 - 1]; assert(t.kids.len() > 0 && t.kids[0].rule == Rule::empty || sort_trees(t)[__n0 - 1] == k); }
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for SortRel>::into_rel
//@@ end
}
/// The join_type a keyword stands for.
spec fn join_of(s: Seq<char>) -> join_rel::JoinType { if s == "&Inner"@ { join_rel::JoinType::Inner } else if s == "&Left"@ { join_rel::JoinType::Left } else if s == "&Right"@ { join_rel::JoinType::Right } else if s == "&Outer"@ { join_rel::JoinType::Outer } else if s == "&LeftSemi"@ { join_rel::JoinType::LeftSemi } else if s == "&RightSemi"@ { join_rel::JoinType::RightSemi } else if s == "&LeftAnti"@ { join_rel::JoinType::LeftAnti } else if s == "&RightAnti"@ { join_rel::JoinType::RightAnti } else if s == "&LeftSingle"@ { join_rel::JoinType::LeftSingle } else if s == "&RightSingle"@ { join_rel::JoinType::RightSingle } else if s == "&LeftMark"@ { join_rel::JoinType::LeftMark } else if s == "&RightMark"@ { join_rel::JoinType::RightMark } else { join_rel::JoinType::Unspecified } }
proof fn lemma_join_of(s: Seq<char>)
    ensures s == "&Inner"@ ==> trim_front(s, ampersand()) == "Inner"@, s == "&Left"@ ==> trim_front(s, ampersand()) == "Left"@, s == "&Right"@ ==> trim_front(s, ampersand()) == "Right"@, s == "&Outer"@ ==> trim_front(s, ampersand()) == "Outer"@, s == "&LeftSemi"@ ==> trim_front(s, ampersand()) == "LeftSemi"@, s == "&RightSemi"@ ==> trim_front(s, ampersand()) == "RightSemi"@, s == "&LeftAnti"@ ==> trim_front(s, ampersand()) == "LeftAnti"@, s == "&RightAnti"@ ==> trim_front(s, ampersand()) == "RightAnti"@, s == "&LeftSingle"@ ==> trim_front(s, ampersand()) == "LeftSingle"@, s == "&RightSingle"@ ==> trim_front(s, ampersand()) == "RightSingle"@, s == "&LeftMark"@ ==> trim_front(s, ampersand()) == "LeftMark"@, s == "&RightMark"@ ==> trim_front(s, ampersand()) == "RightMark"@
{ reveal_strlit("Inner"); reveal_strlit("&Inner"); reveal_strlit("Left"); reveal_strlit("&Left"); reveal_strlit("Right"); reveal_strlit("&Right"); reveal_strlit("Outer"); reveal_strlit("&Outer"); reveal_strlit("LeftSemi"); reveal_strlit("&LeftSemi"); reveal_strlit("RightSemi"); reveal_strlit("&RightSemi"); reveal_strlit("LeftAnti"); reveal_strlit("&LeftAnti"); reveal_strlit("RightAnti"); reveal_strlit("&RightAnti"); reveal_strlit("LeftSingle"); reveal_strlit("&LeftSingle"); reveal_strlit("RightSingle"); reveal_strlit("&RightSingle"); reveal_strlit("LeftMark"); reveal_strlit("&LeftMark"); reveal_strlit("RightMark"); reveal_strlit("&RightMark"); reveal_with_fuel(trim_front, 3);
    if s == "&Inner"@ { assert(s.skip(1) =~= "Inner"@); }
    if s == "&Left"@ { assert(s.skip(1) =~= "Left"@); }
    if s == "&Right"@ { assert(s.skip(1) =~= "Right"@); }
    if s == "&Outer"@ { assert(s.skip(1) =~= "Outer"@); }
    if s == "&LeftSemi"@ { assert(s.skip(1) =~= "LeftSemi"@); }
    if s == "&RightSemi"@ { assert(s.skip(1) =~= "RightSemi"@); }
    if s == "&LeftAnti"@ { assert(s.skip(1) =~= "LeftAnti"@); }
    if s == "&RightAnti"@ { assert(s.skip(1) =~= "RightAnti"@); }
    if s == "&LeftSingle"@ { assert(s.skip(1) =~= "LeftSingle"@); }
    if s == "&RightSingle"@ { assert(s.skip(1) =~= "RightSingle"@); }
    if s == "&LeftMark"@ { assert(s.skip(1) =~= "LeftMark"@); }
    if s == "&RightMark"@ { assert(s.skip(1) =~= "RightMark"@); } }
impl ParsePair for join_rel::JoinType {
    spec fn at() -> Rule { Rule::join_type }
    spec fn reads(t: Tree, r: join_rel::JoinType) -> bool { r == join_of(t.text) && !(r is Unspecified) }
//@@ fn src/parser/relations.rs <ParsePair for join_rel::JoinType>::rule
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for join_rel::JoinType>::message
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for join_rel::JoinType>::parse_pair lib=trim_start_matches
//@@ at start
    proof { g_join_type(pair@); lemma_join_of(pair@.text); reveal_strlit("Inner"); reveal_strlit("&Inner"); reveal_strlit("Left"); reveal_strlit("&Left"); reveal_strlit("Right"); reveal_strlit("&Right"); reveal_strlit("Outer"); reveal_strlit("&Outer"); reveal_strlit("LeftSemi"); reveal_strlit("&LeftSemi"); reveal_strlit("RightSemi"); reveal_strlit("&RightSemi"); reveal_strlit("LeftAnti"); reveal_strlit("&LeftAnti"); reveal_strlit("RightAnti"); reveal_strlit("&RightAnti"); reveal_strlit("LeftSingle"); reveal_strlit("&LeftSingle"); reveal_strlit("RightSingle"); reveal_strlit("&RightSingle"); reveal_strlit("LeftMark"); reveal_strlit("&LeftMark"); reveal_strlit("RightMark"); reveal_strlit("&RightMark"); }
    broadcast use crate::vx_axioms::axiom_str_ext;
//@@ end
}
/// The direct output columns of a join of l and r columns.
spec fn join_width(j: join_rel::JoinType, l: int, r: int) -> int {
    match j {
        join_rel::JoinType::LeftSemi | join_rel::JoinType::LeftAnti | join_rel::JoinType::LeftSingle => l,
        join_rel::JoinType::RightSemi | join_rel::JoinType::RightAnti | join_rel::JoinType::RightSingle => r,
        join_rel::JoinType::LeftMark => l + 1, join_rel::JoinType::RightMark => r + 1,
        _ => l + r }
}
//@@ fn src/textify/rels.rs join_output_width ret=r
    requires left_columns <= 0x40000000, right_columns <= 0x40000000
    ensures r == join_width(join_type, left_columns as int, right_columns as int)
//@@ end
spec fn join_filter(t: Tree) -> Option<Tree> { clause(t, 2, Rule::join_post_join_filter) }
spec fn join_refs(t: Tree) -> Tree { if join_filter(t) is Some { t.kids[3] } else { t.kids[2] } }
spec fn join_is(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: JoinRel, n: int) -> bool {
    r.left is Some && *(r.left->0) == kids[0] && r.right is Some && *(r.right->0) == kids[1] && r.r#type == join_of(t.kids[0].text).num()
    && r.expression is Some && expr_reads(x, t.kids[1], *(r.expression->0)) && clause_is(x, join_filter(t), r.post_join_filter)
    && emits(r.common, join_refs(t), width) && r.advanced_extension is None && n == join_refs(t).kids.len()
}
spec fn join_fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>) -> bool { kids.len() != 2 || expr_fails(x, t.kids[1]) || clause_fails(x, join_filter(t)) }
//@@ fn src/parser/relations.rs parse_join_relation_pair ret=r lib=transpose,into_iter
    requires ok(pair@), pair@.rule == Rule::join_relation, input_children@.len() == 2 ==> forall|j: join_rel::JoinType| call_requires(direct_width, (j,))
    ensures match r { Ok((v, n)) => !join_fails(extensions, pair@, input_children@) && n <= 0x40000000
            && exists|w: usize| #[trigger] call_ensures(direct_width, (join_of(pair@.kids[0].text),), w) && join_is(extensions, pair@, input_children@, w as int, v, n as int),
        Err(_) => join_fails(extensions, pair@, input_children@) }
//@@ sub map(Box::new) => vx_boxed()
//@@ at start
    proof { g_join_relation(pair@); }
    broadcast use lemma_ok_kid, g_join_post_join_filter;
//@@ closure 0 ret=Result<Box<Expression>,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::join_post_join_filter ensures match vx_r { Ok(v) => expr_reads(extensions, pair@.kids[0], *v) && !expr_fails(extensions, pair@.kids[0]), Err(_) => expr_fails(extensions, pair@.kids[0]) }
//@@ end
impl RelationParsePair for JoinRel {
    spec fn at() -> Rule { Rule::join_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: JoinRel, n: int) -> bool {
        join_is(x, t, kids, width, r, n)
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { join_fails(x, t, kids) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Join && *(r.rel_type->0->Join_0) == (JoinRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for JoinRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for JoinRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for JoinRel>::parse_pair_with_context
//@@ closure 0 ret=usize
    ensures vx_r == input_field_count
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for JoinRel>::into_rel
//@@ end
}
impl RelationParsePair for CrossRel {
    spec fn at() -> Rule { Rule::cross_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: CrossRel, n: int) -> bool {
        r.left is Some && *(r.left->0) == kids[0] && r.right is Some && *(r.right->0) == kids[1]
        && emits(r.common, t.kids[0], width) && r.advanced_extension is None && n == t.kids[0].kids.len()
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 2 }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Cross && *(r.rel_type->0->Cross_0) == (CrossRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for CrossRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for CrossRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for CrossRel>::parse_pair_with_context lib=into_iter
//@@ at start
    proof { g_cross_relation(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for CrossRel>::into_rel
//@@ end
}
/// The set_op a keyword stands for.
spec fn set_of(s: Seq<char>) -> set_rel::SetOp { if s == "&MinusPrimary"@ { set_rel::SetOp::MinusPrimary } else if s == "&MinusPrimaryAll"@ { set_rel::SetOp::MinusPrimaryAll } else if s == "&MinusMultiset"@ { set_rel::SetOp::MinusMultiset } else if s == "&IntersectionPrimary"@ { set_rel::SetOp::IntersectionPrimary } else if s == "&IntersectionMultiset"@ { set_rel::SetOp::IntersectionMultiset } else if s == "&IntersectionMultisetAll"@ { set_rel::SetOp::IntersectionMultisetAll } else if s == "&UnionDistinct"@ { set_rel::SetOp::UnionDistinct } else if s == "&UnionAll"@ { set_rel::SetOp::UnionAll } else { set_rel::SetOp::Unspecified } }
proof fn lemma_set_of(s: Seq<char>)
    ensures s == "&MinusPrimary"@ ==> trim_front(s, ampersand()) == "MinusPrimary"@, s == "&MinusPrimaryAll"@ ==> trim_front(s, ampersand()) == "MinusPrimaryAll"@, s == "&MinusMultiset"@ ==> trim_front(s, ampersand()) == "MinusMultiset"@, s == "&IntersectionPrimary"@ ==> trim_front(s, ampersand()) == "IntersectionPrimary"@, s == "&IntersectionMultiset"@ ==> trim_front(s, ampersand()) == "IntersectionMultiset"@, s == "&IntersectionMultisetAll"@ ==> trim_front(s, ampersand()) == "IntersectionMultisetAll"@, s == "&UnionDistinct"@ ==> trim_front(s, ampersand()) == "UnionDistinct"@, s == "&UnionAll"@ ==> trim_front(s, ampersand()) == "UnionAll"@
{ reveal_strlit("MinusPrimary"); reveal_strlit("&MinusPrimary"); reveal_strlit("MinusPrimaryAll"); reveal_strlit("&MinusPrimaryAll"); reveal_strlit("MinusMultiset"); reveal_strlit("&MinusMultiset"); reveal_strlit("IntersectionPrimary"); reveal_strlit("&IntersectionPrimary"); reveal_strlit("IntersectionMultiset"); reveal_strlit("&IntersectionMultiset"); reveal_strlit("IntersectionMultisetAll"); reveal_strlit("&IntersectionMultisetAll"); reveal_strlit("UnionDistinct"); reveal_strlit("&UnionDistinct"); reveal_strlit("UnionAll"); reveal_strlit("&UnionAll"); reveal_with_fuel(trim_front, 3);
    if s == "&MinusPrimary"@ { assert(s.skip(1) =~= "MinusPrimary"@); }
    if s == "&MinusPrimaryAll"@ { assert(s.skip(1) =~= "MinusPrimaryAll"@); }
    if s == "&MinusMultiset"@ { assert(s.skip(1) =~= "MinusMultiset"@); }
    if s == "&IntersectionPrimary"@ { assert(s.skip(1) =~= "IntersectionPrimary"@); }
    if s == "&IntersectionMultiset"@ { assert(s.skip(1) =~= "IntersectionMultiset"@); }
    if s == "&IntersectionMultisetAll"@ { assert(s.skip(1) =~= "IntersectionMultisetAll"@); }
    if s == "&UnionDistinct"@ { assert(s.skip(1) =~= "UnionDistinct"@); }
    if s == "&UnionAll"@ { assert(s.skip(1) =~= "UnionAll"@); } }
impl ParsePair for set_rel::SetOp {
    spec fn at() -> Rule { Rule::set_op }
    spec fn reads(t: Tree, r: set_rel::SetOp) -> bool { r == set_of(t.text) && !(r is Unspecified) }
//@@ fn src/parser/relations.rs <ParsePair for set_rel::SetOp>::rule
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for set_rel::SetOp>::message
//@@ end
//@@ fn src/parser/relations.rs <ParsePair for set_rel::SetOp>::parse_pair lib=trim_start_matches
//@@ at start
    proof { g_set_op(pair@); lemma_set_of(pair@.text); reveal_strlit("MinusPrimary"); reveal_strlit("&MinusPrimary"); reveal_strlit("MinusPrimaryAll"); reveal_strlit("&MinusPrimaryAll"); reveal_strlit("MinusMultiset"); reveal_strlit("&MinusMultiset"); reveal_strlit("IntersectionPrimary"); reveal_strlit("&IntersectionPrimary"); reveal_strlit("IntersectionMultiset"); reveal_strlit("&IntersectionMultiset"); reveal_strlit("IntersectionMultisetAll"); reveal_strlit("&IntersectionMultisetAll"); reveal_strlit("UnionDistinct"); reveal_strlit("&UnionDistinct"); reveal_strlit("UnionAll"); reveal_strlit("&UnionAll"); }
    broadcast use crate::vx_axioms::axiom_str_ext;
//@@ end
}
spec fn set_is(t: Tree, kids: Seq<Rel>, width: int, adv: Option<AdvancedExtension>, r: Rel) -> bool {
    r.rel_type is Some && r.rel_type->0 is Set && ({ let s = r.rel_type->0->Set_0; s.inputs@ == kids && s.op == set_of(t.kids[0].text).num() && emits(s.common, t.kids[1], width) && s.advanced_extension == adv })
}
spec fn set_fails(kids: Seq<Rel>, widths: Seq<usize>) -> bool { kids.len() < 2 || exists|i: int| 0 <= i < widths.len() && #[trigger] widths[i] != widths[0] }
//@@ fn src/parser/relations.rs parse_set_relation_pair ret=r lib=iter
    requires ok(pair@), pair@.rule == Rule::set_relation, child_field_counts@.len() == input_children@.len()
    ensures match r { Ok((v, n)) => !set_fails(input_children@, child_field_counts@) && set_is(pair@, input_children@, child_field_counts@[0] as int, advanced_extension, v) && n == pair@.kids[1].kids.len() && n <= 0x40000000,
        Err(_) => set_fails(input_children@, child_field_counts@) }
//@@ at start
    proof { g_set_relation(pair@); }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=bool
    ensures vx_r == (*__vx0 != child_width)
//@@ end

// ---- limits and offsets
//@@ trust what an expression text reads as is determined by the text and the declarations (as far as: its encoding, and whether it is a negative integer literal)
uninterp spec fn reads_negative(x: &SimpleExtensions, t: Tree) -> bool;
spec fn negative_literal(e: Expression) -> Option<i64> {
    match e.rex_type { Some(RexType::Literal(l)) => match l.literal_type {
        Some(LiteralType::I8(v)) => if v < 0 { Some(v as i64) } else { None }, Some(LiteralType::I16(v)) => if v < 0 { Some(v as i64) } else { None }, Some(LiteralType::I32(v)) => if v < 0 { Some(v as i64) } else { None },
        Some(LiteralType::I64(v)) => if v < 0 { Some(v) } else { None }, _ => None }, _ => None }
}
axiom fn axiom_negative(x: &SimpleExtensions, t: Tree, e: Expression)
    requires expr_reads(x, t, e)
    ensures (negative_literal(e) is Some) == reads_negative(x, t);
//@@ fn src/parser/relations.rs negative_integer_literal ret=r lib=then_some
    ensures r == negative_literal(*expr)
//@@ end
spec fn plain_i64(e: Expression, v: int) -> bool {
    e.rex_type is Some && e.rex_type->0 is Literal && ({ let l = e.rex_type->0->Literal_0; !l.nullable && l.type_variation_reference == 0 && l.literal_type is Some && l.literal_type->0 is I64 && l.literal_type->0->I64_0 == v })
}
//@@ fn src/parser/relations.rs i64_literal_expr ret=r
    ensures plain_i64(*r, value as int)
//@@ end
/// A fetch value: an integer is that i64 literal, negative ones are rejected.
spec fn bound_is(x: &SimpleExtensions, t: Tree, e: Expression) -> bool { let k = t.kids[0]; if k.rule == Rule::integer { i64::pval(k.text) is Some && plain_i64(e, i64::pval(k.text)->0 as int) } else { expr_reads(x, k, e) } }
spec fn bound_fails(x: &SimpleExtensions, t: Tree) -> bool { let k = t.kids[0]; if k.rule == Rule::integer { i64::pval(k.text)->0 < 0 } else { expr_fails(x, k) || reads_negative(x, k) } }
impl ScopedParsePair for CountMode {
    spec fn at() -> Rule { Rule::fetch_value }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: CountMode) -> bool { r is CountExpr && bound_is(x, t, *(r->CountExpr_0)) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { bound_fails(x, t) }
//@@ fn src/parser/relations.rs <ScopedParsePair for CountMode>::rule
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for CountMode>::message
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for CountMode>::parse_pair lib=parse
//@@ at start
    proof { g_fetch_value(pair@); let t = pair@.kids[0]; assert forall|e: Expression| #[trigger] expr_reads(extensions, t, e) implies (negative_literal(e) is Some) == reads_negative(extensions, t) by { axiom_negative(extensions, t, e); } }
    broadcast use lemma_ok_kid;
//@@ end
}
impl ScopedParsePair for OffsetMode {
    spec fn at() -> Rule { Rule::fetch_value }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: OffsetMode) -> bool { r is OffsetExpr && bound_is(x, t, *(r->OffsetExpr_0)) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { bound_fails(x, t) }
//@@ fn src/parser/relations.rs <ScopedParsePair for OffsetMode>::rule
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for OffsetMode>::message
//@@ end
//@@ fn src/parser/relations.rs <ScopedParsePair for OffsetMode>::parse_pair lib=parse
//@@ at start
    proof { g_fetch_value(pair@); let t = pair@.kids[0]; assert forall|e: Expression| #[trigger] expr_reads(extensions, t, e) implies (negative_literal(e) is Some) == reads_negative(extensions, t) by { axiom_negative(extensions, t, e); } }
    broadcast use lemma_ok_kid;
//@@ end
}

// ---- named arguments
spec fn arg_name(t: Tree) -> Seq<char> { t.kids[0].text }
spec fn dup_args(t: Seq<Tree>) -> bool { exists|i: int, j: int| 0 <= i < j < t.len() && arg_name(#[trigger] t[i]) == arg_name(#[trigger] t[j]) }
spec fn is_named(t: Seq<Tree>, n: Seq<char>, i: int) -> bool { 0 <= i < t.len() && arg_name(t[i]) == n }
/// The argument of that name.
spec fn arg(t: Seq<Tree>, n: Seq<char>) -> Option<Tree> { if exists|i: int| is_named(t, n, i) { Some(t[choose|i: int| is_named(t, n, i)].kids[1]) } else { None } }
spec fn args_are(t: Seq<Tree>, m: Map<Seq<char>, Pair<Rule>>) -> bool {
    (forall|i: int| 0 <= i < t.len() ==> m.contains_key(arg_name(#[trigger] t[i])) && m[arg_name(t[i])]@ == t[i].kids[1])
    && forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> exists|i: int| #[trigger] is_named(t, n, i)
}
//@@ item src/parser/common.rs ParsedNamedArgs
impl<'a> ParsedNamedArgs<'a> {
//@@ fn src/parser/common.rs ParsedNamedArgs::new ret=r
    requires forall|i: int| 0 <= i < pairs@.len() ==> (#[trigger] pairs@[i]).rule == rule && pairs@[i].kids.len() == 2
    ensures match r { Ok(v) => !dup_args(pairs@) && args_are(pairs@, v.map@), Err(_) => dup_args(pairs@) }
//@@ sub HashMap::new() => HashMap::<&'a str, Pair<'a, Rule>>::new()
//@@ at start
    let ghost t = pairs@;
    broadcast use axiom_pairs;
//@@ loop 0 seq
    invariant
        t == pairs@, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).rule == rule, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).kids.len() == 2,
        __s0.len() == t.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t[i],
        forall|i: int| 0 <= i < __n0 ==> map@.contains_key(arg_name(#[trigger] t[i])) && map@[arg_name(t[i])]@ == t[i].kids[1],
        forall|n: Seq<char>| #[trigger] map@.contains_key(n) ==> exists|i: int| i < __n0 && #[trigger] is_named(t, n, i),
        forall|i: int, j: int| 0 <= i < j < __n0 ==> arg_name(#[trigger] t[i]) != arg_name(#[trigger] t[j]),
//@@ at loop 0 start
    proof { assert(is_named(t, arg_name(t[__n0 - 1]), __n0 - 1)); assert(map@.contains_key(arg_name(t[__n0 - 1])) ==> dup_args(t)); }
//@@ end
//@@ fn src/parser/common.rs ParsedNamedArgs::pop ret=r lib=inspect
    requires self.map@.contains_key(name@) ==> self.map@[name@]@.rule == rule
    ensures r.0.map@ == self.map@.remove(name@), r.1 == (if self.map@.contains_key(name@) { Some(self.map@[name@]) } else { None })
//@@ closure 0
    requires pair@.rule == rule
//@@ end
//@@ fn src/parser/common.rs ParsedNamedArgs::done ret=r
    ensures r is Ok == (self.map@ == Map::<Seq<char>, Pair<Rule>>::empty())
//@@ end
}
spec fn fetch_args(t: Tree) -> Seq<Tree> { if t.kids[0].rule == Rule::empty { Seq::empty() } else { t.kids[0].kids } }
spec fn fetch_limit(t: Tree) -> Option<Tree> { arg(fetch_args(t), "limit"@) }
spec fn fetch_offset(t: Tree) -> Option<Tree> { arg(fetch_args(t), "offset"@) }
impl RelationParsePair for FetchRel {
    spec fn at() -> Rule { Rule::fetch_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: FetchRel, n: int) -> bool {
        r.input is Some && *(r.input->0) == kids[0] && emits(r.common, t.kids[1], width) && r.advanced_extension is None && n == t.kids[1].kids.len()
        && match fetch_limit(t) { Some(l) => r.count_mode is Some && r.count_mode->0 is CountExpr && bound_is(x, l, *(r.count_mode->0->CountExpr_0)), None => r.count_mode is None }
        && match fetch_offset(t) { Some(l) => r.offset_mode is Some && r.offset_mode->0 is OffsetExpr && bound_is(x, l, *(r.offset_mode->0->OffsetExpr_0)), None => r.offset_mode is None }
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 1 || dup_args(fetch_args(t)) || fetch_limit(t) is Some && bound_fails(x, fetch_limit(t)->0) || fetch_offset(t) is Some && bound_fails(x, fetch_offset(t)->0) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Fetch && *(r.rel_type->0->Fetch_0) == (FetchRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for FetchRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FetchRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FetchRel>::parse_pair_with_context lib=transpose
//@@ at start
    proof { g_fetch_relation(pair@); if pair@.kids[0].rule != Rule::empty { lemma_fetch(pair@.kids[0]); } }
    broadcast use lemma_ok_kid;
    let ghost t = pair@; let ghost ks = fetch_args(pair@); let ghost mut m0: Map<Seq<char>, Pair<Rule>> = Map::empty();
    proof { assert("limit"@ != "offset"@) by { reveal_strlit("limit"); reveal_strlit("offset"); } }
//@@ at after 0 new
    proof {
        m0 = extractor.map@; lemma_arg(ks, m0, "limit"@); lemma_arg(ks, m0, "offset"@);
        assert forall|n: Seq<char>| m0.contains_key(n) implies n == "limit"@ || n == "offset"@ by { let i = choose|i: int| is_named(ks, n, i); }
    }
//@@ at before 0 done
    proof { assert(extractor.map@ =~= Map::<Seq<char>, Pair<Rule>>::empty()); }
//@@ closure 0 ret=Result<CountMode,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::fetch_value ensures match vx_r { Ok(v) => v is CountExpr && bound_is(extensions, pair@, *(v->CountExpr_0)) && !bound_fails(extensions, pair@), Err(_) => bound_fails(extensions, pair@) }
//@@ closure 1 ret=Result<OffsetMode,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::fetch_value ensures match vx_r { Ok(v) => v is OffsetExpr && bound_is(extensions, pair@, *(v->OffsetExpr_0)) && !bound_fails(extensions, pair@), Err(_) => bound_fails(extensions, pair@) }
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for FetchRel>::into_rel
//@@ end
}
proof fn lemma_fetch(t: Tree)
    requires ok(t), t.rule == Rule::fetch_named_arg_list
    ensures forall|i: int| 0 <= i < t.kids.len() ==> (#[trigger] t.kids[i]).rule == Rule::fetch_named_arg && t.kids[i].kids.len() == 2 && t.kids[i].kids[1].rule == Rule::fetch_value && ok(t.kids[i].kids[1]) && (arg_name(t.kids[i]) == "limit"@ || arg_name(t.kids[i]) == "offset"@)
{ g_fetch_named_arg_list(t); assert forall|i: int| 0 <= i < t.kids.len() implies (#[trigger] t.kids[i]).rule == Rule::fetch_named_arg && t.kids[i].kids.len() == 2 && t.kids[i].kids[1].rule == Rule::fetch_value && ok(t.kids[i].kids[1]) && (arg_name(t.kids[i]) == "limit"@ || arg_name(t.kids[i]) == "offset"@) by { let k = t.kids[i]; g_fetch_named_arg(k); g_fetch_arg_name(k.kids[0]); lemma_ok_kid(k, 1); } }
proof fn lemma_arg(t: Seq<Tree>, m: Map<Seq<char>, Pair<Rule>>, n: Seq<char>)
    requires args_are(t, m), !dup_args(t)
    ensures match arg(t, n) { Some(v) => m.contains_key(n) && m[n]@ == v, None => m.contains_key(n) == false }
{ if exists|i: int| is_named(t, n, i) { let i = choose|i: int| is_named(t, n, i); assert(m.contains_key(arg_name(t[i]))); } }

// ---- aggregates
uninterp spec fn measure_reads(x: &SimpleExtensions, t: Tree, r: aggregate_rel::Measure) -> bool;
uninterp spec fn measure_fails(x: &SimpleExtensions, t: Tree) -> bool;
impl ScopedParsePair for aggregate_rel::Measure {
    spec fn at() -> Rule { Rule::function_call }
    spec fn reads(x: &SimpleExtensions, t: Tree, r: aggregate_rel::Measure) -> bool { measure_reads(x, t, r) }
    spec fn fails(x: &SimpleExtensions, t: Tree) -> bool { measure_fails(x, t) }
    #[verifier::external_body]
    fn rule() -> (r: Rule) { unimplemented!() }
    #[verifier::external_body]
    fn message() -> &'static str { unimplemented!() }
    #[verifier::external_body]
    fn parse_pair(extensions: &SimpleExtensions, pair: Pair<Rule>) -> (r: Result<Self, MessageParseError>) { unimplemented!() }
}
//@@ trust two expressions are the same when their protobuf encodings (prost encode_to_vec) are equal
uninterp spec fn key(e: Expression) -> Seq<u8>;
uninterp spec fn key_of(x: &SimpleExtensions, t: Tree) -> Seq<u8>;
broadcast axiom fn axiom_key(x: &SimpleExtensions, t: Tree, e: Expression)
    requires #[trigger] expr_reads(x, t, e)
    ensures key(e) == key_of(x, t);
impl Expression {
    #[verifier::external_body]
    fn encode_to_vec(&self) -> (r: Vec<u8>) ensures r@ == key(*self) { unimplemented!() }
}
//@@ fn src/parser/relations.rs expression_key ret=r
    ensures r@ == key(*expression)
//@@ end
spec fn keys_of(x: &SimpleExtensions, t: Seq<Tree>) -> Seq<Seq<u8>> { Seq::new(t.len(), |i: int| key_of(x, t[i])) }
spec fn keys(s: Seq<Expression>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| key(s[i])) }
/// The different keys, in the order they first appear.
spec fn firsts(s: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases s.len()
{ if s.len() == 0 { s } else { let f = firsts(s.drop_last()); if f.contains(s.last()) { f } else { f.push(s.last()) } } }
proof fn lemma_firsts(s: Seq<Seq<u8>>)
    ensures firsts(s).no_duplicates(), firsts(s).len() <= s.len(), forall|k: Seq<u8>| #[trigger] firsts(s).contains(k) == s.contains(k)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); let f = firsts(d); lemma_firsts(d);
        assert forall|k: Seq<u8>| #[trigger] firsts(s).contains(k) == s.contains(k) by {
            if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i < d.len() { assert(d[i] == k); assert(f.contains(k)); let j = choose|j: int| 0 <= j < f.len() && f[j] == k; assert(firsts(s)[j] == k); } else { if !f.contains(k) { assert(firsts(s)[f.len() as int] == k); } } }
            if firsts(s).contains(k) { let i = choose|i: int| 0 <= i < firsts(s).len() && firsts(s)[i] == k; if i < f.len() { assert(f[i] == k); assert(f.contains(k)); assert(d.contains(k)); let j = choose|j: int| 0 <= j < d.len() && d[j] == k; assert(s[j] == k); } else { assert(s[s.len() - 1] == k); } }
        }
    }
}
/// All keys of the sets, one set after the other.
spec fn flat(s: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
spec fn set_keys(s: Seq<Vec<Expression>>) -> Seq<Seq<Seq<u8>>> { Seq::new(s.len(), |i: int| keys(s[i]@)) }
/// The grouping sets: each entry refers to the grouping expression with its key.
spec fn grouping_is(g: Grouping, s: Seq<Seq<u8>>, all: Seq<Seq<u8>>) -> bool {
    g.expression_references@.len() == s.len() && g.grouping_expressions@.len() == 0
    && forall|j: int| 0 <= j < s.len() ==> (#[trigger] g.expression_references@[j]) < all.len() && all[g.expression_references@[j] as int] == s[j]
}
spec fn groupings_are(g: Seq<Grouping>, s: Seq<Seq<Seq<u8>>>, all: Seq<Seq<u8>>) -> bool { g.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> grouping_is(#[trigger] g[i], s[i], all) }
//@@ fn src/parser/relations.rs build_grouping_fields ret=r lib=iter unroll
    requires flat(set_keys(expression_sets@)).len() < 0x40000000
    ensures keys(r.1@) == firsts(flat(set_keys(expression_sets@))), groupings_are(r.0@, set_keys(expression_sets@), keys(r.1@)), r.1@.len() < 0x40000000
//@@ sub let mut __v1 = Vec::new(); => let mut __v1: Vec<u32> = Vec::new();
//@@ sub let mut __v0 = Vec::new(); => let mut __v0: Vec<Grouping> = Vec::new();
//@@ at start
    let ghost sk = set_keys(expression_sets@);
    proof { assert(flat(sk.take(0)) =~= Seq::empty()); assert(sk.take(sk.len() as int) =~= sk); lemma_firsts(flat(sk)); }
//@@ loop 0 seq
    invariant
        sk == set_keys(expression_sets@), __s0.len() == sk.len(), forall|i: int| 0 <= i < sk.len() ==> *(#[trigger] __s0[i]) == expression_sets@[i], flat(sk).len() < 0x40000000,
        keys(expressions@) == firsts(flat(sk.take(__n0))), forall|k: Seq<u8>| #[trigger] seen@.contains_key(k) == keys(expressions@).contains(k),
        forall|k: Seq<u8>| #[trigger] seen@.contains_key(k) ==> seen@[k] < expressions@.len() && key(expressions@[seen@[k] as int]) == k,
        groupings_are(__v0@, sk.take(__n0), keys(expressions@)),
//@@ at loop 0 start
    let ghost n = __n0 - 1; let ghost base = flat(sk.take(n)); let ghost e0 = keys(expressions@);
    proof {
        assert(sk.take(__n0).drop_last() =~= sk.take(n)); assert(sk.take(__n0).last() == keys(set@)); assert(keys(set@).take(0) =~= Seq::empty()); assert(base + Seq::empty() =~= base);
        lemma_flat_len(sk, __n0); assert(keys(set@).take(set@.len() as int) =~= keys(set@));
    }
//@@ loop 1 seq
    invariant
        base.len() + set@.len() < 0x40000000, __s1.len() == set@.len(), forall|j: int| 0 <= j < set@.len() ==> *(#[trigger] __s1[j]) == set@[j],
        keys(expressions@) == firsts(base + keys(set@).take(__n1)), forall|k: Seq<u8>| #[trigger] seen@.contains_key(k) == keys(expressions@).contains(k),
        forall|k: Seq<u8>| #[trigger] seen@.contains_key(k) ==> seen@[k] < expressions@.len() && key(expressions@[seen@[k] as int]) == k,
        e0.len() <= expressions@.len(), forall|i: int| 0 <= i < e0.len() ==> e0[i] == key(#[trigger] expressions@[i]),
        __v1@.len() == __n1, forall|j: int| 0 <= j < __n1 ==> (#[trigger] __v1@[j]) < expressions@.len() && key(expressions@[__v1@[j] as int]) == key(set@[j]),
//@@ at loop 1 start
    let ghost ke = keys(expressions@); let ghost xs = expressions@;
    proof {
        let s = base + keys(set@).take(__n1); assert(s.drop_last() =~= base + keys(set@).take(__n1 - 1)); assert(s.last() == key(*exp)); lemma_firsts(s.drop_last()); lemma_firsts(s);
        assert(ke.len() <= s.drop_last().len());
    }
//@@ at loop 1 end
    proof {
        if expressions@.len() > xs.len() { assert(expressions@ == xs.push(*exp)); assert(keys(expressions@) =~= ke.push(key(*exp))); lemma_push(ke, key(*exp)); }
    }
//@@ at loop 0 end
    proof {
        let gs = sk.take(__n0);
        assert forall|i: int| 0 <= i < gs.len() implies grouping_is(#[trigger] __v0@[i], gs[i], keys(expressions@)) by { if i < n { assert(sk.take(n)[i] == gs[i]); assert(grouping_is(__v0@[i], gs[i], e0)); } }
    }
//@@ end
proof fn lemma_push(s: Seq<Seq<u8>>, k: Seq<u8>)
    ensures forall|j: Seq<u8>| #[trigger] s.push(k).contains(j) == (s.contains(j) || j == k)
{ assert forall|j: Seq<u8>| #[trigger] s.push(k).contains(j) == (s.contains(j) || j == k) by { if s.contains(j) { let i = choose|i: int| 0 <= i < s.len() && s[i] == j; assert(s.push(k)[i] == j); } if j == k { assert(s.push(k)[s.len() as int] == j); } } }
proof fn lemma_flat_len(s: Seq<Seq<Seq<u8>>>, n: int)
    requires 0 <= n <= s.len()
    ensures flat(s.take(n)).len() <= flat(s).len()
    decreases s.len() - n
{ if n < s.len() { lemma_flat_len(s, n + 1); assert(s.take(n + 1).drop_last() =~= s.take(n)); } else { assert(s.take(n) =~= s); } }

/// The expressions of one grouping set, and the sets of a group-by clause.
spec fn set_trees(g: Tree) -> Seq<Tree> { if g.kids[0].rule == Rule::empty { Seq::empty() } else { g.kids[0].kids } }
spec fn group_trees(t: Tree) -> Seq<Seq<Tree>> { if t.rule == Rule::expression_list { seq![t.kids] } else { Seq::new(t.kids.len(), |i: int| set_trees(t.kids[i])) } }
spec fn tree_keys(x: &SimpleExtensions, s: Seq<Seq<Tree>>) -> Seq<Seq<Seq<u8>>> { Seq::new(s.len(), |i: int| keys_of(x, s[i])) }
spec fn sets_fail(x: &SimpleExtensions, s: Seq<Seq<Tree>>) -> bool { exists|i: int| 0 <= i < s.len() && exprs_fail(x, #[trigger] s[i]) }
//@@ fn src/parser/relations.rs parse_grouping_set ret=r
    requires ok(pair@), pair@.rule == Rule::grouping_set
    ensures match r { Ok(v) => exprs_are(extensions, set_trees(pair@), v@) && !exprs_fail(extensions, set_trees(pair@)), Err(_) => exprs_fail(extensions, set_trees(pair@)) }
//@@ at start
    proof { g_grouping_set(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs parse_grouping_sets ret=r
    requires ok(inner@), inner@.rule == Rule::expression_list || inner@.rule == Rule::grouping_set_list
    ensures match r { Ok(v) => set_keys(v@) == tree_keys(extensions, group_trees(inner@)) && !sets_fail(extensions, group_trees(inner@)), Err(_) => sets_fail(extensions, group_trees(inner@)) },
        flat(tree_keys(extensions, group_trees(inner@))).len() < 0x40000000
//@@ at start
    let ghost t = inner@; let ghost gt = group_trees(t);
    proof {
        lemma_group_len(extensions, t);
        if t.rule == Rule::grouping_set_list { g_grouping_set_list(t); assert forall|i: int| #![trigger gt[i]] #![trigger t.kids[i]] 0 <= i < t.kids.len() implies gt[i] == set_trees(t.kids[i]) by { } } else { assert(gt[0] == t.kids); }
        assert forall|a: Seq<Tree>, b: Seq<Expression>| #[trigger] exprs_are(extensions, a, b) implies keys(b) == keys_of(extensions, a) by {
            assert forall|i: int| 0 <= i < a.len() implies key(b[i]) == key_of(extensions, a[i]) by { axiom_key(extensions, a[i], b[i]); } assert(keys(b) =~= keys_of(extensions, a)); }
        assert forall|v: Seq<Vec<Expression>>| (v.len() == gt.len() && forall|i: int| 0 <= i < gt.len() ==> keys((#[trigger] v[i])@) == keys_of(extensions, gt[i])) implies #[trigger] set_keys(v) == tree_keys(extensions, gt) by { assert(set_keys(v) =~= tree_keys(extensions, gt)); }
    }
    broadcast use lemma_ok_kid;
//@@ closure 0 ret=Result<Vec<Expression>,MessageParseError>
    requires ok(pair@), pair@.rule == Rule::grouping_set ensures match vx_r { Ok(v) => exprs_are(extensions, set_trees(pair@), v@) && !exprs_fail(extensions, set_trees(pair@)), Err(_) => exprs_fail(extensions, set_trees(pair@)) }
//@@ end
proof fn lemma_group_len(x: &SimpleExtensions, t: Tree)
    requires ok(t), t.rule == Rule::expression_list || t.rule == Rule::grouping_set_list
    ensures flat(tree_keys(x, group_trees(t))).len() < 0x40000000
{ reveal(nodes); reveal(nodes_upto);
    let s = tree_keys(x, group_trees(t));
    if t.rule == Rule::expression_list { assert(s.drop_last() =~= Seq::empty()); assert(flat(s.drop_last()).len() == 0); assert(s.last() == keys_of(x, t.kids)); }
    else { g_grouping_set_list(t); lemma_group_upto(x, t, t.kids.len() as int); assert(s.take(t.kids.len() as int) =~= s); }
}
proof fn lemma_group_upto(x: &SimpleExtensions, t: Tree, n: int)
    requires ok(t), t.rule == Rule::grouping_set_list, 0 <= n <= t.kids.len()
    ensures flat(tree_keys(x, group_trees(t)).take(n)).len() <= nodes_upto(t, n)
    decreases n
{ reveal(nodes); reveal(nodes_upto);
    let s = tree_keys(x, group_trees(t));
    if n > 0 {
        lemma_group_upto(x, t, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); let k = t.kids[n - 1]; g_grouping_set_list(t); g_grouping_set(k);
        assert(s.take(n).last() == keys_of(x, set_trees(k)));
        if k.kids[0].rule != Rule::empty { lemma_nodes(k.kids[0], k.kids[0].kids.len() as int); lemma_nodes(k, 1); assert(nodes(k.kids[0]) <= nodes_upto(k, 1)); }
        assert(flat(s.take(n)) == flat(s.take(n).drop_last()) + s.take(n).last()); assert(nodes_upto(t, n) == nodes_upto(t, n - 1) + nodes(k)); assert(nodes(k) == 1 + nodes_upto(k, k.kids.len() as int));
    }
}
// ---- aggregate output
spec fn is_measure(x: &SimpleExtensions, t: Tree, gk: Seq<Seq<u8>>) -> bool { t.kids[0].rule == Rule::function_call && !gk.contains(key_of(x, t)) }
spec fn measures_of(x: &SimpleExtensions, t: Seq<Tree>, gk: Seq<Seq<u8>>) -> Seq<Tree>
    decreases t.len()
{ if t.len() == 0 { t } else { let m = measures_of(x, t.drop_last(), gk); if is_measure(x, t.last(), gk) { m.push(t.last().kids[0]) } else { m } } }
/// A grouping expression selects its column, a measure the next column after the groups.
spec fn agg_columns(x: &SimpleExtensions, t: Seq<Tree>, gk: Seq<Seq<u8>>) -> Seq<i32>
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { let u = t.drop_last(); agg_columns(x, u, gk).push(if is_measure(x, t.last(), gk) { (gk.len() + measures_of(x, u, gk).len()) as i32 } else { gk.index_of(key_of(x, t.last())) as i32 }) } }
spec fn item_fails(x: &SimpleExtensions, t: Tree, gk: Seq<Seq<u8>>) -> bool { expr_fails(x, t) || !gk.contains(key_of(x, t)) && (t.kids[0].rule == Rule::function_call ==> measure_fails(x, t.kids[0])) }
spec fn items_fail(x: &SimpleExtensions, t: Seq<Tree>, gk: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < t.len() && item_fails(x, #[trigger] t[i], gk) }
spec fn measures_are(x: &SimpleExtensions, t: Seq<Tree>, v: Seq<aggregate_rel::Measure>) -> bool { v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> measure_reads(x, t[i], #[trigger] v[i]) }
proof fn lemma_agg(x: &SimpleExtensions, t: Seq<Tree>, gk: Seq<Seq<u8>>)
    ensures measures_of(x, t, gk).len() <= t.len(), agg_columns(x, t, gk).len() == t.len()
    decreases t.len()
{ if t.len() > 0 { lemma_agg(x, t.drop_last(), gk); } }
//@@ fn src/parser/relations.rs parse_aggregate_output ret=r lib=iter
    requires ok(output_pair@), output_pair@.rule == Rule::aggregate_output, keys(grouping_expressions@).no_duplicates(), grouping_expressions@.len() < 0x40000000
    ensures match r { Ok((m, o)) => !items_fail(extensions, output_pair@.kids, keys(grouping_expressions@)) && measures_are(extensions, measures_of(extensions, output_pair@.kids, keys(grouping_expressions@)), m@) && o@ == agg_columns(extensions, output_pair@.kids, keys(grouping_expressions@)) && o@.len() == output_pair@.kids.len() && m@.len() <= o@.len(),
        Err(_) => items_fail(extensions, output_pair@.kids, keys(grouping_expressions@)) }
//@@ sub let mut measures = Vec::new(); => let mut measures: Vec<aggregate_rel::Measure> = Vec::new();
//@@ sub let mut output_mapping = Vec::new(); => let mut output_mapping: Vec<i32> = Vec::new();
//@@ at start
    let ghost t = output_pair@; let ghost gk = keys(grouping_expressions@);
    proof { g_aggregate_output(t); assert(t.kids.take(t.kids.len() as int) =~= t.kids); }
    broadcast use lemma_ok_kid, axiom_pairs, axiom_key;
//@@ at after 0 collect
    proof {
        assert forall|k: Seq<u8>| #[trigger] gk.contains(k) implies grouping_positions@.contains_key(k) by { let i = choose|i: int| 0 <= i < gk.len() && gk[i] == k; let e = grouping_expressions@[i]; assert(key(e) == k); }
        assert forall|k: Seq<u8>| #[trigger] grouping_positions@.contains_key(k) implies grouping_positions@[k] < gk.len() && gk[grouping_positions@[k] as int] == k && gk.contains(k) by { assert(grouping_positions@[k] < grouping_expressions@.len()); assert(key(grouping_expressions@[grouping_positions@[k] as int]) == k); assert(gk[grouping_positions@[k] as int] == k); }
    }
//@@ closure 0 ret=(Vec<u8>,usize)
    ensures vx_r.0@ == key(*__vx0.1), vx_r.1 == __vx0.0
//@@ loop 0 seq
    invariant
        t == output_pair@, ok(t), rule_aggregate_output(t), gk == keys(grouping_expressions@), gk.no_duplicates(), gk.len() < 0x40000000, t.kids.len() < 0x40000000,
        __s0.len() == t.kids.len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i])@ == t.kids[i],
        forall|k: Seq<u8>| #[trigger] grouping_positions@.contains_key(k) == gk.contains(k), forall|k: Seq<u8>| #[trigger] grouping_positions@.contains_key(k) ==> grouping_positions@[k] < gk.len() && gk[grouping_positions@[k] as int] == k,
        output_mapping@ == agg_columns(extensions, t.kids.take(__n0), gk), measures_are(extensions, measures_of(extensions, t.kids.take(__n0), gk), measures@),
        forall|i: int| 0 <= i < __n0 ==> !item_fails(extensions, #[trigger] t.kids[i], gk),
//@@ at loop 0 start
    let ghost k = t.kids[__n0 - 1]; let ghost u = t.kids.take(__n0);
    proof {
        assert(u.drop_last() =~= t.kids.take(__n0 - 1)); assert(u.last() == k); lemma_agg(extensions, u.drop_last(), gk); lemma_agg(extensions, u, gk); g_expression(k); assert(k.rule == Rule::expression); assert(ok(k)); assert(k.kids.len() > 0); if k.kids[0].rule == Rule::function_call { assert(wf(k.kids[0])); assert(small(k.kids[0])); assert(ints_ok(k.kids[0])); }
        assert forall|e: Expression| #[trigger] expr_reads(extensions, k, e) implies key(e) == key_of(extensions, k) by { axiom_key(extensions, k, e); }
        if gk.contains(key_of(extensions, k)) { let kk = key_of(extensions, k); assert(gk[gk.index_of(kk)] == kk); assert(grouping_positions@.contains_key(kk)); }
    }
//@@ at tail
    proof { lemma_agg(extensions, t.kids, gk); }
//@@ end
spec fn agg_keys(x: &SimpleExtensions, t: Tree) -> Seq<Seq<u8>> { firsts(flat(tree_keys(x, group_trees(t.kids[0].kids[0])))) }
impl RelationParsePair for AggregateRel {
    spec fn at() -> Rule { Rule::aggregate_relation }
    spec fn reads(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int, r: AggregateRel, n: int) -> bool {
        let gk = agg_keys(x, t);
        r.input is Some && *(r.input->0) == kids[0] && r.advanced_extension is None && n == t.kids[1].kids.len()
        && keys(r.grouping_expressions@) == gk && groupings_are(r.groupings@, tree_keys(x, group_trees(t.kids[0].kids[0])), gk)
        && measures_are(x, measures_of(x, t.kids[1].kids, gk), r.measures@)
        && common_is(r.common, agg_columns(x, t.kids[1].kids, gk), (gk.len() + r.measures@.len()) as int)
    }
    spec fn fails(x: &SimpleExtensions, t: Tree, kids: Seq<Rel>, width: int) -> bool { kids.len() != 1 || sets_fail(x, group_trees(t.kids[0].kids[0])) || items_fail(x, t.kids[1].kids, agg_keys(x, t)) }
    spec fn made(self, adv: Option<AdvancedExtension>, r: Rel) -> bool { r.rel_type is Some && r.rel_type->0 is Aggregate && *(r.rel_type->0->Aggregate_0) == (AggregateRel { advanced_extension: adv, ..self }) }
//@@ fn src/parser/relations.rs <RelationParsePair for AggregateRel>::rule
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for AggregateRel>::message
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for AggregateRel>::parse_pair_with_context
//@@ at start
    proof { g_aggregate_relation(pair@); g_aggregate_group_by(pair@.kids[0]); lemma_firsts(flat(tree_keys(extensions, group_trees(pair@.kids[0].kids[0])))); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs <RelationParsePair for AggregateRel>::into_rel
//@@ end
}

// ---- extension reads
//@@ trust the extension payload (crate Any) converts to the protobuf Any it stands for
#[verifier::external_body]
pub struct Any { _p: () }
uninterp spec fn payload(a: Any) -> crate::pbjson_types::Any;
#[verifier::external_body]
fn vx_into_any(a: Any) -> (r: crate::pbjson_types::Any) ensures r == payload(a) { unimplemented!() }
//@@ item src/parser/relations.rs ExtensionReadRel
spec fn ext_read_is(x: &SimpleExtensions, t: Tree, detail: Any, adv: Option<AdvancedExtension>, r: Rel, n: int) -> bool {
    r.rel_type is Some && r.rel_type->0 is Read && ({ let d = *(r.rel_type->0->Read_0);
        d.common is Some && plain(d.common->0) && d.common->0.emit_kind->0 is Direct && d.filter is None && d.best_effort_filter is None && d.projection is None && d.advanced_extension == adv
        && d.read_type is Some && d.read_type->0 is ExtensionTable && d.read_type->0->ExtensionTable_0.detail == Some(payload(detail))
        && n == t.kids[0].kids.len() && exists|cols: Seq<Column>| #[trigger] columns_are(x, t.kids[0], cols) && schema_is(d.base_schema, cols) })
}
impl ExtensionReadRel {
//@@ fn src/parser/relations.rs ExtensionReadRel::parse_pair_with_detail ret=r
    requires ok(pair@), pair@.rule == Rule::extension_read_relation
    ensures match r { Ok((v, n)) => input_children@.len() == 0 && input_field_count == 0 && !columns_fail(extensions, pair@.kids[0]) && ext_read_is(extensions, pair@, detail, advanced_extension, v, n as int) && n <= 0x40000000,
        Err(_) => input_children@.len() > 0 || input_field_count != 0 || columns_fail(extensions, pair@.kids[0]) }
//@@ sub detail.into() => vx_into_any(detail)
//@@ at start
    proof { g_extension_read_relation(pair@); }
    broadcast use lemma_ok_kid;
//@@ end
//@@ fn src/parser/relations.rs ExtensionReadRel::into_rel ret=r
    ensures r.rel_type is Some && r.rel_type->0 is Read && *(r.rel_type->0->Read_0) == self.0
//@@ end
}
} // verus!
