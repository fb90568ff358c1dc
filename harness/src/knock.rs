//! Removing or breaking exactly one required part of a plan, at every place where one exists.
#![allow(deprecated)]
use crate::checks::*;
use crate::model::*;
use sp::expression::{self as pex, RexType};
use sp::rel::RelType as R;
use substrait::proto::{self as sp, Plan};

type Hit<'a> = &'a mut dyn FnMut(&'static str) -> bool;
const NOWHERE: u32 = 77_777_777;

fn ty(t: &mut sp::Type, h: Hit) {
    use sp::r#type::Kind as K;
    if h("type without kind") { t.kind = None; return; }
    if h("unsupported type kind") { t.kind = Some(K::FixedBinary(Default::default())); if let Some(K::FixedBinary(_)) = &t.kind { t.kind = Some(K::Alias(Default::default())); } return; }
    match t.kind.as_mut() {
        Some(K::List(l)) => { if h("list without element type") { l.r#type = None; return; } if let Some(t) = l.r#type.as_mut() { ty(t, h); } if h("unspecified nullability~") { l.nullability = 0; } }
        Some(K::UserDefined(u)) => {
            if h("undeclared type anchor") { u.type_reference = NOWHERE; return; }
            if h("unspecified nullability~") { u.nullability = 0; return; }
            for p in &mut u.type_parameters { if let Some(sp::r#type::parameter::Parameter::DataType(t)) = p.parameter.as_mut() { ty(t, h); } }
        }
        Some(K::I64(x)) => if h("unspecified nullability~") { x.nullability = 0; },
        Some(K::String(x)) => if h("unknown nullability~") { x.nullability = 9; },
        _ => {}
    }
}
fn args(a: &mut [sp::FunctionArgument], h: Hit) {
    for x in a {
        if h("argument without value") { x.arg_type = None; return; }
        if let Some(sp::function_argument::ArgType::Value(e)) = x.arg_type.as_mut() { ex(e, h); }
    }
}
fn ex(e: &mut sp::Expression, h: Hit) {
    if h("expression without kind") { e.rex_type = None; return; }
    if h("unsupported expression kind") { e.rex_type = Some(RexType::SwitchExpression(Box::default())); return; }
    match e.rex_type.as_mut().unwrap() {
        RexType::Literal(l) => {
            if h("literal without value") { l.literal_type = None; return; }
            if h("unsupported literal kind") { l.literal_type = Some(pex::literal::LiteralType::FixedChar("x".into())); return; }
            if h("i8 out of range") { l.literal_type = Some(pex::literal::LiteralType::I8(1000)); return; }
            if h("non-finite float") { l.literal_type = Some(pex::literal::LiteralType::Fp64(f64::NAN)); return; }
            if h("unsupported precision") { l.literal_type = Some(pex::literal::LiteralType::PrecisionTimestamp(pex::literal::PrecisionTimestamp { precision: 5, value: 0 })); return; }
            if h("date out of range") { l.literal_type = Some(pex::literal::LiteralType::Date(i32::MAX)); return; }
            if let Some(pex::literal::LiteralType::Null(t)) = l.literal_type.as_mut() { ty(t, h); }
        }
        RexType::Selection(f) => {
            if h("reference without kind") { f.reference_type = None; return; }
            if h("unsupported reference root") { f.root_type = Some(pex::field_reference::RootType::OuterReference(Default::default())); return; }
            if h("masked reference") { f.reference_type = Some(pex::field_reference::ReferenceType::MaskedReference(Default::default())); return; }
            if let Some(pex::field_reference::ReferenceType::DirectReference(s)) = f.reference_type.as_mut() {
                if h("reference segment without kind") { s.reference_type = None; return; }
                if h("list element reference") { s.reference_type = Some(pex::reference_segment::ReferenceType::ListElement(Box::default())); return; }
                if let Some(pex::reference_segment::ReferenceType::StructField(sf)) = s.reference_type.as_mut() { if h("nested field reference") { sf.child = Some(Box::default()); } }
            }
        }
        RexType::ScalarFunction(f) => {
            if h("undeclared function anchor") { f.function_reference = NOWHERE; return; }
            if h("function without output type") { f.output_type = None; return; }
            args(&mut f.arguments, h);
            if let Some(t) = f.output_type.as_mut() { ty(t, h); }
        }
        RexType::Cast(c) => {
            if h("cast without input") { c.input = None; return; }
            if h("cast without type") { c.r#type = None; return; }
            if h("unknown cast failure behaviour") { c.failure_behavior = 9; return; }
            if let Some(e) = c.input.as_mut() { ex(e, h); }
            if let Some(t) = c.r#type.as_mut() { ty(t, h); }
        }
        RexType::IfThen(i) => {
            if h("if_then without else") { i.r#else = None; return; }
            for c in &mut i.ifs {
                if h("clause without condition") { c.r#if = None; return; }
                if h("clause without result") { c.then = None; return; }
                if let Some(e) = c.r#if.as_mut() { ex(e, h); }
                if let Some(e) = c.then.as_mut() { ex(e, h); }
            }
            if let Some(e) = i.r#else.as_mut() { ex(e, h); }
        }
        _ => {}
    }
}
fn common(c: &mut Option<sp::RelCommon>, h: Hit) {
    if let Some(sp::RelCommon { emit_kind: Some(sp::rel_common::EmitKind::Emit(e)), .. }) = c.as_mut() {
        for i in 0..e.output_mapping.len() {
            if h("output mapping beyond the direct columns") { e.output_mapping[i] = i32::MAX; return; }
            if h("negative output mapping") { e.output_mapping[i] = -1; return; }
        }
    }
}
fn adv(a: &mut Option<sp::extensions::AdvancedExtension>, h: Hit) {
    if let Some(a) = a {
        if let Some(e) = a.enhancement.as_mut() { if h("enhancement of an unregistered type") { e.type_url = "t/unknown".into(); return; } if h("enhancement payload that does not decode") { e.value = vec![1, 2, 3].into(); return; } }
        for e in &mut a.optimization { if h("optimization of an unregistered type") { e.type_url = "t/unknown".into(); return; } if h("optimization whose handler fails") { e.type_url = "t/fails".into(); return; } }
    }
}
fn detail(d: &mut Option<pbjson_types::Any>, h: Hit) {
    if h("extension without detail") { *d = None; return; }
    if let Some(d) = d { if h("extension of an unregistered type") { d.type_url = "t/unknown".into(); return; } if h("extension payload that does not decode") { d.value = vec![1, 2, 3].into(); } }
}
fn input(i: &mut Option<Box<sp::Rel>>, h: Hit) {
    if h("missing input") { *i = None; return; }
    if let Some(r) = i.as_mut() { rel(r, h); }
}
fn rel(r: &mut sp::Rel, h: Hit) {
    if h("relation without kind") { r.rel_type = None; return; }
    if h("unsupported relation kind") { r.rel_type = Some(R::HashJoin(Box::default())); return; }
    match r.rel_type.as_mut().unwrap() {
        R::Read(x) => {
            if h("read without schema") { x.base_schema = None; return; }
            if h("read without read type") { x.read_type = None; return; }
            if h("unsupported read type") { x.read_type = Some(sp::read_rel::ReadType::LocalFiles(Default::default())); return; }
            // an explicit mapping of a named-table read is written out literally, whatever it refers to
            adv(&mut x.advanced_extension, h);
            let mapped = matches!(&x.common, Some(sp::RelCommon { emit_kind: Some(sp::rel_common::EmitKind::Emit(_)), .. }));
            if let Some(s) = x.base_schema.as_mut() {
                if !s.names.is_empty() && h("fewer names than types") { s.names.pop(); return; }
                if !mapped { if let Some(t) = s.r#struct.as_mut() { for t in &mut t.types { ty(t, h); } } }
            }
            match x.read_type.as_mut() {
                Some(sp::read_rel::ReadType::VirtualTable(v)) => { for row in &mut v.expressions { for e in &mut row.fields { ex(e, h); } } if let Some(f) = x.filter.as_mut() { ex(f, h); } }
                Some(sp::read_rel::ReadType::ExtensionTable(t)) => detail(&mut t.detail, h),
                _ => {}
            }
        }
        R::Filter(x) => { if h("filter without condition") { x.condition = None; return; } input(&mut x.input, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h); if let Some(e) = x.condition.as_mut() { ex(e, h); } }
        R::Project(x) => { note_beyond(x); input(&mut x.input, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h); for e in &mut x.expressions { ex(e, h); } }
        R::Aggregate(x) => {
            input(&mut x.input, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h);
            for g in &mut x.groupings { for i in 0..g.expression_references.len() { if h("grouping reference out of range") { g.expression_references[i] = NOWHERE; return; } } }
            for e in &mut x.grouping_expressions { ex(e, h); }
            for m in &mut x.measures {
                if h("measure without function") { m.measure = None; return; }
                if let Some(f) = m.measure.as_mut() {
                    if h("undeclared measure anchor") { f.function_reference = NOWHERE; return; }
                    if h("measure without output type") { f.output_type = None; return; }
                    args(&mut f.arguments, h);
                    if let Some(t) = f.output_type.as_mut() { ty(t, h); }
                }
            }
        }
        R::Sort(x) => {
            input(&mut x.input, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h);
            for s in &mut x.sorts {
                if h("sort field without expression") { s.expr = None; return; }
                if h("sort field without direction") { s.sort_kind = None; return; }
                if h("unspecified sort direction") { s.sort_kind = Some(sp::sort_field::SortKind::Direction(0)); return; }
                if h("unknown sort direction") { s.sort_kind = Some(sp::sort_field::SortKind::Direction(77)); return; }
                if h("sort by comparison function") { s.sort_kind = Some(sp::sort_field::SortKind::ComparisonFunctionReference(1)); return; }
                if let Some(e) = s.expr.as_mut() { ex(e, h); }
            }
        }
        R::Fetch(x) => {
            input(&mut x.input, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h);
            if let Some(sp::fetch_rel::CountMode::CountExpr(e)) = x.count_mode.as_mut() { ex(e, h); }
            if let Some(sp::fetch_rel::OffsetMode::OffsetExpr(e)) = x.offset_mode.as_mut() { ex(e, h); }
        }
        R::Join(x) => {
            if h("join without condition") { x.expression = None; return; }
            if h("unspecified join type") { x.r#type = 0; return; }
            if h("unknown join type") { x.r#type = 99; return; }
            input(&mut x.left, h); input(&mut x.right, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h);
            if let Some(e) = x.expression.as_mut() { ex(e, h); }
            if let Some(e) = x.post_join_filter.as_mut() { ex(e, h); }
        }
        R::Set(x) => {
            if h("unspecified set operation") { x.op = 0; return; }
            if h("unknown set operation") { x.op = 99; return; }
            common(&mut x.common, h); adv(&mut x.advanced_extension, h);
            for i in &mut x.inputs { rel(i, h); }
        }
        R::Cross(x) => { input(&mut x.left, h); input(&mut x.right, h); common(&mut x.common, h); adv(&mut x.advanced_extension, h); }
        R::ExtensionLeaf(x) => detail(&mut x.detail, h),
        R::ExtensionSingle(x) => { detail(&mut x.detail, h); input(&mut x.input, h); }
        R::ExtensionMulti(x) => { detail(&mut x.detail, h); for i in &mut x.inputs { rel(i, h); } }
        _ => {}
    }
}
thread_local!(static BEYOND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// A projection whose mapping refers to one of its own expressions a second time: its text had a field
/// reference beyond the columns of its input.
fn note_beyond(x: &sp::ProjectRel) {
    let e = x.expressions.len() as i32;
    if let Some(sp::RelCommon { emit_kind: Some(sp::rel_common::EmitKind::Emit(m)), .. }) = &x.common {
        if let Some(top) = m.output_mapping.iter().max() { if m.output_mapping.iter().filter(|i| **i > top.wrapping_sub(e)).count() as i32 > e && e > 0 { BEYOND.set(true); } }
    }
}
pub fn project_beyond(p: &Plan) -> bool { BEYOND.set(false); visit(&mut p.clone(), &mut |_| false); BEYOND.get() }
fn visit(p: &mut Plan, h: Hit) {
    for r in &mut p.relations {
        if h("plan relation without kind") { r.rel_type = None; return; }
        match r.rel_type.as_mut() {
            Some(sp::plan_rel::RelType::Rel(x)) => rel(x, h),
            Some(sp::plan_rel::RelType::Root(x)) => { if h("root without input") { x.input = None; return; } if let Some(i) = x.input.as_mut() { rel(i, h); } }
            None => {}
        }
    }
    for i in 0..p.extensions.len() {
        if h("declaration without mapping~") { p.extensions[i].mapping_type = None; return; }
    }
    if let Some(u) = p.extension_urns.first().cloned() { if h("URN anchor declared twice~") { p.extension_urns.push(u); } }
}
pub fn count(p: &Plan) -> usize { let mut n = 0; visit(&mut p.clone(), &mut |_| { n += 1; false }); n }
pub fn apply(p: &mut Plan, k: usize) -> &'static str {
    let (mut n, mut what) = (0, "");
    visit(p, &mut |w| { n += 1; if n == k + 1 { what = w; true } else { false } });
    what
}
/// Kinds the text format has no syntax for: each must be reported and marked.
pub fn fixed() -> Vec<(&'static str, Plan, bool)> {
    use sp::r#type as t;
    use sp::r#type::Kind as K;
    let mut v: Vec<(&'static str, Plan, bool)> = vec![];
    let base = || proto(&doc1(node(Rel::Filter { cond: Ex::Ref(0), out: vec![0] }, vec![read_n(1)])));
    // expressions
    let rex = vec![
        RexType::WindowFunction(Default::default()), RexType::SingularOrList(Default::default()), RexType::MultiOrList(Default::default()), RexType::Subquery(Default::default()), RexType::Nested(Default::default()), RexType::DynamicParameter(Default::default()), RexType::SwitchExpression(Default::default()),
    ];
    for x in rex { let mut p = base(); cond_mut(&mut p).rex_type = Some(x); v.push(("unsupported expression kind", p, true)); }
    // relations
    let rels: Vec<R> = vec![R::HashJoin(Default::default()), R::MergeJoin(Default::default()), R::NestedLoopJoin(Default::default()), R::Window(Default::default()), R::Exchange(Default::default()), R::Expand(Default::default()), R::Write(Default::default()), R::Ddl(Default::default()), R::Update(Default::default()), R::Reference(Default::default())];
    for r in rels {
        for deep in [false, true] {
            let mut p = base();
            let new = sp::Rel { rel_type: Some(r.clone()) };
            if deep { if let Some(sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(R::Filter(f)) })) = p.relations[0].rel_type.as_mut() { f.input = Some(Box::new(new)); } } else { p.relations[0].rel_type = Some(sp::plan_rel::RelType::Rel(new)); }
            v.push(("unsupported relation kind", p, true));
        }
    }
    // types
    for k in [K::Alias(Default::default()), K::Func(Box::default())] {
        let mut p = base();
        cond_mut(&mut p).rex_type = Some(RexType::Cast(Box::new(pex::Cast { r#type: Some(sp::Type { kind: Some(k) }), input: Some(Box::new(ref_proto(0))), failure_behavior: 0 })));
        v.push(("unsupported type kind", p, true));
    }
    let _ = t::Nullability::Required;
    // literals
    use pex::literal::LiteralType as L;
    for l in [L::FixedChar("a".into()), L::VarChar(Default::default()), L::FixedBinary(vec![1]), L::Decimal(Default::default()), L::Struct(Default::default()), L::Map(Default::default()), L::TimestampTz(0), L::Uuid(vec![0; 16]), L::List(Default::default()), L::EmptyList(Default::default()), L::EmptyMap(Default::default()), L::UserDefined(Default::default()), L::IntervalYearToMonth(Default::default()), L::IntervalCompound(Default::default())] {
        let mut p = base(); set_lit(&mut p, l); v.push(("unsupported literal kind", p, true));
    }
    v
}
