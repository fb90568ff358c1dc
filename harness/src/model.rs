//! Reference model: an abstract document with two independent denotations, the text it is
//! written as (`text`) and the Substrait plan it means (`proto`). Nothing here calls the crate
//! under test.
#![allow(deprecated)]
use substrait::proto as sp;
use sp::expression::literal::{self as plit, LiteralType};
use sp::expression::{self as pex, RexType};
use sp::r#type::{self as pt, Kind};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Simple { Bool, I8, I16, I32, I64, Fp32, Fp64, Str, Binary, Date, Time, Timestamp, TimestampTz, IntervalYear, Uuid }
pub const SIMPLES: [Simple; 15] = [Simple::Bool, Simple::I8, Simple::I16, Simple::I32, Simple::I64, Simple::Fp32, Simple::Fp64, Simple::Str, Simple::Binary, Simple::Date, Simple::Time, Simple::Timestamp, Simple::TimestampTz, Simple::IntervalYear, Simple::Uuid];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PrecK { Time, Timestamp, TimestampTz, IntervalDay }
pub const PRECS: [PrecK; 4] = [PrecK::Time, PrecK::Timestamp, PrecK::TimestampTz, PrecK::IntervalDay];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { S(Simple, bool), P(PrecK, i32, bool), L(Box<Ty>, bool), U(u32, Vec<TP>, bool) }
#[derive(Clone, Debug, PartialEq)]
pub enum TP { T(Ty), I(i64) }

#[derive(Clone, Debug, PartialEq)]
pub enum LitV { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), F32(f32), F64(f64), Str(String), Date(i32), Time(i64), Timestamp(i64), PTime(i32, i64), PTs(i32, i64), PTsTz(i32, i64), Interval { p: i32, days: i32, secs: i32, sub: i64 }, Null(Ty) }
#[derive(Clone, Debug, PartialEq)]
pub struct Lit { pub v: LitV, pub nullable: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum Ex { Ref(i32), Lit(Lit), Call(Call), Cast(Box<Ex>, i32, Ty), If(Vec<(Ex, Ex)>, Box<Ex>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub f: u32, pub args: Vec<Ex>, pub ty: Ty }

#[derive(Clone, Debug, PartialEq)]
pub enum XVal { Str(String), Int(i64), Float(f64), Bool(bool), Null, Ex(Ex), Enum(String), Tuple(Vec<XVal>) }
#[derive(Clone, Debug, PartialEq)]
pub enum XCol { Named(String, Ty), Ex(Ex) }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct XArgs { pub pos: Vec<XVal>, pub named: Vec<(String, XVal)>, pub cols: Vec<XCol> }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AddK { Ext, Enh, Opt }
#[derive(Clone, Debug, PartialEq)]
pub struct Add { pub k: AddK, pub name: String, pub url: String, pub args: XArgs }

#[derive(Clone, Debug, PartialEq)]
pub enum PI { Ref(i32), Ex(Ex) }
#[derive(Clone, Debug, PartialEq)]
pub enum AO { G(usize), M(Call) }
#[derive(Clone, Debug, PartialEq)]
pub enum Lim { Int(i64), Ex(Ex) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ExtK { Leaf, Single, Multi }

#[derive(Clone, Debug, PartialEq)]
pub enum Rel {
    Read { names: Vec<String>, cols: Vec<(String, Ty)>, map: Option<Vec<i32>> },
    Virt { rows: Vec<Vec<Ex>>, filter: Option<Ex>, cols: Vec<(String, Ty)> },
    ExtRead { cols: Vec<(String, Ty)> },
    Filter { cond: Ex, out: Vec<i32> },
    Project { items: Vec<PI> },
    Agg { sets: Vec<Vec<Ex>>, outs: Vec<AO> },
    Sort { fields: Vec<(Ex, i32)>, out: Vec<i32> },
    Fetch { limit: Option<Lim>, offset: Option<Lim>, out: Vec<i32> },
    Join { ty: i32, cond: Ex, post: Option<Ex>, out: Vec<i32> },
    Set { op: i32, out: Vec<i32> },
    Cross { out: Vec<i32> },
    Ext { k: ExtK, name: String, url: String, args: XArgs },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node { pub rel: Rel, pub adds: Vec<Add>, pub inputs: Vec<Node> }
#[derive(Clone, Debug, PartialEq)]
pub enum Top { Root(Vec<String>, Node), Rel(Node) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum XK { Function, Type, Variation }
#[derive(Clone, Debug, PartialEq)]
pub struct Decl { pub k: XK, pub anchor: u32, pub urn: u32, pub name: String }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Table { pub urns: Vec<(u32, String)>, pub decls: Vec<Decl> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ver { pub n: (u32, u32, u32), pub producer: String, pub git: String }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc { pub ver: Option<Ver>, pub tab: Table, pub tops: Vec<Top> }

#[derive(Clone, Debug)]
pub struct Opts { pub anchors: bool, pub lits: bool, pub threshold: usize, pub indent: String }
impl Default for Opts { fn default() -> Self { Opts { anchors: false, lits: false, threshold: 3, indent: "  ".into() } } }
impl Opts { pub fn verbose() -> Self { Opts { anchors: true, lits: true, ..Default::default() } } }

pub const JOIN_TYPES: [(i32, &str); 12] = [(1, "Inner"), (2, "Outer"), (3, "Left"), (4, "Right"), (5, "LeftSemi"), (6, "LeftAnti"), (7, "LeftSingle"), (8, "RightSemi"), (9, "RightAnti"), (10, "RightSingle"), (11, "LeftMark"), (12, "RightMark")];
pub const SET_OPS: [(i32, &str); 8] = [(1, "MinusPrimary"), (7, "MinusPrimaryAll"), (2, "MinusMultiset"), (3, "IntersectionPrimary"), (4, "IntersectionMultiset"), (8, "IntersectionMultisetAll"), (5, "UnionDistinct"), (6, "UnionAll")];
pub const SORT_DIRS: [(i32, &str); 5] = [(1, "AscNullsFirst"), (2, "AscNullsLast"), (3, "DescNullsFirst"), (4, "DescNullsLast"), (5, "Clustered")];

// ---------------------------------------------------------------- text
pub fn is_ident(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
pub fn quoted(q: char, s: &str) -> String { format!("{q}{}{q}", s.escape_debug()) }
pub fn name(s: &str) -> String { if is_ident(s) { s.to_string() } else { quoted('"', s) } }
pub fn float_text(t: String) -> String { if t.contains('.') { t } else { t + ".0" } }

/// Civil date from days since 1970-01-01 (proleptic Gregorian).
pub fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d)
}
pub fn date_text(days: i64) -> String {
    let (y, m, d) = civil(days);
    let ys = if (0..=9999).contains(&y) { format!("{y:04}") } else if y < 0 { format!("-{:04}", -y) } else { format!("+{y}") };
    format!("{ys}-{m:02}-{d:02}")
}
pub fn hms_text(secs: i64, frac: u64, p: i32) -> String {
    let f = match p { 0 => String::new(), 3 => format!(".{frac:03}"), 6 => format!(".{frac:06}"), 9 => format!(".{frac:09}"), _ => unreachable!() };
    format!("{:02}:{:02}:{:02}{f}", secs / 3600, secs / 60 % 60, secs % 60)
}
pub fn pow10(p: i32) -> i64 { 10i64.pow(p as u32) }
pub fn time_text(v: i64, p: i32) -> String { hms_text(v / pow10(p), (v % pow10(p)) as u64, p) }
pub fn ts_text(v: i64, p: i32) -> String {
    let secs = v.div_euclid(pow10(p));
    let frac = v.rem_euclid(pow10(p));
    format!("{}T{}", date_text(secs.div_euclid(86_400)), hms_text(secs.rem_euclid(86_400), frac as u64, p))
}
pub fn interval_text(p: i32, days: i32, secs: i32, sub: i64) -> String {
    let mut t = vec![];
    if days != 0 { t.push(format!("{days}d")); }
    if secs != 0 { t.push(format!("{secs}s")); }
    if sub != 0 { t.push(format!("{sub}{}", match p { 3 => "ms", 6 => "us", 9 => "ns", 12 => "ps", _ => panic!("no unit") })); }
    if t.is_empty() { "0s".into() } else { t.join(" ") }
}

pub fn simple_name(s: Simple) -> &'static str {
    match s { Simple::Bool => "boolean", Simple::I8 => "i8", Simple::I16 => "i16", Simple::I32 => "i32", Simple::I64 => "i64", Simple::Fp32 => "fp32", Simple::Fp64 => "fp64", Simple::Str => "string", Simple::Binary => "binary", Simple::Date => "date", Simple::Time => "time", Simple::Timestamp => "timestamp", Simple::TimestampTz => "timestamp_tz", Simple::IntervalYear => "interval_year", Simple::Uuid => "uuid" }
}
pub fn prec_name(p: PrecK) -> &'static str {
    match p { PrecK::Time => "precisiontime", PrecK::Timestamp => "precisiontimestamp", PrecK::TimestampTz => "precisiontimestamptz", PrecK::IntervalDay => "interval_day" }
}
pub fn builtin(n: &str) -> bool {
    SIMPLES.iter().any(|s| simple_name(*s) == n)
        || ["list", "map", "struct", "precisiontimestamptz", "precisiontimestamp", "precisiontime", "interval_day"].contains(&n.to_ascii_lowercase().as_str())
}

impl Table {
    pub fn get(&self, k: XK, a: u32) -> Option<&Decl> { self.decls.iter().find(|d| d.k == k && d.anchor == a) }
    /// Shortest unambiguous spelling of a reference.
    pub fn reference(&self, k: XK, a: u32, o: &Opts) -> String {
        let d = self.get(k, a).expect("declared");
        let base = |n: &str| n.split(':').next().unwrap().to_string();
        let same_full = self.decls.iter().filter(|e| e.k == k && e.name == d.name).count() > 1;
        let same_base = self.decls.iter().filter(|e| e.k == k && base(&e.name) == base(&d.name)).count() > 1;
        let mut s = if o.anchors || same_base { d.name.clone() } else { base(&d.name) };
        if o.anchors || same_full || (same_base && !d.name.contains(':')) { s += &format!("#{a}"); }
        s
    }
    pub fn text(&self, indent: &str) -> String {
        let mut s = String::new();
        if self.urns.is_empty() && self.decls.is_empty() { return s; }
        s += "=== Extensions\n";
        let mut u = self.urns.clone();
        u.sort();
        if !u.is_empty() {
            s += "URNs:\n";
            for (a, n) in &u { s += &format!("{indent}@{a:3}: {n}\n"); }
        }
        for (k, h) in [(XK::Function, "Functions:"), (XK::Type, "Types:"), (XK::Variation, "Type Variations:")] {
            let mut ds: Vec<&Decl> = self.decls.iter().filter(|d| d.k == k).collect();
            ds.sort_by_key(|d| d.anchor);
            if !ds.is_empty() {
                s += h;
                s.push('\n');
                for d in ds { s += &format!("{indent}#{:3} @{:3}: {}\n", d.anchor, d.urn, d.name); }
            }
        }
        s
    }
}

pub fn ty(t: &Ty, tab: &Table, o: &Opts) -> String {
    let q = |n: &bool| if *n { "?" } else { "" };
    match t {
        Ty::S(s, n) => format!("{}{}", simple_name(*s), q(n)),
        Ty::P(k, p, n) => format!("{}{}<{p}>", prec_name(*k), q(n)),
        Ty::L(e, n) => format!("list{}<{}>", q(n), ty(e, tab, o)),
        Ty::U(a, ps, n) => {
            let r = tab.reference(XK::Type, *a, o);
            let pre = if builtin(&tab.get(XK::Type, *a).unwrap().name) { "u!" } else { "" };
            let ps = if ps.is_empty() { String::new() } else {
                format!("<{}>", ps.iter().map(|p| match p { TP::T(t) => ty(t, tab, o), TP::I(i) => i.to_string() }).collect::<Vec<_>>().join(", "))
            };
            format!("{pre}{r}{}{ps}", q(n))
        }
    }
}
pub fn lit_value(v: &LitV) -> String {
    match v {
        LitV::Bool(b) => b.to_string(),
        LitV::I8(i) => i.to_string(), LitV::I16(i) => i.to_string(), LitV::I32(i) => i.to_string(), LitV::I64(i) => i.to_string(),
        LitV::F32(f) => float_text(f.to_string()), LitV::F64(f) => float_text(f.to_string()),
        LitV::Str(s) => quoted('\'', s),
        LitV::Date(d) => format!("'{}'", date_text(*d as i64)),
        LitV::Time(v) => format!("'{}'", time_text(*v, 6)),
        LitV::Timestamp(v) => format!("'{}'", ts_text(*v, 6)),
        LitV::PTime(p, v) => format!("'{}'", time_text(*v, *p)),
        LitV::PTs(p, v) | LitV::PTsTz(p, v) => format!("'{}'", ts_text(*v, *p)),
        LitV::Interval { p, days, secs, sub } => format!("'{}'", interval_text(*p, *days, *secs, *sub)),
        LitV::Null(_) => "null".into(),
    }
}
pub fn lit_type(l: &Lit) -> Ty {
    let n = l.nullable;
    match &l.v {
        LitV::Bool(_) => Ty::S(Simple::Bool, n), LitV::I8(_) => Ty::S(Simple::I8, n), LitV::I16(_) => Ty::S(Simple::I16, n), LitV::I32(_) => Ty::S(Simple::I32, n), LitV::I64(_) => Ty::S(Simple::I64, n),
        LitV::F32(_) => Ty::S(Simple::Fp32, n), LitV::F64(_) => Ty::S(Simple::Fp64, n), LitV::Str(_) => Ty::S(Simple::Str, n), LitV::Date(_) => Ty::S(Simple::Date, n),
        LitV::Time(_) => Ty::S(Simple::Time, n), LitV::Timestamp(_) => Ty::S(Simple::Timestamp, n),
        LitV::PTime(p, _) => Ty::P(PrecK::Time, *p, n), LitV::PTs(p, _) => Ty::P(PrecK::Timestamp, *p, n), LitV::PTsTz(p, _) => Ty::P(PrecK::TimestampTz, *p, n),
        LitV::Interval { p, .. } => Ty::P(PrecK::IntervalDay, *p, n),
        LitV::Null(t) => t.clone(),
    }
}
pub fn lit(l: &Lit, tab: &Table, o: &Opts) -> String {
    let default = matches!(l.v, LitV::Bool(_) | LitV::I64(_) | LitV::F64(_) | LitV::Str(_)) && !l.nullable;
    if default && !o.lits { lit_value(&l.v) } else { format!("{}:{}", lit_value(&l.v), ty(&lit_type(l), tab, o)) }
}
pub fn list(xs: &[Ex], tab: &Table, o: &Opts) -> String { xs.iter().map(|a| ex(a, tab, o)).collect::<Vec<_>>().join(", ") }
pub fn call(c: &Call, tab: &Table, o: &Opts) -> String {
    format!("{}({}):{}", tab.reference(XK::Function, c.f, o), list(&c.args, tab, o), ty(&c.ty, tab, o))
}
pub fn ex(e: &Ex, tab: &Table, o: &Opts) -> String {
    match e {
        Ex::Ref(i) => format!("${i}"),
        Ex::Lit(l) => lit(l, tab, o),
        Ex::Call(c) => call(c, tab, o),
        Ex::Cast(e, m, t) => format!("({})::{}{}", ex(e, tab, o), ["", "?", "!"][*m as usize], ty(t, tab, o)),
        Ex::If(cs, d) => {
            let mut s = String::from("if_then(");
            for (c, r) in cs { s += &format!("{} -> {}, ", ex(c, tab, o), ex(r, tab, o)); }
            s + &format!("_ -> {})", ex(d, tab, o))
        }
    }
}
pub fn xval(v: &XVal, tab: &Table, o: &Opts) -> String {
    match v {
        XVal::Str(s) => quoted('\'', s), XVal::Int(i) => i.to_string(), XVal::Float(f) => float_text(f.to_string()), XVal::Bool(b) => b.to_string(), XVal::Null => "null".into(),
        XVal::Ex(e) => ex(e, tab, o), XVal::Enum(s) => format!("&{s}"),
        XVal::Tuple(vs) if vs.len() == 1 => format!("({},)", xval(&vs[0], tab, o)),
        XVal::Tuple(vs) => format!("({})", vs.iter().map(|v| xval(v, tab, o)).collect::<Vec<_>>().join(", ")),
    }
}
pub fn xargs_only(a: &XArgs, tab: &Table, o: &Opts) -> String {
    let mut p: Vec<String> = a.pos.iter().map(|v| xval(v, tab, o)).collect();
    p.extend(a.named.iter().map(|(n, v)| format!("{}={}", name(n), xval(v, tab, o))));
    if p.is_empty() { "_".into() } else { p.join(", ") }
}
fn cols(cs: &[(String, Ty)], tab: &Table, o: &Opts) -> String { cs.iter().map(|(n, t)| format!("{}:{}", name(n), ty(t, tab, o))).collect::<Vec<_>>().join(", ") }
pub fn refs(r: &[i32]) -> String { r.iter().map(|i| format!("${i}")).collect::<Vec<_>>().join(", ") }

pub fn distinct(sets: &[Vec<Ex>]) -> Vec<Ex> {
    let mut d: Vec<Ex> = vec![];
    for s in sets { for e in s { if !d.iter().any(|x| ex_key(x) == ex_key(e)) { d.push(e.clone()); } } }
    d
}
/// Structural identity (floats by bits).
pub fn ex_key(e: &Ex) -> String { format!("{:?}", ex_proto(e)) }

pub fn header(r: &Rel, tab: &Table, o: &Opts, ind: &str) -> String {
    match r {
        Rel::Read { names, cols: c, map } => {
            let t = names.iter().map(|n| name(n)).collect::<Vec<_>>().join(".");
            match map {
                None => format!("Read[{t} => {}]", cols(c, tab, o)),
                Some(m) => format!("Read[{t} +> {} |> {}]", cols(c, tab, o), refs(m)),
            }
        }
        Rel::Virt { rows, filter, cols: c } => {
            let mut parts: Vec<String> = rows.iter().map(|r| format!("({})", list(r, tab, o))).collect();
            let multi = !rows.is_empty() && rows.len() >= o.threshold;
            if rows.is_empty() { parts.push("_".into()); }
            if let Some(f) = filter { parts.push(format!("filter={}", ex(f, tab, o))); }
            if multi {
                let i2 = format!("{ind}{}", o.indent);
                let mut s = String::from("Read:Virtual[\n");
                for (i, p) in parts.iter().enumerate() { s += &format!("{i2}- {p}{}\n", if i + 1 < parts.len() { "," } else { "" }); }
                s + &format!("{i2}- => {}]", cols(c, tab, o))
            } else { format!("Read:Virtual[{} => {}]", parts.join(", "), cols(c, tab, o)) }
        }
        Rel::ExtRead { cols: c } => format!("Read:Extension[{}]", cols(c, tab, o)),
        Rel::Filter { cond, out } => format!("Filter[{} => {}]", ex(cond, tab, o), refs(out)),
        Rel::Project { items } => format!("Project[{}]", items.iter().map(|i| match i { PI::Ref(r) => format!("${r}"), PI::Ex(e) => ex(e, tab, o) }).collect::<Vec<_>>().join(", ")),
        Rel::Agg { sets, outs } => {
            let g = if sets.len() == 1 { if sets[0].is_empty() { "_".into() } else { list(&sets[0], tab, o) } } else {
                sets.iter().map(|s| if s.is_empty() { "_".to_string() } else { format!("({})", list(s, tab, o)) }).collect::<Vec<_>>().join(", ")
            };
            let d = distinct(sets);
            format!("Aggregate[{g} => {}]", outs.iter().map(|x| match x { AO::G(i) => ex(&d[*i], tab, o), AO::M(c) => call(c, tab, o) }).collect::<Vec<_>>().join(", "))
        }
        Rel::Sort { fields, out } => {
            let f = if fields.is_empty() { "_".into() } else { fields.iter().map(|(e, d)| format!("({}, &{})", ex(e, tab, o), SORT_DIRS.iter().find(|x| x.0 == *d).unwrap().1)).collect::<Vec<_>>().join(", ") };
            format!("Sort[{f} => {}]", refs(out))
        }
        Rel::Fetch { limit, offset, out } => {
            let l = |l: &Lim| match l { Lim::Int(i) if !o.lits => i.to_string(), Lim::Int(i) => format!("{i}:i64"), Lim::Ex(e) => ex(e, tab, o) };
            let mut p = vec![];
            if let Some(x) = limit { p.push(format!("limit={}", l(x))); }
            if let Some(x) = offset { p.push(format!("offset={}", l(x))); }
            format!("Fetch[{} => {}]", if p.is_empty() { "_".into() } else { p.join(", ") }, refs(out))
        }
        Rel::Join { ty: t, cond, post, out } => {
            let pf = post.as_ref().map(|p| format!(", post_filter={}", ex(p, tab, o))).unwrap_or_default();
            format!("Join[&{}, {}{pf} => {}]", JOIN_TYPES.iter().find(|x| x.0 == *t).unwrap().1, ex(cond, tab, o), refs(out))
        }
        Rel::Set { op, out } => format!("Set[&{} => {}]", SET_OPS.iter().find(|x| x.0 == *op).unwrap().1, refs(out)),
        Rel::Cross { out } => format!("Cross[{}]", refs(out)),
        Rel::Ext { k, name: n, args, .. } => {
            let c = args.cols.iter().map(|c| match c { XCol::Named(n, t) if ["true", "false", "null"].contains(&n.as_str()) => format!("\"{n}\":{}", ty(t, tab, o)), XCol::Named(n, t) => format!("{}:{}", name(n), ty(t, tab, o)), XCol::Ex(e) => ex(e, tab, o) }).collect::<Vec<_>>().join(", ");
            format!("Extension{k:?}:{}[{} => {c}]", name(n), xargs_only(args, tab, o))
        }
    }
}
pub fn node_text(n: &Node, tab: &Table, o: &Opts, depth: usize, s: &mut String) {
    let ind = o.indent.repeat(depth);
    *s += &format!("{ind}{}\n", header(&n.rel, tab, o, &ind));
    let i2 = o.indent.repeat(depth + 1);
    for k in [AddK::Ext, AddK::Enh, AddK::Opt] {
        for a in n.adds.iter().filter(|a| a.k == k) { *s += &format!("{i2}+ {k:?}:{}[{}]\n", name(&a.name), xargs_only(&a.args, tab, o)); }
    }
    for c in &n.inputs { node_text(c, tab, o, depth + 1, s); }
}
pub fn ver_text(v: &Ver, indent: &str) -> String {
    let mut s = format!("=== Version {}.{}.{}\n", v.n.0, v.n.1, v.n.2);
    if !v.producer.is_empty() { s += &format!("{indent}producer: {}\n", v.producer); }
    if !v.git.is_empty() { s += &format!("{indent}git_hash: {}\n", v.git); }
    s
}
/// The blank line that ends the non-empty leading sections follows the code's documented layout.
pub fn text(d: &Doc, o: &Opts) -> String {
    let mut s = String::new();
    if let Some(v) = &d.ver { s += &ver_text(v, &o.indent); }
    let t = d.tab.text(&o.indent);
    s += &t;
    if !t.is_empty() { s.push('\n'); }
    s += "=== Plan\n";
    for (i, t) in d.tops.iter().enumerate() {
        if i > 0 { s.push('\n'); }
        match t {
            Top::Rel(n) => node_text(n, &d.tab, o, 0, &mut s),
            Top::Root(ns, n) => {
                s += &format!("Root[{}]\n", ns.iter().map(|n| name(n)).collect::<Vec<_>>().join(", "));
                node_text(n, &d.tab, o, 1, &mut s);
            }
        }
    }
    s
}

// ---------------------------------------------------------------- proto
pub fn nul(n: bool) -> i32 { if n { 1 } else { 2 } }
pub fn ty_proto(t: &Ty) -> sp::Type {
    macro_rules! k { ($v:ident, $m:ident, $n:expr) => { Kind::$v(pt::$m { nullability: nul($n), type_variation_reference: 0 }) } }
    let kind = match t {
        Ty::S(s, n) => match s {
            Simple::Bool => k!(Bool, Boolean, *n), Simple::I8 => k!(I8, I8, *n), Simple::I16 => k!(I16, I16, *n), Simple::I32 => k!(I32, I32, *n), Simple::I64 => k!(I64, I64, *n),
            Simple::Fp32 => k!(Fp32, Fp32, *n), Simple::Fp64 => k!(Fp64, Fp64, *n), Simple::Str => k!(String, String, *n), Simple::Binary => k!(Binary, Binary, *n),
            Simple::Date => k!(Date, Date, *n), Simple::Time => k!(Time, Time, *n), Simple::Timestamp => k!(Timestamp, Timestamp, *n), Simple::TimestampTz => k!(TimestampTz, TimestampTz, *n),
            Simple::IntervalYear => k!(IntervalYear, IntervalYear, *n), Simple::Uuid => k!(Uuid, Uuid, *n),
        },
        Ty::P(PrecK::Time, p, n) => Kind::PrecisionTime(pt::PrecisionTime { precision: *p, nullability: nul(*n), type_variation_reference: 0 }),
        Ty::P(PrecK::Timestamp, p, n) => Kind::PrecisionTimestamp(pt::PrecisionTimestamp { precision: *p, nullability: nul(*n), type_variation_reference: 0 }),
        Ty::P(PrecK::TimestampTz, p, n) => Kind::PrecisionTimestampTz(pt::PrecisionTimestampTz { precision: *p, nullability: nul(*n), type_variation_reference: 0 }),
        Ty::P(PrecK::IntervalDay, p, n) => Kind::IntervalDay(pt::IntervalDay { precision: Some(*p), nullability: nul(*n), type_variation_reference: 0 }),
        Ty::L(e, n) => Kind::List(Box::new(pt::List { r#type: Some(Box::new(ty_proto(e))), nullability: nul(*n), type_variation_reference: 0 })),
        Ty::U(a, ps, n) => Kind::UserDefined(pt::UserDefined {
            type_reference: *a, type_variation_reference: 0, nullability: nul(*n),
            type_parameters: ps.iter().map(|p| pt::Parameter { parameter: Some(match p { TP::T(t) => pt::parameter::Parameter::DataType(ty_proto(t)), TP::I(i) => pt::parameter::Parameter::Integer(*i) }) }).collect(),
        }),
    };
    sp::Type { kind: Some(kind) }
}
pub fn lit_proto(l: &Lit) -> pex::Literal {
    let t = match &l.v {
        LitV::Bool(b) => LiteralType::Boolean(*b), LitV::I8(i) => LiteralType::I8(*i as i32), LitV::I16(i) => LiteralType::I16(*i as i32), LitV::I32(i) => LiteralType::I32(*i), LitV::I64(i) => LiteralType::I64(*i),
        LitV::F32(f) => LiteralType::Fp32(*f), LitV::F64(f) => LiteralType::Fp64(*f), LitV::Str(s) => LiteralType::String(s.clone()), LitV::Date(d) => LiteralType::Date(*d),
        LitV::Time(v) => LiteralType::Time(*v), LitV::Timestamp(v) => LiteralType::Timestamp(*v),
        LitV::PTime(p, v) => LiteralType::PrecisionTime(plit::PrecisionTime { precision: *p, value: *v }),
        LitV::PTs(p, v) => LiteralType::PrecisionTimestamp(plit::PrecisionTimestamp { precision: *p, value: *v }),
        LitV::PTsTz(p, v) => LiteralType::PrecisionTimestampTz(plit::PrecisionTimestamp { precision: *p, value: *v }),
        LitV::Interval { p, days, secs, sub } => LiteralType::IntervalDayToSecond(plit::IntervalDayToSecond { days: *days, seconds: *secs, subseconds: *sub, precision_mode: Some(plit::interval_day_to_second::PrecisionMode::Precision(*p)) }),
        LitV::Null(t) => LiteralType::Null(ty_proto(t)),
    };
    pex::Literal { nullable: l.nullable, type_variation_reference: 0, literal_type: Some(t) }
}
fn wrap(r: RexType) -> sp::Expression { sp::Expression { rex_type: Some(r) } }
pub fn ref_proto(i: i32) -> sp::Expression {
    wrap(RexType::Selection(Box::new(pex::FieldReference {
        reference_type: Some(pex::field_reference::ReferenceType::DirectReference(pex::ReferenceSegment {
            reference_type: Some(pex::reference_segment::ReferenceType::StructField(Box::new(pex::reference_segment::StructField { field: i, child: None }))),
        })),
        root_type: Some(pex::field_reference::RootType::RootReference(pex::field_reference::RootReference {})),
    })))
}
pub fn args_proto(a: &[Ex]) -> Vec<sp::FunctionArgument> { a.iter().map(|e| sp::FunctionArgument { arg_type: Some(sp::function_argument::ArgType::Value(ex_proto(e))) }).collect() }
pub fn ex_proto(e: &Ex) -> sp::Expression {
    match e {
        Ex::Ref(i) => ref_proto(*i),
        Ex::Lit(l) => wrap(RexType::Literal(lit_proto(l))),
        Ex::Call(c) => wrap(RexType::ScalarFunction(pex::ScalarFunction { function_reference: c.f, arguments: args_proto(&c.args), output_type: Some(ty_proto(&c.ty)), ..Default::default() })),
        Ex::Cast(e, m, t) => wrap(RexType::Cast(Box::new(pex::Cast { r#type: Some(ty_proto(t)), input: Some(Box::new(ex_proto(e))), failure_behavior: *m }))),
        Ex::If(cs, d) => wrap(RexType::IfThen(Box::new(pex::IfThen {
            ifs: cs.iter().map(|(c, r)| pex::if_then::IfClause { r#if: Some(ex_proto(c)), then: Some(ex_proto(r)) }).collect(),
            r#else: Some(Box::new(ex_proto(d))),
        }))),
    }
}
pub fn schema(c: &[(String, Ty)]) -> sp::NamedStruct {
    sp::NamedStruct { names: c.iter().map(|x| x.0.clone()).collect(), r#struct: Some(pt::Struct { types: c.iter().map(|x| ty_proto(&x.1)).collect(), type_variation_reference: 0, nullability: 2 }) }
}
pub fn common(k: sp::rel_common::EmitKind) -> Option<sp::RelCommon> { Some(sp::RelCommon { emit_kind: Some(k), ..Default::default() }) }
pub fn direct() -> Option<sp::RelCommon> { common(sp::rel_common::EmitKind::Direct(sp::rel_common::Direct {})) }
pub fn emit(m: &[i32]) -> Option<sp::RelCommon> { common(sp::rel_common::EmitKind::Emit(sp::rel_common::Emit { output_mapping: m.to_vec() })) }
pub fn emit_or_direct(out: &[i32], width: usize) -> Option<sp::RelCommon> {
    if out.len() == width && out.iter().enumerate().all(|(i, v)| *v as i64 == i as i64) { direct() } else { emit(out) }
}
pub fn join_width(t: i32, l: usize, r: usize) -> usize {
    match t { 1..=4 => l + r, 5..=7 => l, 8..=10 => r, 11 => l + 1, 12 => r + 1, _ => unreachable!() }
}
/// Width of the direct output, before any mapping.
pub fn direct_width(n: &Node) -> usize {
    let w: Vec<usize> = n.inputs.iter().map(width).collect();
    match &n.rel {
        Rel::Read { cols, .. } | Rel::Virt { cols, .. } | Rel::ExtRead { cols } => cols.len(),
        Rel::Filter { .. } | Rel::Sort { .. } | Rel::Fetch { .. } => w[0],
        Rel::Project { items } => w[0] + items.iter().filter(|i| matches!(i, PI::Ex(_))).count(),
        Rel::Agg { sets, outs } => distinct(sets).len() + outs.iter().filter(|o| matches!(o, AO::M(_))).count(),
        Rel::Join { ty, .. } => join_width(*ty, w[0], w[1]),
        Rel::Set { .. } => w[0],
        Rel::Cross { .. } => w[0] + w[1],
        Rel::Ext { args, .. } => args.cols.len(),
    }
}
pub fn out_of(n: &Node) -> Option<Vec<i32>> {
    match &n.rel {
        Rel::Read { map, .. } => map.clone(),
        Rel::Filter { out, .. } | Rel::Sort { out, .. } | Rel::Fetch { out, .. } | Rel::Join { out, .. } | Rel::Set { out, .. } | Rel::Cross { out } => Some(out.clone()),
        Rel::Project { items } => {
            let w = width(&n.inputs[0]) as i32;
            let mut k = 0;
            Some(items.iter().map(|i| match i { PI::Ref(r) => *r, PI::Ex(_) => { k += 1; w + k - 1 } }).collect())
        }
        Rel::Agg { sets, outs } => {
            let g = distinct(sets).len() as i32;
            let mut k = 0;
            Some(outs.iter().map(|o| match o { AO::G(i) => *i as i32, AO::M(_) => { k += 1; g + k - 1 } }).collect())
        }
        _ => None,
    }
}
pub fn width(n: &Node) -> usize { out_of(n).map(|o| o.len()).unwrap_or_else(|| direct_width(n)) }

/// Payload encoding used by the harness' extension handlers.
pub fn xargs_bytes(a: &XArgs) -> Vec<u8> {
    use prost::Message;
    fn put(b: &mut Vec<u8>, tag: u8, d: &[u8]) { b.push(tag); b.extend((d.len() as u32).to_le_bytes()); b.extend(d); }
    fn v(b: &mut Vec<u8>, x: &XVal) {
        match x {
            XVal::Str(s) => put(b, b's', s.as_bytes()), XVal::Int(i) => put(b, b'i', &i.to_le_bytes()), XVal::Float(f) => put(b, b'f', &f.to_bits().to_le_bytes()),
            XVal::Bool(x) => put(b, b'b', &[*x as u8]), XVal::Null => put(b, b'n', &[]), XVal::Ex(e) => put(b, b'e', &ex_proto(e).encode_to_vec()),
            XVal::Enum(s) => put(b, b'&', s.as_bytes()),
            XVal::Tuple(xs) => { let mut i = vec![]; for x in xs { v(&mut i, x); } put(b, b't', &i); }
        }
    }
    let mut b = vec![];
    for x in &a.pos { v(&mut b, x); }
    for (n, x) in &a.named { put(&mut b, b'=', n.as_bytes()); v(&mut b, x); }
    for c in &a.cols {
        match c {
            XCol::Named(n, t) => { put(&mut b, b'N', n.as_bytes()); put(&mut b, b'T', &ty_proto(t).encode_to_vec()); }
            XCol::Ex(e) => put(&mut b, b'E', &ex_proto(e).encode_to_vec()),
        }
    }
    b
}
pub fn any(url: &str, a: &XArgs) -> pbjson_types::Any { pbjson_types::Any { type_url: url.into(), value: xargs_bytes(a).into() } }
pub fn lim_proto(l: &Lim) -> sp::Expression {
    match l { Lim::Int(i) => ex_proto(&Ex::Lit(Lit { v: LitV::I64(*i), nullable: false })), Lim::Ex(e) => ex_proto(e) }
}
pub fn measure(c: &Call) -> sp::aggregate_rel::Measure {
    sp::aggregate_rel::Measure { measure: Some(sp::AggregateFunction { function_reference: c.f, arguments: args_proto(&c.args), output_type: Some(ty_proto(&c.ty)), ..Default::default() }), filter: None }
}
pub fn rel_proto(n: &Node) -> sp::Rel {
    use sp::rel::RelType as R;
    let ins: Vec<sp::Rel> = n.inputs.iter().map(rel_proto).collect();
    let one = || Some(Box::new(ins[0].clone()));
    let two = || Some(Box::new(ins[1].clone()));
    let dw = direct_width(n);
    let com = |out: &[i32]| emit_or_direct(out, dw);
    let mine = || com(&out_of(n).unwrap());
    let enh = n.adds.iter().find(|a| a.k == AddK::Enh).map(|a| any(&a.url, &a.args));
    let opt: Vec<_> = n.adds.iter().filter(|a| a.k == AddK::Opt).map(|a| any(&a.url, &a.args)).collect();
    let adv = if enh.is_none() && opt.is_empty() { None } else { Some(sp::extensions::AdvancedExtension { enhancement: enh, optimization: opt }) };
    let r = match &n.rel {
        Rel::Read { names, cols, map } => R::Read(Box::new(sp::ReadRel {
            common: match map { None => direct(), Some(m) => emit(m) }, base_schema: Some(schema(cols)), advanced_extension: adv,
            read_type: Some(sp::read_rel::ReadType::NamedTable(sp::read_rel::NamedTable { names: names.clone(), advanced_extension: None })), ..Default::default()
        })),
        Rel::Virt { rows, filter, cols } => R::Read(Box::new(sp::ReadRel {
            common: direct(), base_schema: Some(schema(cols)), advanced_extension: adv, filter: filter.as_ref().map(|f| Box::new(ex_proto(f))),
            read_type: Some(sp::read_rel::ReadType::VirtualTable(sp::read_rel::VirtualTable { expressions: rows.iter().map(|r| pex::nested::Struct { fields: r.iter().map(ex_proto).collect() }).collect(), ..Default::default() })), ..Default::default()
        })),
        Rel::ExtRead { cols } => {
            let d = n.adds.iter().find(|a| a.k == AddK::Ext).map(|a| any(&a.url, &a.args));
            R::Read(Box::new(sp::ReadRel { common: direct(), base_schema: Some(schema(cols)), advanced_extension: adv, read_type: Some(sp::read_rel::ReadType::ExtensionTable(sp::read_rel::ExtensionTable { detail: d })), ..Default::default() }))
        }
        Rel::Filter { cond, .. } => R::Filter(Box::new(sp::FilterRel { common: mine(), input: one(), condition: Some(Box::new(ex_proto(cond))), advanced_extension: adv })),
        Rel::Project { items } => R::Project(Box::new(sp::ProjectRel { common: mine(), input: one(), expressions: items.iter().filter_map(|i| match i { PI::Ex(e) => Some(ex_proto(e)), _ => None }).collect(), advanced_extension: adv })),
        Rel::Agg { sets, outs } => {
            let d = distinct(sets);
            R::Aggregate(Box::new(sp::AggregateRel {
                common: mine(), input: one(), advanced_extension: adv,
                groupings: sets.iter().map(|s| sp::aggregate_rel::Grouping { expression_references: s.iter().map(|e| d.iter().position(|x| ex_key(x) == ex_key(e)).unwrap() as u32).collect(), ..Default::default() }).collect(),
                measures: outs.iter().filter_map(|o| match o { AO::M(c) => Some(measure(c)), _ => None }).collect(),
                grouping_expressions: d.iter().map(ex_proto).collect(),
            }))
        }
        Rel::Sort { fields, .. } => R::Sort(Box::new(sp::SortRel { common: mine(), input: one(), advanced_extension: adv, sorts: fields.iter().map(|(e, d)| sp::SortField { expr: Some(ex_proto(e)), sort_kind: Some(sp::sort_field::SortKind::Direction(*d)) }).collect() })),
        Rel::Fetch { limit, offset, .. } => R::Fetch(Box::new(sp::FetchRel {
            common: mine(), input: one(), advanced_extension: adv,
            offset_mode: offset.as_ref().map(|l| sp::fetch_rel::OffsetMode::OffsetExpr(Box::new(lim_proto(l)))),
            count_mode: limit.as_ref().map(|l| sp::fetch_rel::CountMode::CountExpr(Box::new(lim_proto(l)))),
        })),
        Rel::Join { ty, cond, post, .. } => R::Join(Box::new(sp::JoinRel { common: mine(), left: one(), right: two(), expression: Some(Box::new(ex_proto(cond))), post_join_filter: post.as_ref().map(|p| Box::new(ex_proto(p))), r#type: *ty, advanced_extension: adv })),
        Rel::Set { op, .. } => R::Set(sp::SetRel { common: mine(), inputs: ins.clone(), op: *op, advanced_extension: adv }),
        Rel::Cross { .. } => R::Cross(Box::new(sp::CrossRel { common: mine(), left: one(), right: two(), advanced_extension: adv })),
        Rel::Ext { k, url, args, .. } => {
            let d = Some(any(url, args));
            match k {
                ExtK::Leaf => R::ExtensionLeaf(sp::ExtensionLeafRel { common: direct(), detail: d }),
                ExtK::Single => R::ExtensionSingle(Box::new(sp::ExtensionSingleRel { common: direct(), input: one(), detail: d })),
                ExtK::Multi => R::ExtensionMulti(sp::ExtensionMultiRel { common: direct(), inputs: ins.clone(), detail: d }),
            }
        }
    };
    sp::Rel { rel_type: Some(r) }
}
pub fn tab_proto(t: &Table) -> (Vec<sp::extensions::SimpleExtensionUrn>, Vec<sp::extensions::SimpleExtensionDeclaration>) {
    use sp::extensions::simple_extension_declaration as d;
    let mut u = t.urns.clone();
    u.sort();
    let urns = u.into_iter().map(|(a, n)| sp::extensions::SimpleExtensionUrn { extension_urn_anchor: a, urn: n }).collect();
    let mut ds = t.decls.clone();
    ds.sort_by_key(|d| (d.anchor, d.k));
    let decls = ds.into_iter().map(|x| sp::extensions::SimpleExtensionDeclaration { mapping_type: Some(match x.k {
        XK::Function => d::MappingType::ExtensionFunction(d::ExtensionFunction { extension_urn_reference: x.urn, function_anchor: x.anchor, name: x.name, ..Default::default() }),
        XK::Type => d::MappingType::ExtensionType(d::ExtensionType { extension_urn_reference: x.urn, type_anchor: x.anchor, name: x.name, ..Default::default() }),
        XK::Variation => d::MappingType::ExtensionTypeVariation(d::ExtensionTypeVariation { extension_urn_reference: x.urn, type_variation_anchor: x.anchor, name: x.name, ..Default::default() }),
    }) }).collect();
    (urns, decls)
}
pub fn proto(d: &Doc) -> sp::Plan {
    let (u, e) = tab_proto(&d.tab);
    sp::Plan {
        version: d.ver.as_ref().map(|v| sp::Version { major_number: v.n.0, minor_number: v.n.1, patch_number: v.n.2, producer: v.producer.clone(), git_hash: v.git.clone() }),
        extension_urns: u, extensions: e,
        relations: d.tops.iter().map(|t| sp::PlanRel { rel_type: Some(match t {
            Top::Rel(n) => sp::plan_rel::RelType::Rel(rel_proto(n)),
            Top::Root(ns, n) => sp::plan_rel::RelType::Root(sp::RelRoot { input: Some(rel_proto(n)), names: ns.clone() }),
        }) }).collect(),
        ..Default::default()
    }
}
