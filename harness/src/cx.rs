//! Shared machinery: guarded calls into the crate under test, oracles, statistics, failure records.
use crate::ext;
use crate::model::{self, Doc, Opts};
use crate::rng::Rng;
use prost::Message;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::{Duration, Instant};
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::*;

/// `key` identifies a specific input that the known-findings file may list; empty for everything else.
pub struct Fail { pub key: String, pub what: String, pub input: String, pub expected: String, pub got: String }
pub struct Cx {
    pub r: Rng,
    pub reg: ExtensionRegistry,
    pub thorough: bool,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub known: Vec<Fail>,
    pub deadline: Instant,
    pub families: Vec<(String, u64)>,
}
#[derive(Debug, Clone)]
pub enum P { Ok(Box<Plan>), Err(Option<i64>, String), Panic(String) }
impl P {
    pub fn show(&self) -> String {
        match self { P::Ok(p) => format!("accepted as\n{}", show(p)), P::Err(l, m) => format!("error (line {l:?}): {m}"), P::Panic(m) => format!("PANIC: {m}") }
    }
}
#[derive(Debug, Clone)]
pub enum F { Ok(String, Vec<String>), Panic(String) }
impl F { pub fn show(&self) -> String { match self { F::Ok(t, e) => format!("{t}\n-- errors: {e:?}"), F::Panic(m) => format!("PANIC: {m}") } } }

pub fn show(p: &Plan) -> String { let s = format!("{p:?}"); if s.len() > 6000 { format!("{}...", s.chars().take(6000).collect::<String>()) } else { s } }
pub fn hash(s: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); } h }
pub fn same(a: &Plan, b: &Plan) -> bool { a.encode_to_vec() == b.encode_to_vec() }
fn pmsg(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }

pub fn line_of(e: &ParseError) -> Option<i64> {
    Some(match e {
        ParseError::Extension(c, _) | ParseError::ExtensionDetail(c, _) | ParseError::Plan(c, _) | ParseError::RelationParse(c, _) | ParseError::ValidationError(c, _) | ParseError::Initial(c, _) | ParseError::Relation(c, _) => c.line_no,
        ParseError::Expected { context, .. } | ParseError::UnregisteredExtension { context, .. } => context.line_no,
        _ => return None,
    })
}
pub fn oo(o: &Opts) -> OutputOptions {
    let mut r = if o.anchors && o.lits { OutputOptions::verbose() } else { OutputOptions::default() };
    r.show_simple_extension_anchors = if o.anchors { Visibility::Always } else { Visibility::Required };
    r.literal_types = if o.lits { Visibility::Always } else { Visibility::Required };
    r.virtual_table_multiline_threshold = o.threshold;
    r.indent = o.indent.clone();
    r
}

impl Cx {
    pub fn new(seed: u64, thorough: bool, secs: u64) -> Cx {
        Cx { r: Rng::new(seed), reg: ext::registry(), thorough, evals: 0, seen: HashSet::new(), samples: vec![], fails: vec![], known: vec![], deadline: Instant::now() + Duration::from_secs(secs), families: vec![] }
    }
    /// Keep going? (bounded families ignore the deadline, random ones do not)
    pub fn more(&self) -> bool { self.fails.is_empty() && Instant::now() < self.deadline }
    pub fn ok(&self) -> bool { self.fails.len() < 3 }
    pub fn family(&mut self, name: &str, start: u64) { let n = self.evals - start; self.families.push((name.to_string(), n)); }
    pub fn note(&mut self, s: &str) {
        self.evals += 1;
        if self.seen.insert(hash(s.as_bytes())) && (self.samples.len() < 6 || (self.samples.len() < 12 && self.evals % 997 == 0)) { self.samples.push(s.chars().take(300).collect()); }
    }
    pub fn fail(&mut self, what: impl Into<String>, input: impl Into<String>, expected: impl Into<String>, got: impl Into<String>) {
        self.fails.push(Fail { key: String::new(), what: what.into(), input: input.into(), expected: expected.into(), got: got.into() });
    }
    /// A failure on one specific, named input.
    pub fn fail_keyed(&mut self, key: &str, what: &str, input: &str, expected: &str, got: &str) { self.known.push(Fail { key: key.into(), what: what.into(), input: input.into(), expected: expected.into(), got: got.into() }); }
    pub fn check(&mut self, cond: bool, what: &str, input: &str, expected: &str, got: &str) { self.evals += 1; if !cond { self.fail(what, input, expected, got); } }

    pub fn parse(&self, t: &str) -> P { self.parse_reg(t, &self.reg) }
    pub fn parse_reg(&self, t: &str, reg: &ExtensionRegistry) -> P {
        match catch_unwind(AssertUnwindSafe(|| parse_with_registry(t, reg))) {
            Ok(Ok(p)) => P::Ok(Box::new(p)), Ok(Err(e)) => P::Err(line_of(&e), e.to_string()), Err(e) => P::Panic(pmsg(e)),
        }
    }
    pub fn fmt(&self, p: &Plan, o: &OutputOptions) -> F { self.fmt_reg(p, o, &self.reg) }
    pub fn fmt_reg(&self, p: &Plan, o: &OutputOptions, reg: &ExtensionRegistry) -> F {
        match catch_unwind(AssertUnwindSafe(|| format_with_registry(p, o, reg))) {
            Ok((t, e)) => F::Ok(t, e.iter().map(|e| e.to_string()).collect()), Err(e) => F::Panic(pmsg(e)),
        }
    }
    /// The text must parse to exactly this plan.
    pub fn accepts(&mut self, t: &str, plan: &Plan) {
        self.note(t);
        let g = self.parse(t);
        if !matches!(&g, P::Ok(p) if same(p, plan)) { self.fail("parsed plan differs", t, show(plan), g.show()); }
    }
    /// The text must be rejected with an error (not a panic).
    pub fn rejects(&mut self, t: &str) {
        self.note(t);
        let g = self.parse(t);
        if !matches!(g, P::Err(..)) { self.fail("text should be rejected with an error", t, "an error", g.show()); }
    }
    pub fn rejects_at(&mut self, t: &str, line: i64) {
        self.note(t);
        let g = self.parse(t);
        if !matches!(g, P::Err(Some(l), _) if l == line) { self.fail("text should be rejected, naming the line", t, format!("an error on line {line}"), g.show()); }
    }
    pub fn prints(&mut self, plan: &Plan, o: &OutputOptions, t: &str) {
        self.note(t);
        let g = self.fmt(plan, o);
        if !matches!(&g, F::Ok(x, e) if x == t && e.is_empty()) { self.fail("formatted text differs", show(plan), t, g.show()); }
    }
    /// Both directions, default and verbose.
    pub fn both(&mut self, d: &Doc) { self.both_with(d, &[Opts::default(), Opts::verbose()]); }
    pub fn both_with(&mut self, d: &Doc, opts: &[Opts]) {
        let plan = model::proto(d);
        for o in opts {
            let t = model::text(d, o);
            self.prints(&plan, &oo(o), &t);
            if o.indent == "  " { self.accepts(&t, &plan); }
        }
    }
    /// Formatting must report at least one error, show a mark, and not panic.
    pub fn marks(&mut self, what: &str, plan: &Plan, mark: bool) {
        self.note(&format!("{what} {:x}", hash(&plan.encode_to_vec())));
        for o in [OutputOptions::default(), OutputOptions::verbose()] {
            let g = self.fmt(plan, &o);
            let ok = matches!(&g, F::Ok(t, e) if !e.is_empty() && (!mark || t.contains("!{")));
            if !ok { self.fail(format!("{what}: must be reported as an error{}", if mark { " and marked in the text" } else { "" }), show(plan), "a reported error", g.show()); return; }
        }
    }
    /// Canonical form of accepted text (P18). Returns whether the text was accepted.
    pub fn stable(&mut self, t: &str) -> bool {
        self.note(t);
        let plan = match self.parse(t) { P::Ok(p) => p, P::Err(..) => return false, P::Panic(m) => { self.fail("parser panicked", t, "a plan or an error", m); return false; } };
        // stated exclusion: a projection's field reference beyond its input columns
        if crate::knock::project_beyond(&plan) { return false; }
        for o in [OutputOptions::default(), OutputOptions::verbose()] {
            match self.fmt(&plan, &o) {
                F::Panic(m) => { self.fail("formatter panicked", t, "text", m); return true; }
                F::Ok(ft, e) => {
                    if !e.is_empty() {
                        // stated exclusions: references beyond the direct width, unspecified nullability, interval range
                        if ft.contains("!{Emitted") || t.contains('\u{2049}') || t.contains("interval_day") { return false; }
                        self.fail("formatting an accepted text reports errors", t, "no errors", format!("{ft}\n{e:?}"));
                        return true;
                    }
                    match self.parse(&ft) {
                        P::Ok(p2) if same(&p2, &plan) => {}
                        g => { self.fail("canonical text does not mean the same plan", format!("{t}\n--- canonical:\n{ft}"), show(&plan), g.show()); return true; }
                    }
                    match self.fmt(&plan, &o) { F::Ok(f2, e2) if f2 == ft && e2.is_empty() => {} g => { self.fail("canonical text is not stable", t, ft, g.show()); return true; } }
                }
            }
        }
        true
    }
}
