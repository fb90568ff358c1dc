//! Spec predicates generated from the pest grammar: what pest guarantees about every parse tree.
//!
//! For each rule: the sequences of child rules its expression can produce, and, when the rule is a choice of
//! literal strings, the texts it can have. `lex:RULE=PRED` adds a hand-written text predicate for RULE; it is
//! only used while the rule's definition in the grammar is the one recorded in proofs/lex.txt.
use pest_meta::ast::{Expr, Rule, RuleType};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Atom { One(String), Many(String) }

struct G { rules: BTreeMap<String, Rule> }
impl G {
    fn expand(&self, e: &Expr, depth: usize) -> Result<BTreeSet<Vec<Atom>>, String> {
        let unit = || BTreeSet::from([vec![]]);
        if depth > 60 { return Err("grammar recursion through silent rules".into()) }
        Ok(match e {
            Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) | Expr::PosPred(_) | Expr::NegPred(_) => unit(),
            Expr::Ident(n) => match self.rules.get(n) {
                Some(r) => if r.ty == RuleType::Silent { self.expand(&r.expr, depth + 1)? } else { BTreeSet::from([vec![Atom::One(n.clone())]]) },
                None => if n == "EOI" { BTreeSet::from([vec![Atom::One("EOI".into())]]) } else { unit() },
            },
            Expr::Seq(a, b) => { let (x, y) = (self.expand(a, depth + 1)?, self.expand(b, depth + 1)?); let mut o = BTreeSet::new(); for p in &x { for q in &y { let mut v = p.clone(); v.extend(q.clone()); o.insert(v); } } o }
            Expr::Choice(a, b) => { let mut x = self.expand(a, depth + 1)?; x.extend(self.expand(b, depth + 1)?); x }
            Expr::Opt(a) => { let mut x = self.expand(a, depth + 1)?; x.insert(vec![]); x }
            Expr::Rep(a) => self.rep(a, depth)?,
            Expr::RepOnce(a) => { let x = self.expand(a, depth + 1)?; let y = self.rep(a, depth)?; let mut o = BTreeSet::new(); for p in &x { for q in &y { let mut v = p.clone(); v.extend(q.clone()); o.insert(v); } } o }
            other => return Err(format!("grammar construct {other:?}")),
        })
    }
    fn rep(&self, a: &Expr, depth: usize) -> Result<BTreeSet<Vec<Atom>>, String> {
        let x = self.expand(a, depth + 1)?;
        let v: Vec<_> = x.iter().filter(|p| !p.is_empty()).collect();
        if v.is_empty() { return Ok(BTreeSet::from([vec![]])) }
        match v.as_slice() { [p] if p.len() == 1 => if let Atom::One(r) = &p[0] { return Ok(BTreeSet::from([vec![Atom::Many(r.clone())]])) }, _ => {} }
        Err(format!("repetition of {x:?}"))
    }
    /// The finite set of texts, if the expression is a choice of literal strings (lookahead ignored).
    fn texts(&self, e: &Expr) -> Option<BTreeSet<String>> {
        Some(match e {
            Expr::Str(s) => BTreeSet::from([s.clone()]),
            Expr::Choice(a, b) => { let mut x = self.texts(a)?; x.extend(self.texts(b)?); x }
            Expr::Opt(a) => { let mut x = self.texts(a)?; x.insert(String::new()); x }
            Expr::PosPred(_) | Expr::NegPred(_) => BTreeSet::from([String::new()]),
            Expr::Seq(a, b) => { let (x, y) = (self.texts(a)?, self.texts(b)?); if x.len() * y.len() > 40 { return None } let mut o = BTreeSet::new(); for p in &x { for q in &y { o.insert(format!("{p}{q}")); } } o }
            _ => return None,
        })
    }
}
fn pattern(p: &[Atom]) -> Result<String, String> {
    let many: Vec<usize> = p.iter().enumerate().filter(|(_, a)| matches!(a, Atom::Many(_))).map(|(i, _)| i).collect();
    let mut c = vec![];
    if many.is_empty() {
        c.push(format!("k.len() == {}", p.len()));
        for (i, a) in p.iter().enumerate() { if let Atom::One(r) = a { c.push(format!("k[{i}].rule == Rule::{}", kw(r))) } }
    } else if many.len() == 1 {
        let m = many[0]; let back = p.len() - m - 1;
        c.push(format!("k.len() >= {}", p.len() - 1));
        for i in 0..m { if let Atom::One(r) = &p[i] { c.push(format!("k[{i}].rule == Rule::{}", kw(r))) } }
        for i in 0..back { if let Atom::One(r) = &p[m + 1 + i] { c.push(format!("k[k.len() - {}].rule == Rule::{}", back - i, kw(r))) } }
        if let Atom::Many(r) = &p[m] { c.push(format!("(forall|i: int| {m} <= i < k.len() - {back} ==> (#[trigger] k[i]).rule == Rule::{})", kw(r))) }
    } else { return Err(format!("two repetitions {p:?}")) }
    Ok(format!("({})", c.join(" && ")))
}
fn kw(s: &str) -> String { if s == "type" { "r#type".into() } else { s.to_string() } }
fn esc(s: &str) -> String { s.chars().flat_map(|c| if c == '"' || c == '\\' { vec!['\\', c] } else { vec![c] }).collect() }

pub fn spec(text: &str, opts: &[String], lexfile: &str) -> Result<String, String> {
    let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, text).map_err(|e| format!("grammar: {e}"))?;
    let ast = pest_meta::parser::consume_rules(pairs).map_err(|e| format!("grammar: {e:?}"))?;
    let g = G { rules: ast.iter().map(|r| (r.name.clone(), r.clone())).collect() };
    let mut lexspec: BTreeMap<String, String> = BTreeMap::new();
    for l in lexfile.lines() { if let Some((n, d)) = l.split_once('\t') { lexspec.insert(n.into(), d.into()); } }
    let mut lex: BTreeMap<String, String> = BTreeMap::new();
    for o in opts { if let Some(x) = o.strip_prefix("lex:") { if let Some((r, p)) = x.split_once('=') {
        let d = g.rules.get(r).map(|x| format!("{:?} {:?}", x.ty, x.expr)).ok_or(format!("lost anchor: grammar rule {r}"))?;
        if lexspec.get(r) != Some(&d) { return Err(format!("structure changed: grammar rule {r} is now\n{r}\t{d}")) }
        lex.insert(r.into(), p.into());
    } } }
    let mut o = String::from("#[derive(Clone, Copy, PartialEq, Eq, Structural, Debug)]\npub enum Rule {\n    EOI,\n");
    let names: Vec<&str> = ast.iter().filter(|r| r.ty != RuleType::Silent).map(|r| r.name.as_str()).collect();
    for n in &names { o += &format!("    {},\n", kw(n)) }
    o += "}\n/// What pest guarantees about the children and text of a node (generated from the grammar).\n#[verifier::opaque]\npub open spec fn node_ok(t: Tree) -> bool {\n    match t.rule {\n        Rule::EOI => t.kids.len() == 0,\n";
    for n in &names { o += &format!("        Rule::{} => rule_{n}(t),\n", kw(n)) }
    o += "    }\n}\n";
    for r in &ast {
        if r.ty == RuleType::Silent { continue }
        let mut conds = vec![];
        if r.ty == RuleType::Atomic { conds.push("k.len() == 0".to_string()) }
        else { match g.expand(&r.expr, 0) { Ok(p) => { let v: Result<Vec<_>, _> = p.iter().map(|x| pattern(x)).collect(); conds.push(format!("({})", v?.join(" || "))) } Err(e) => return Err(format!("rule {}: {e}", r.name)) } }
        if let Some(t) = g.texts(&r.expr) { let v: Vec<String> = t.iter().map(|x| format!("t.text == \"{}\"@", esc(x))).collect(); conds.push(format!("({})", v.join(" || "))) }
        if let Some(p) = lex.get(&r.name) { conds.push(format!("{p}(t.text)")) }
        o += &format!("pub open spec fn rule_{}(t: Tree) -> bool {{\n    let k = t.kids;\n    {}\n}}\n", r.name, conds.join("\n    && "));
        o += &format!("pub broadcast proof fn g_{n}(t: Tree)\n    requires #[trigger] wf(t), t.rule == Rule::{k},\n    ensures rule_{n}(t), forall|i: int| 0 <= i < t.kids.len() ==> wf(#[trigger] t.kids[i]),\n{{ reveal(node_ok); }}\n", n = r.name, k = kw(&r.name));
    }
    Ok(o)
}
pub fn dump(text: &str) {
    let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, text).unwrap();
    for r in pest_meta::parser::consume_rules(pairs).unwrap() { println!("{}\t{:?} {:?}", r.name, r.ty, r.expr) }
}
