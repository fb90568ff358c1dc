//! One function per property: bounded-exhaustive families first, then seeded random documents.
#![allow(deprecated)]
use crate::cx::*;
use crate::ext::{self, H, NAMES, URLS};
use crate::gen_::{self as g, ALL, CORE, Focus, G, K};
use crate::model::*;
use prost::Message;
use substrait::proto::{self as sp, Plan};
use substrait_explain::extensions::simple::{ExtensionKind, SimpleExtensions};
use substrait_explain::extensions::*;
use substrait_explain::*;

pub fn run(p: &str, c: &mut Cx) -> bool {
    match p {
        "P01" => p01(c), "P02" => p02(c), "P03" => p03(c), "P04" => p04(c), "P05" => p05(c), "P06" => p06(c), "P07" => p07(c), "P08" => p08(c), "P09" => p09(c),
        "P10" => p10(c), "P11" => p11(c), "P12" => p12(c), "P13" => p13(c), "P14" => p14(c), "P15" => p15(c), "P16" => p16(c), "P17" => crate::cli::p17(c), "P18" => p18(c),
        _ => return false,
    }
    if c.ok() { crate::sizes::run(p, c); }
    true
}

// ---------------------------------------------------------------- small builders
pub fn i64t() -> Ty { Ty::S(Simple::I64, false) }
pub fn int(i: i64) -> Ex { Ex::Lit(Lit { v: LitV::I64(i), nullable: false }) }
pub fn boolean(b: bool) -> Ex { Ex::Lit(Lit { v: LitV::Bool(b), nullable: false }) }
pub fn read_n(n: usize) -> Node { read_named("t", n) }
pub fn read_named(t: &str, n: usize) -> Node { node(Rel::Read { names: vec![t.into()], cols: (0..n).map(|i| (format!("c{i}"), i64t())).collect(), map: None }, vec![]) }
pub fn node(rel: Rel, inputs: Vec<Node>) -> Node { Node { rel, adds: vec![], inputs } }
pub fn doc1(n: Node) -> Doc { Doc { ver: None, tab: Table::default(), tops: vec![Top::Rel(n)] } }
pub fn with_tab(n: Node, tab: Table) -> Doc { Doc { ver: None, tab, tops: vec![Top::Rel(n)] } }
/// A document whose only interesting part is one expression.
pub fn ex_doc(e: Ex, tab: Table) -> Doc { with_tab(node(Rel::Filter { cond: e, out: vec![0] }, vec![read_n(1)]), tab) }
pub fn lit_doc(v: LitV, nullable: bool) -> Doc { ex_doc(Ex::Lit(Lit { v, nullable }), Table::default()) }
/// Text of a document holding one expression, written as given.
pub fn ex_text(e: &str) -> String { format!("=== Plan\nFilter[{e} => $0]\n  Read[t => c0:i64]\n") }
pub fn ty_doc(t: Ty, tab: Table) -> Doc { with_tab(node(Rel::Read { names: vec!["t".into()], cols: vec![("c".into(), t)], map: None }, vec![]), tab) }
pub fn ty_text(t: &str) -> String { format!("=== Plan\nRead[t => c:{t}]\n") }
pub fn tab(fs: &[(u32, &str)], ts: &[(u32, &str)]) -> Table {
    Table { urns: vec![(1, "u".into())], decls: fs.iter().map(|(a, n)| Decl { k: XK::Function, anchor: *a, urn: 1, name: n.to_string() }).chain(ts.iter().map(|(a, n)| Decl { k: XK::Type, anchor: *a, urn: 1, name: n.to_string() })).collect() }
}
fn random(c: &mut Cx, f: Focus, quick: usize) {
    let n = if c.thorough { quick * 20 } else { quick };
    let s = c.evals;
    for _ in 0..n {
        if !c.more() { break; }
        let d = G::new(&mut c.r, f).doc();
        c.both(&d);
    }
    c.family("random documents (seeded)", s);
}

// ---------------------------------------------------------------- P01
/// The string a quoted token denotes, decoded independently of the crate.
pub fn decode_token(t: &str, q: char) -> Option<String> {
    let inner = t.strip_prefix(q)?.strip_suffix(q)?;
    let mut o = String::new();
    let cs: Vec<char> = inner.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let ch = cs[i];
        if ch == q || ch == '\n' || ch == '\r' { return None; }
        if ch != '\\' { o.push(ch); i += 1; continue; }
        i += 1;
        match cs.get(i)? {
            'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), '0' => o.push('\0'),
            'u' => {
                if cs.get(i + 1)? != &'{' { return None; }
                let e = cs[i..].iter().position(|x| *x == '}')? + i;
                o.push(char::from_u32(u32::from_str_radix(&cs[i + 2..e].iter().collect::<String>(), 16).ok()?)?);
                i = e;
            }
            x => o.push(*x),
        }
        i += 1;
    }
    Some(o)
}
fn string_case(c: &mut Cx, s: &str) {
    c.evals += 1;
    let tok_ok = |t: &str| if is_ident(s) { t == s } else { decode_token(t, '"').as_deref() == Some(s) };
    let read = |t: &str, col: &str| node(Rel::Read { names: vec![t.into()], cols: vec![(col.into(), i64t())], map: None }, vec![]);
    let docs = [
        (doc1(read(s, "c")), "Read[", " => c:i64]"),
        (doc1(node(Rel::Read { names: vec!["a".into(), s.into(), "b".into()], cols: vec![("c".into(), i64t())], map: None }, vec![])), "Read[a.", ".b => c:i64]"),
        (doc1(read("t", s)), "Read[t => ", ":i64]"),
        (Doc { tops: vec![Top::Root(vec!["z".into(), s.into()], read("t", "c"))], ..Default::default() }, "Root[z, ", "]"),
        (ex_doc(Ex::Lit(Lit { v: LitV::Str(s.into()), nullable: false }), Table::default()), "Filter[", " => $0]"),
    ];
    for (i, (d, pre, post)) in docs.iter().enumerate() {
        let plan = proto(d);
        let f = c.fmt(&plan, &OutputOptions::default());
        let F::Ok(t, e) = &f else { c.fail("formatting a string panicked", format!("{s:?}"), "", f.show()); return };
        let line = t.lines().nth(1).unwrap_or("");
        let tok = line.strip_prefix(pre).and_then(|x| x.strip_suffix(post));
        let good = e.is_empty() && t.lines().count() == if i < 3 { 2 } else { 3 } && match tok { None => false, Some(t) => if i == 4 { decode_token(t, '\'').as_deref() == Some(s) } else { tok_ok(t) } };
        if !good { c.fail("printed token is not a faithful bare or quoted form", format!("{s:?}"), "one token denoting the string", f.show()); return; }
        let p = c.parse(t);
        if !matches!(&p, P::Ok(q) if same(q, &plan)) { c.fail("parsing the printed token gives another string", format!("{s:?}\n{t}"), show(&plan), p.show()); return; }
    }
    c.seen.insert(hash(s.as_bytes()));
}
fn p01(c: &mut Cx) {
    let s = c.evals;
    // every Unicode scalar value, alone inside a block and at block starts (grapheme extension differs there)
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    for b in all.chunks(97) { if c.ok() { string_case(c, &b.iter().collect::<String>()); } }
    let stop = if c.thorough { 0x30000 } else { 0x3100 };
    for ch in all.iter().take(stop) { if c.ok() { string_case(c, &ch.to_string()); } }
    c.family("every Unicode scalar value in names and strings", s);
    let s = c.evals;
    let sp: Vec<char> = "\\'\"\n\t\r\0u{}0na_1A .\u{7f}\u{301}é".chars().collect();
    for a in &sp { for b in &sp { for d in &sp { if c.ok() { string_case(c, &[*a, *b, *d].iter().collect::<String>()); } } } }
    string_case(c, "");
    for w in ["a", "a1", "a_", "_a", "1a", "aé", "Z9_z", "A", "null", "true", "Read", "a b", "a-b", "a.b", " a", "a ", "A\u{301}", "ａ"] { string_case(c, w); }
    c.family("all strings of length 3 over 21 special characters", s);
    // text side: what the escapes denote
    let s = c.evals;
    for ch in all.iter().take(0x250).copied().chain(['\u{2028}', '\u{fffd}', '\u{1F600}', '日']) {
        if ch == 'u' || ch == '\n' || ch == '\r' { continue; }
        let want = match ch { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', x => x };
        let name = format!("x{want}y");
        c.accepts(&format!("=== Plan\nRead[\"x\\{ch}y\" => c:i64]\n"), &proto(&doc1(node(Rel::Read { names: vec![name.clone()], cols: vec![("c".into(), i64t())], map: None }, vec![]))));
        c.accepts(&ex_text(&format!("'x\\{ch}y'")), &proto(&lit_doc(LitV::Str(name), false)));
    }
    for ch in [0u32, 1, 9, 0xa, 0x27, 0x5c, 0x7f, 0xe9, 0x300, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1F600, 0x10ffff] {
        let want = char::from_u32(ch).unwrap();
        for f in [format!("{ch:x}"), format!("{ch:X}"), format!("{ch:04x}"), format!("{ch:06x}")] {
            c.accepts(&ex_text(&format!("'a\\u{{{f}}}b'")), &proto(&lit_doc(LitV::Str(format!("a{want}b")), false)));
            c.accepts(&format!("=== Plan\nRead[t => \"\\u{{{f}}}\":i64]\n"), &proto(&doc1(node(Rel::Read { names: vec!["t".into()], cols: vec![(want.to_string(), i64t())], map: None }, vec![]))));
        }
    }
    c.family("escape sequences in text", s);
    let s = c.evals;
    let n = if c.thorough { 60000 } else { 3000 };
    for _ in 0..n { if !c.more() { break; } let k = c.r.below(12); let st: String = (0..k).map(|_| g::ch(&mut c.r)).collect(); string_case(c, &st); }
    c.family("random strings", s);
}

// ---------------------------------------------------------------- P02
fn lit_both(c: &mut Cx, v: LitV) {
    for n in [false, true] {
        c.both(&lit_doc(v.clone(), n));
    }
}
fn p02(c: &mut Cx) {
    let s = c.evals;
    for i in i8::MIN..=i8::MAX { if c.ok() { lit_both(c, LitV::I8(i)); } }
    let step = if c.thorough { 1 } else { 37 };
    let mut i = i16::MIN as i32;
    while i <= i16::MAX as i32 { if c.ok() { c.both(&lit_doc(LitV::I16(i as i16), i % 2 == 0)); } i += step; }
    for v in [i16::MIN, i16::MIN + 1, -129, -128, 127, 128, 255, 256, i16::MAX - 1, i16::MAX] { lit_both(c, LitV::I16(v)); }
    for k in 0..63 { for d in [-1i64, 0, 1] { for sg in [-1i64, 1] { if c.ok() { let v = sg * ((1i64 << k) + d); lit_both(c, LitV::I64(v)); if let Ok(w) = i32::try_from(v) { lit_both(c, LitV::I32(w)); } } } } }
    for v in [i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1] { lit_both(c, LitV::I64(v)); }
    for v in [i32::MIN, i32::MAX] { lit_both(c, LitV::I32(v)); }
    lit_both(c, LitV::Bool(true)); lit_both(c, LitV::Bool(false));
    for st in ["", "a", "it's", "1", "true", "null", "2020-01-01", "é"] { lit_both(c, LitV::Str(st.into())); }
    for k in 0..2048u64 { for m in [0u64, 1, 0x8000000000000, 0xfffffffffffff] { for sg in [0, 1u64 << 63] { let f = f64::from_bits(sg | (k << 52) | m); if f.is_finite() && c.ok() && (c.thorough || k % 7 == 0 || k > 2040 || (1000..1080).contains(&k)) { c.both(&lit_doc(LitV::F64(f), k % 2 == 0)); } } } }
    for k in 0..256u32 { for m in [0u32, 1, 0x400000, 0x7fffff, 0x2aaaaa] { for sg in [0, 1u32 << 31] { let f = f32::from_bits(sg | (k << 23) | m); if f.is_finite() && c.ok() { c.both(&lit_doc(LitV::F32(f), k % 2 == 0)); } } } }
    for t in all_types(1) { c.both(&lit_doc(LitV::Null(t), false)); }
    c.family("boundary values of every scalar type, both nullabilities", s);
    // literal-type display settings individually
    let s = c.evals;
    for v in [LitV::Bool(true), LitV::I8(-5), LitV::I16(7), LitV::I32(7), LitV::I64(-7), LitV::F32(2.0), LitV::F64(2.5), LitV::F64(1e300), LitV::Str("x".into()), LitV::Null(i64t())] {
        for n in [false, true] {
            if matches!(v, LitV::Null(_)) && n { continue; }
            for lits in [false, true] { for anchors in [false, true] { c.both_with(&lit_doc(v.clone(), n), &[Opts { lits, anchors, ..Default::default() }]); } }
        }
    }
    c.family("display settings", s);
    // text with values that do not fit / belong
    let s = c.evals;
    for (t, lo, hi) in [("i8", i8::MIN as i128, i8::MAX as i128), ("i16", i16::MIN as i128, i16::MAX as i128), ("i32", i32::MIN as i128, i32::MAX as i128), ("i64", i64::MIN as i128, i64::MAX as i128)] {
        for q in ["", "?"] {
            for v in [lo - 1, lo - 2, hi + 1, hi + 2, lo * 2, hi * 2 + 1, hi * 2 + 2, lo - 256, hi + 256, (1 << 64), -(1 << 64), i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128] { if v < lo || v > hi { c.rejects(&ex_text(&format!("{v}:{t}{q}"))); } }
            for v in ["'1'", "true", "1.5", "1.0", "''"] { c.rejects(&ex_text(&format!("{v}:{t}{q}"))); }
        }
    }
    for q in ["", "?"] {
        for (v, ts) in [
            ("1", ["boolean", "string", "date", "time", "timestamp", "binary", "uuid", "list<i64>", "interval_day<3>", "precisiontimestamp<3>"].as_slice()),
            ("true", &["i64", "fp64", "string", "date", "uuid", "fp32"]), ("'x'", &["boolean", "fp64", "fp32", "i8", "i16", "i32", "i64", "list<string>", "uuid", "binary", "interval_year"]),
            ("1.5", &["boolean", "string", "i64", "i8", "i32", "date", "uuid"]),
        ] { for t in ts { let t = if let Some(p) = t.find('<') { format!("{}{q}{}", &t[..p], &t[p..]) } else { format!("{t}{q}") }; c.rejects(&ex_text(&format!("{v}:{t}"))); } }
    }
    for v in ["null", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1.", ".5", "1e5", "NaN", "inf", "True", "TRUE", "nul", "'a", "1.0:fp32x", "+1"] { c.rejects(&ex_text(v)); }
    c.rejects(&ex_text(&format!("{}:fp32", float_text(f64::MAX.to_string()))));
    for (t, e) in [("5", LitV::I64(5)), ("-0", LitV::I64(0)), ("007", LitV::I64(7)), ("5.0", LitV::F64(5.0)), ("true", LitV::Bool(true)), ("false", LitV::Bool(false)), ("'s'", LitV::Str("s".into())), ("5:fp64", LitV::F64(5.0)), ("5:fp32", LitV::F32(5.0)), ("2.50", LitV::F64(2.5))] {
        let g0 = c.parse(&ex_text(t));
        match &g0 { P::Ok(p) if same(p, &proto(&lit_doc(e.clone(), false))) => {} P::Err(..) if t.starts_with("5:fp") => {} _ => c.fail("literal without annotation", t, format!("{e:?}"), g0.show()) }
        c.note(t);
    }
    c.family("texts whose value does not fit or belong", s);
    // decimal texts close to the midpoint of two neighbouring values: the stored value is the nearest one
    let s = c.evals;
    let mut texts: Vec<String> = vec!["340282356779733661637539395458142568447.0".into(), "340282346638528859811704183484516925440.0".into(), "340282346638528859811704183484516925441.0".into(), "0.1".into(), "16777217.0".into(), "16777219.0".into(), "16777217.0000000001".into(), "9007199254740993.0".into(), "9007199254740993.00000000000000001".into(), "9007199254740992.99999999999999999".into(), "123456789012345678901234567890.0".into(), "0.30000000000000004".into(), "2.2250738585072011".into(), "1.0000000000000001110223024625156540423631668090820312500000001".into()];
    let n = if c.thorough { 4000 } else { 300 };
    for i in 0..n {
        // midpoint of two neighbouring fp32 values, exact in fp64, then nudged by less than fp64 can see
        let a = f32::from_bits(((60 + (i % 130)) as u32) << 23 | (c.r.u64() as u32 & 0x7f_ffff));
        let b = f32::from_bits(a.to_bits() + 1);
        let m = float_text(((a as f64 + b as f64) / 2.0).to_string());
        texts.push(format!("{m}000000000000000000001"));
        // the same with the last digit lowered by one and a tail of nines
        let last = m.pop_last();
        if let Some((h, d)) = last { if d > '0' { texts.push(format!("{h}{}99999999999999999999", ((d as u8) - 1) as char)); } }
        texts.push(m);
    }
    for t in texts { for sg in ["", "-"] {
        if !c.ok() { break; }
        let t = format!("{sg}{t}");
        let (x, y) = (t.parse::<f32>().unwrap(), t.parse::<f64>().unwrap());
        if x.is_finite() { c.accepts(&ex_text(&format!("{t}:fp32")), &proto(&lit_doc(LitV::F32(x), false))); }
        c.accepts(&ex_text(&format!("{t}:fp64")), &proto(&lit_doc(LitV::F64(y), false)));
        c.accepts(&ex_text(&t), &proto(&lit_doc(LitV::F64(y), false)));
    } }
    c.family("decimal texts near the midpoint of neighbouring values", s);
    // stored values that cannot be printed faithfully
    let s = c.evals;
    for v in [128, -129, 300, i32::MAX, i32::MIN] { let mut p = proto(&lit_doc(LitV::I8(0), false)); set_lit(&mut p, sp::expression::literal::LiteralType::I8(v)); c.marks("i8 out of range", &p, true); }
    for v in [32768, -32769, i32::MAX] { let mut p = proto(&lit_doc(LitV::I16(0), false)); set_lit(&mut p, sp::expression::literal::LiteralType::I16(v)); c.marks("i16 out of range", &p, true); }
    for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { let mut p = proto(&lit_doc(LitV::F64(0.0), false)); set_lit(&mut p, sp::expression::literal::LiteralType::Fp64(v)); c.marks("non-finite fp64", &p, true); set_lit(&mut p, sp::expression::literal::LiteralType::Fp32(v as f32)); c.marks("non-finite fp32", &p, true); }
    c.family("stored values out of range", s);
    let s = c.evals;
    let n = if c.thorough { 100000 } else { 4000 };
    for _ in 0..n {
        if !c.more() { break; }
        let (w, nl) = (c.r.below(8), c.r.bool());
        let mut gg = G::new(&mut c.r, Focus::default());
        let v = gg.litv(w);
        c.both(&lit_doc(v, nl));
    }
    c.family("random scalar literals", s);
}
trait PopLast { fn pop_last(&self) -> Option<(String, char)>; }
impl PopLast for String { fn pop_last(&self) -> Option<(String, char)> { let mut h = self.clone(); let d = h.pop()?; Some((h, d)) } }
pub fn cond_mut(p: &mut Plan) -> &mut sp::Expression {
    match p.relations[0].rel_type.as_mut().unwrap() { sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(sp::rel::RelType::Filter(f)) }) => f.condition.as_mut().unwrap(), _ => unreachable!() }
}
pub fn set_lit(p: &mut Plan, t: sp::expression::literal::LiteralType) {
    cond_mut(p).rex_type = Some(sp::expression::RexType::Literal(sp::expression::Literal { nullable: false, type_variation_reference: 0, literal_type: Some(t) }));
}
pub fn all_types(depth: usize) -> Vec<Ty> {
    let mut v = vec![];
    for n in [false, true] {
        for s in SIMPLES { v.push(Ty::S(s, n)); }
        for k in PRECS { for p in [0, 3, 6, 9, 12] { v.push(Ty::P(k, p, n)); } }
    }
    if depth > 0 { let inner = all_types(depth - 1); for n in [false, true] { for t in &inner { v.push(Ty::L(Box::new(t.clone()), n)); } } }
    v
}

// ---------------------------------------------------------------- P03
fn p03(c: &mut Cx) {
    let s = c.evals;
    let step = if c.thorough { 1 } else { 7 };
    let mut d = -1_000_000i32;
    while d <= 1_000_000 && c.ok() {
        if c.thorough || (-150_000..150_000).contains(&d) || d % 11 == 0 {
            // one direction cheaply: parse own text, print own plan
            let doc = lit_doc(LitV::Date(d), d % 2 == 0);
            c.both_with(&doc, &[Opts::default()]);
        }
        d += step * 13;
    }
    for d in [-719_529, -719_528, -719_163, -719_162, -719_161, -1, 0, 1, 58, 59, 60, 365, 789, 11_016, 11_017, 2_932_896, 2_932_897, -96_465_292, 95_026_236] { c.both(&lit_doc(LitV::Date(d), false)); c.both(&lit_doc(LitV::Date(d), true)); }
    for y in [1899i64, 1900, 1970, 1999, 2000, 2001, 2023, 2024, 2100, 2400, 4, 1, 9999] { for m in 1..=12 { for dd in [1, 28, 29, 30, 31] {
        // exhaustive month ends: valid dates give the exact day number, invalid ones are rejected
        let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
        let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1];
        let t = ex_text(&format!("'{y:04}-{m:02}-{dd:02}':date"));
        if dd <= last { let n = days_of(y, m as i64, dd); c.accepts(&t, &proto(&lit_doc(LitV::Date(n as i32), false))); } else { c.rejects(&t); }
    } } }
    c.family("dates", s);
    let s = c.evals;
    for p in [0, 3, 6, 9] {
        let u = pow10(p);
        for secs in [0i64, 1, 59, 60, 61, 3599, 3600, 43_199, 43_200, 86_398, 86_399] {
            for fr in [0, 1, 10, u / 10, u / 2, u - 1] {
                let fr = fr.min(u - 1);
                for n in [false, true] { c.both(&lit_doc(LitV::PTime(p, secs * u + fr), n)); if p == 6 { c.both(&lit_doc(LitV::Time(secs * u + fr), n)); } }
                for base in [0i64, -86_400, 86_400, 951_782_400, -2_208_988_800, 253_402_300_799, -62_135_596_800, -1] {
                    let v = (base + secs) as i128 * u as i128 + fr as i128;
                    let Ok(v) = i64::try_from(v) else { continue };
                    for n in [false, true] { c.both(&lit_doc(LitV::PTs(p, v), n)); c.both(&lit_doc(LitV::PTsTz(p, v), n)); if p == 6 { c.both(&lit_doc(LitV::Timestamp(v), n)); } }
                }
                if !c.ok() { return; }
            }
        }
        for v in [i64::MIN, i64::MAX, g::TSMIN.saturating_mul(u), g::TSMAX.saturating_mul(u)] {
            let ok = p == 9 || (v as i128 >= g::TSMIN as i128 * u as i128 && v as i128 <= (g::TSMAX as i128 + 1) * u as i128 - 1);
            if ok { c.both(&lit_doc(LitV::PTs(p, v), false)); c.both(&lit_doc(LitV::PTsTz(p, v), true)); }
            else { c.marks("timestamp out of range", &proto(&lit_doc(LitV::PTs(p, v), false)), false); }
        }
        for v in [-1, 86_400 * u, 86_400 * u + 1, i64::MIN, i64::MAX] { c.marks("time outside one day", &proto(&lit_doc(LitV::PTime(p, v), false)), true); if p == 6 { c.marks("time outside one day", &proto(&lit_doc(LitV::Time(v), false)), true); } }
    }
    for p in [-1, 1, 2, 4, 5, 7, 8, 10, 11, 13, 100, i32::MIN, i32::MAX] {
        for v in [LitV::PTime(p, 0), LitV::PTs(p, 0), LitV::PTsTz(p, 5)] { c.marks("unsupported precision", &proto(&lit_doc(v, false)), true); }
        c.marks("unsupported precision", &proto(&lit_doc(LitV::Interval { p, days: 1, secs: 1, sub: 0 }, false)), true);
        for t in ["precisiontime", "precisiontimestamp", "precisiontimestamptz", "interval_day"] {
            let v = match t { "precisiontime" => "00:00:00", "interval_day" => "1d", _ => "2020-01-01T00:00:00" };
            c.rejects(&ex_text(&format!("'{v}':{t}<{p}>")));
        }
    }
    for d in [95_026_237 + 400, -96_465_293 - 400, i32::MAX, i32::MIN] { c.marks("date out of range", &proto(&lit_doc(LitV::Date(d), false)), true); }
    c.family("times and timestamps at every precision", s);
    // interval_day
    let s = c.evals;
    for p in [0, 3, 6, 9, 12] {
        for days in [0, 1, -1, 5, -3_600_000, 3_600_000] { for secs in [0, 1, -1, 86_399, -86_399] { for sub in [0i64, 1, -1, 999, -999, pow10(p) - 1, 1 - pow10(p), pow10(p), i64::MAX, i64::MIN] {
            if p == 0 && sub != 0 { continue; }
            // a whole second or more of subseconds is shown but reported
            if sub >= pow10(p) || sub <= -pow10(p) { c.marks("subseconds of a second or more", &proto(&lit_doc(LitV::Interval { p, days, secs, sub }, false)), false); continue; }
            if c.ok() { c.both(&lit_doc(LitV::Interval { p, days, secs, sub }, days % 2 == 0)); }
        } } }
    }
    for (unit, p) in [("ms", 3), ("us", 6), ("ns", 9), ("ps", 12)] { for q in [0, 3, 6, 9, 12] {
        let t = ex_text(&format!("'1d 2s 7{unit}':interval_day<{q}>"));
        if p == q { c.accepts(&t, &proto(&lit_doc(LitV::Interval { p: q, days: 1, secs: 2, sub: 7 }, false))); } else { c.rejects(&t); }
    } }
    for bad in ["", "1", "d", "1d 2d", "1s 1d", "1ms 1s", "1d1s", "1h", "1m", "1.5s", "2147483648d", "-2147483649d", "2147483648s", "9223372036854775808ms", "1d 1s 1", " 1d", "1d ", "+1d", "1ms 1ms", "1d  1s"] { c.rejects(&ex_text(&format!("'{bad}':interval_day<3>"))); }
    c.family("interval_day", s);
    // text finer than the precision, malformed, leap second
    let s = c.evals;
    for (p, d) in [(0, 1), (3, 4), (6, 7), (9, 10)] {
        for k in d..=12 {
            let f = "1".repeat(k);
            c.rejects(&ex_text(&format!("'10:00:00.{f}':precisiontime<{p}>")));
            c.rejects(&ex_text(&format!("'2020-01-01T10:00:00.{f}':precisiontimestamp<{p}>")));
            c.rejects(&ex_text(&format!("'2020-01-01T10:00:00.{f}':precisiontimestamptz<{p}>")));
            if p == 6 { c.rejects(&ex_text(&format!("'10:00:00.{f}':time"))); c.rejects(&ex_text(&format!("'2020-01-01T10:00:00.{f}':timestamp"))); }
        }
        for k in 1..=9usize {
            // fractions not finer than the precision are exact
            if k as i32 > p { continue; }
            let f = "3".repeat(k);
            let sub: i64 = f.parse::<i64>().unwrap() * pow10(p - k as i32);
            c.accepts(&ex_text(&format!("'00:00:01.{f}':precisiontime<{p}>")), &proto(&lit_doc(LitV::PTime(p, pow10(p) + sub), false)));
            c.accepts(&ex_text(&format!("'1970-01-01T00:00:01.{f}':precisiontimestamp<{p}>")), &proto(&lit_doc(LitV::PTs(p, pow10(p) + sub), false)));
            c.accepts(&ex_text(&format!("'1969-12-31T23:59:59.{f}':precisiontimestamptz<{p}>")), &proto(&lit_doc(LitV::PTsTz(p, -pow10(p) + sub), false)));
        }
    }
    for t in ["'24:00:00':time", "'23:60:00':time", "'23:59:60':time", "'23:59:60.5':precisiontime<3>", "'2020-01-01T23:59:60':timestamp", "'12:00':precisiontime<12>", "'00:00:00.000000000000':precisiontime<12>", "'2020-13-01':date", "'2020-00-10':date", "'x':date", "'':date", "'2020-01-01':time", "'10:00:00':date", "'2020-01-01T10:00:00+00:00':timestamp", "'300000-01-01':date", "'2020-01-01T25:00:00':precisiontimestamp<3>", "'2262-04-12T00:00:00':precisiontimestamp<9>", "'1677-09-20T00:00:00':precisiontimestamp<9>"] { c.rejects(&ex_text(t)); }
    // every fraction of 0 to 12 digits, before and after the epoch, at every precision
    for (d, day) in [("1969-12-31", -1i64), ("1970-01-01", 0), ("1969-01-01", -365), ("0001-01-01", days_of(1, 1, 1)), ("2024-02-29", days_of(2024, 2, 29)), ("1900-03-01", days_of(1900, 3, 1))] {
        for (h, hs) in [("00:00:00", 0i64), ("23:59:59", 86_399), ("12:34:56", 45_296)] {
            for k in 0..=12usize { for last in [0u8, 5, 9] { for fill in [0u8, 4, 9] {
                if k == 0 && (last, fill) != (0, 0) { continue; }
                let ds: Vec<u8> = (0..k).map(|i| if i + 1 == k { last } else { fill }).collect();
                let f: String = ds.iter().map(|x| (b'0' + x) as char).collect();
                let tail = if k == 0 { String::new() } else { format!(".{f}") };
                let sig = ds.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
                for p in [0i32, 3, 6, 9] {
                    let fits = sig <= p as usize;
                    let sub: i128 = (0..p as usize).fold(0, |a, i| a * 10 + *ds.get(i).unwrap_or(&0) as i128);
                    let v = (day as i128 * 86_400 + hs as i128) * pow10(p) as i128 + sub;
                    let t = ex_text(&format!("'{d}T{h}{tail}':precisiontimestamp<{p}>"));
                    match i64::try_from(v) { Ok(v) if fits => c.accepts(&t, &proto(&lit_doc(LitV::PTs(p, v), false))), _ => c.rejects(&t) }
                    if p == 6 { let t = ex_text(&format!("'{d} {h}{tail}':timestamp?")); if fits { c.accepts(&t, &proto(&lit_doc(LitV::Timestamp(v as i64), true))) } else { c.rejects(&t) } }
                    if day == 0 {
                        let t = ex_text(&format!("'{h}{tail}':precisiontime<{p}>"));
                        if fits { c.accepts(&t, &proto(&lit_doc(LitV::PTime(p, v as i64), false))) } else { c.rejects(&t) }
                    }
                    if !c.ok() { return; }
                }
            } } }
        }
    }
    c.family("text finer than the precision or malformed", s);
    let s = c.evals;
    let n = if c.thorough { 200000 } else { 8000 };
    for _ in 0..n {
        if !c.more() { break; }
        let (w, nl) = (8 + c.r.below(7), c.r.bool());
        let mut gg = G::new(&mut c.r, Focus::default());
        let v = gg.litv(w);
        c.both_with(&lit_doc(v, nl), &[Opts::default()]);
    }
    c.family("random temporal literals", s);
}
/// Days from civil date (independent of `civil`).
pub fn days_of(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719_468
}

// ---------------------------------------------------------------- P04
fn p04(c: &mut Cx) {
    let s = c.evals;
    let mut ts = all_types(1);
    for n in [false, true] { for k in PRECS { for p in 0..=12 { ts.push(Ty::P(k, p, n)); } } }
    let base: Vec<Ty> = all_types(0);
    for t in &base { for a in [false, true] { for b in [false, true] { ts.push(Ty::L(Box::new(Ty::L(Box::new(t.clone()), a)), b)); } } }
    for t in ts { if c.ok() { c.both(&ty_doc(t, Table::default())); } }
    let tb = tab(&[], &[(1, "point"), (2, "point"), (3, "json"), (5, "i64"), (7, "list"), (9, "interval_day"), (11, "Struct"), (13, "i64x"), (14, "listing")]);
    for a in [1, 2, 3, 5, 7, 9, 11, 13, 14] { for n in [false, true] {
        c.both(&ty_doc(Ty::U(a, vec![], n), tb.clone()));
        for t in &base { c.both(&ty_doc(Ty::U(a, vec![TP::T(t.clone())], n), tb.clone())); }
        for i in [0, 1, -1, i64::MAX, i64::MIN] { c.both(&ty_doc(Ty::U(a, vec![TP::I(i)], n), tb.clone())); }
        for x in [1, 3] { for m in [false, true] {
            let inner = Ty::U(x, vec![TP::I(3), TP::T(Ty::S(Simple::Str, m))], m);
            c.both(&ty_doc(Ty::U(a, vec![TP::T(Ty::L(Box::new(inner.clone()), n)), TP::I(9), TP::T(inner)], n), tb.clone()));
        } }
    } }
    for a in &base { for b in &base { c.both_with(&ty_doc(Ty::U(3, vec![TP::T(a.clone()), TP::T(b.clone())], false), tb.clone()), &[Opts::default()]); } }
    for a in [0i64, 1, -1] { for b in [0i64, 1, -1] { c.both(&ty_doc(Ty::U(3, vec![TP::I(a), TP::I(b), TP::I(b)], false), tb.clone())); c.both(&ty_doc(Ty::U(3, vec![TP::I(a), TP::T(i64t()), TP::T(i64t()), TP::I(b)], true), tb.clone())); } }
    c.family("every simple, parameterised and nested type, both nullabilities", s);
    // the same types in every position
    let s = c.evals;
    let tb2 = tab(&[(1, "f")], &[(1, "point"), (3, "json")]);
    for t in base.iter().cloned().chain([Ty::L(Box::new(Ty::S(Simple::I8, true)), true), Ty::U(3, vec![], true), Ty::U(1, vec![TP::I(4)], false)]) {
        c.both(&ex_doc(Ex::Call(Call { f: 1, args: vec![], ty: t.clone() }), tb2.clone()));
        for m in 0..3 { c.both(&ex_doc(Ex::Cast(Box::new(Ex::Ref(0)), m, t.clone()), tb2.clone())); }
        c.both(&ex_doc(Ex::Lit(Lit { v: LitV::Null(t.clone()), nullable: false }), tb2.clone()));
        c.both(&with_tab(node(Rel::Virt { rows: vec![], filter: None, cols: vec![("a".into(), t.clone()), ("b".into(), i64t())] }, vec![]), tb2.clone()));
    }
    c.family("types in every position", s);
    let s = c.evals;
    for q in ["", "?"] {
        for t in ["u8", "u16", "u32", "u64", "int", "bool", "i128", "I64", "String", "text", "varchar", "decimal", "fixedchar", "unknown", "u!unknown", "interval", "interval_days", "timestamptz", "date32", "uuidx"] { c.rejects(&ty_text(&format!("{t}{q}"))); }
        for t in ["precisiontime", "precisiontimestamp", "precisiontimestamptz", "interval_day"] {
            for p in ["-1", "13", "14", "100", "2147483648", "4294967296", "4294967299", "-4294967293", "99999999999999999999", "x", "", "3, 3", "i64"] { c.rejects(&ty_text(&format!("{t}{q}<{p}>"))); }
            c.rejects(&ty_text(&format!("{t}{q}")));
        }
        c.rejects(&ty_text(&format!("map{q}<i64, string>"))); c.rejects(&ty_text(&format!("struct{q}<i64, string>"))); c.rejects(&ty_text(&format!("struct{q}<>")));
        c.rejects(&ty_text(&format!("list{q}"))); c.rejects(&ty_text(&format!("list{q}<>"))); c.rejects(&ty_text(&format!("list{q}<i64, i64>"))); c.rejects(&ty_text(&format!("i64{q}<>"))); c.rejects(&ty_text(&format!("list{q}<u32>"))); c.rejects(&ty_text(&format!("list{q}<map<i64, i64>>")));
    }
    for t in ["i64??", "?i64", "list<i64>?", "precisiontime<3>?", "i64#1", "i 64", "list <i64>", "u!i64"] { c.rejects(&ty_text(t)); }
    // case variants of parameterised names denote the same type
    for (t, d) in [("LIST<i64>", Ty::L(Box::new(i64t()), false)), ("List?<i64>", Ty::L(Box::new(i64t()), true)), ("PrecisionTime<3>", Ty::P(PrecK::Time, 3, false)), ("PRECISIONTIMESTAMPTZ?<6>", Ty::P(PrecK::TimestampTz, 6, true)), ("INTERVAL_DAY<9>", Ty::P(PrecK::IntervalDay, 9, false))] { c.accepts(&ty_text(t), &proto(&ty_doc(d, Table::default()))); }
    c.family("type text that must be rejected", s);
    // unspecified nullability: explicit marker and a reported error
    let s = c.evals;
    for t in base.iter().cloned().chain([Ty::L(Box::new(i64t()), false)]) {
        for bad in [0, 3, 77] {
            let mut p = proto(&ty_doc(t.clone(), Table::default()));
            set_nullability(&mut p, bad);
            c.note(&format!("{t:?} {bad}"));
            let f = c.fmt(&p, &OutputOptions::default());
            if !matches!(&f, F::Ok(x, e) if !e.is_empty() && (x.contains('\u{2049}') || x.contains("!{"))) { c.fail("unspecified nullability must be marked and reported", show(&p), "marker and error", f.show()); }
        }
    }
    c.family("unspecified nullability", s);
    let s = c.evals;
    let n = if c.thorough { 60000 } else { 3000 };
    for _ in 0..n { if !c.more() { break; } let mut gg = G::new(&mut c.r, Focus::default()); let t = gg.ty(4); let tb = gg.tab; c.both(&ty_doc(t, tb)); }
    c.family("random types, nesting 4", s);
}
fn set_nullability(p: &mut Plan, n: i32) {
    use sp::r#type::Kind as Kd;
    let sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(sp::rel::RelType::Read(r)) }) = p.relations[0].rel_type.as_mut().unwrap() else { unreachable!() };
    macro_rules! each { ($k:expr, $($v:ident)*) => { match $k { $(Kd::$v(x) => x.nullability = n,)* _ => unreachable!() } } }
    let k = r.base_schema.as_mut().unwrap().r#struct.as_mut().unwrap().types[0].kind.as_mut().unwrap();
    each!(k, Bool I8 I16 I32 I64 Fp32 Fp64 String Binary Date Time Timestamp TimestampTz IntervalYear Uuid PrecisionTime PrecisionTimestamp PrecisionTimestampTz IntervalDay List)
}

// ---------------------------------------------------------------- P05
fn seqs(k: usize, max: usize) -> Vec<Vec<i32>> {
    let mut out: Vec<Vec<i32>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max { let mut nx = vec![]; for s in &last { for i in 0..k as i32 { let mut t = s.clone(); t.push(i); nx.push(t); } } out.extend(nx.clone()); last = nx; }
    out
}
fn p05(c: &mut Cx) {
    let s = c.evals;
    let one = Opts::default();
    for w in 1..=3usize {
        for out in seqs(w, w + 1) {
            if !c.ok() { return; }
            for rel in [Rel::Filter { cond: Ex::Ref(0), out: out.clone() }, Rel::Sort { fields: vec![(Ex::Ref(0), 1)], out: out.clone() }, Rel::Fetch { limit: Some(Lim::Int(1)), offset: None, out: out.clone() }] {
                c.both_with(&doc1(node(rel, vec![read_n(w)])), std::slice::from_ref(&one));
            }
            c.both_with(&doc1(node(Rel::Set { op: 6, out: out.clone() }, vec![read_n(w), read_n(w)])), std::slice::from_ref(&one));
            c.both_with(&doc1(node(Rel::Set { op: 1, out: out.clone() }, vec![read_n(w), read_n(w), read_n(w)])), std::slice::from_ref(&one));
            if let Rel::Read { names, cols, .. } = read_n(w).rel { c.both_with(&doc1(node(Rel::Read { names, cols, map: Some(out.clone()) }, vec![])), std::slice::from_ref(&one)); }
            // the mapped width is what an outer relation sees
            if !out.is_empty() { c.both_with(&doc1(node(Rel::Filter { cond: boolean(true), out: (0..out.len() as i32).collect() }, vec![node(Rel::Filter { cond: Ex::Ref(0), out: out.clone() }, vec![read_n(w)])])), std::slice::from_ref(&one)); }
        }
    }
    for l in 1..=3usize { for r in 1..=3usize {
        for jt in JOIN_TYPES { let w = join_width(jt.0, l, r);
            let id: Vec<i32> = (0..w as i32).collect();
            let mut outs = vec![id.clone(), id.iter().rev().copied().collect(), (0..l as i32).collect(), (0..r as i32).collect(), (0..(l + r) as i32).filter(|x| (*x as usize) < w).collect(), id[..w - 1].to_vec(), id[1..].to_vec(), vec![]];
            let mut dup = id.clone(); dup.push(0); outs.push(dup);
            for out in outs { if c.ok() && out.iter().all(|x| (*x as usize) < w) {
                let j = node(Rel::Join { ty: jt.0, cond: boolean(true), post: None, out: out.clone() }, vec![read_n(l), read_n(r)]);
                c.both_with(&doc1(j.clone()), std::slice::from_ref(&one));
                let k = out.len() as i32;
                c.both_with(&doc1(node(Rel::Project { items: (0..k).map(PI::Ref).chain([PI::Ex(int(7))]).collect() }, vec![j])), std::slice::from_ref(&one));
            } }
        }
        for out in [(0..(l + r) as i32).collect::<Vec<_>>(), (0..(l + r) as i32).rev().collect(), (0..l as i32).collect(), vec![], (0..(l + r) as i32).chain([0]).collect()] { c.both_with(&doc1(node(Rel::Cross { out }, vec![read_n(l), read_n(r)])), std::slice::from_ref(&one)); }
    } }
    c.family("every mapping up to width+1 for each relation kind", s);
    let s = c.evals;
    // projections: every sequence of references and expressions up to length 4 over 2 inputs
    for w in 1..=2usize {
        for code in 0..((w + 1) as u32).pow(5) {
            for len in 0..=5usize {
                let mut x = code; let mut items = vec![];
                for i in 0..len { let d = (x % (w as u32 + 1)) as usize; x /= w as u32 + 1; items.push(if d < w { PI::Ref(d as i32) } else { PI::Ex(int(i as i64)) }); }
                if x != 0 || !c.ok() { continue; }
                c.both_with(&doc1(node(Rel::Project { items }, vec![read_n(w)])), std::slice::from_ref(&one));
            }
        }
    }
    // aggregates: groupings then measures
    let tb = tab(&[(1, "sum"), (2, "count")], &[]);
    let m = |f: u32| AO::M(Call { f, args: vec![Ex::Ref(1)], ty: i64t() });
    for gs in 0..=2usize { for code in 0..4u32.pow(4) { for len in 0..=4usize {
        let mut x = code; let mut outs = vec![];
        for _ in 0..len { let d = x % 4; x /= 4; match d { 0 | 1 if (d as usize) < gs => outs.push(AO::G(d as usize)), 0 | 1 => {} _ => outs.push(m(d - 1)) } }
        if x != 0 || !c.ok() { continue; }
        c.both_with(&with_tab(node(Rel::Agg { sets: vec![(0..gs as i32).map(Ex::Ref).collect()], outs }, vec![read_n(2)]), tb.clone()), std::slice::from_ref(&one));
    } } }
    c.family("every projection and aggregate output list up to length 4-5", s);
    // omitted emit prints like direct; explicit identity mapping prints the same columns
    let s = c.evals;
    for d in emit_variants() { let (a, b, t) = d; c.prints(&a, &OutputOptions::default(), &t); c.prints(&b, &OutputOptions::default(), &t); }
    c.family("omitted and explicit-identity mappings", s);
    // width seen by an extension handler
    let s = c.evals;
    for w in 1..=3usize { for out in seqs(w, 3) {
        let inp = node(Rel::Filter { cond: boolean(true), out: out.clone() }, vec![read_n(w)]);
        let x = node(Rel::Ext { k: ExtK::Multi, name: NAMES[0].into(), url: URLS[0].into(), args: XArgs { cols: vec![XCol::Ex(Ex::Ref(0))], ..Default::default() } }, vec![inp.clone(), read_n(2), node(Rel::Join { ty: 11, cond: boolean(true), post: None, out: vec![0, 1, 2, 3] }, vec![read_n(3), read_n(2)])]);
        let p = proto(&doc1(x));
        ext::SEEN_INPUTS.with(|s| s.borrow_mut().clear());
        let _ = c.fmt(&p, &OutputOptions::default());
        let seen = ext::SEEN_INPUTS.with(|s| s.borrow().clone());
        c.check(seen.last() == Some(&vec![out.len(), 2, 4]), "input widths told to an extension", &show(&p), &format!("{:?}", [out.len(), 2, 4]), &format!("{seen:?}"));
        if !c.ok() { return; }
    } }
    c.family("input widths told to extension handlers", s);
    random(c, Focus { expr: 1, udt: false, ver: false, weird: false, depth: 4, ..Default::default() }, 700);
}
/// (plan without any emit, plan with an explicit identity emit, the text both must print as)
fn emit_variants() -> Vec<(Plan, Plan, String)> {
    let mut v = vec![];
    let tb = tab(&[(1, "sum")], &[]);
    let id = |n: i32| (0..n).collect::<Vec<i32>>();
    let nodes = vec![
        node(Rel::Filter { cond: boolean(true), out: id(2) }, vec![read_n(2)]), node(Rel::Sort { fields: vec![(Ex::Ref(0), 2)], out: id(3) }, vec![read_n(3)]), node(Rel::Fetch { limit: Some(Lim::Int(3)), offset: None, out: id(1) }, vec![read_n(1)]),
        node(Rel::Project { items: vec![PI::Ref(0), PI::Ref(1), PI::Ex(int(1)), PI::Ex(boolean(true))] }, vec![read_n(2)]), node(Rel::Cross { out: id(3) }, vec![read_n(2), read_n(1)]), node(Rel::Set { op: 5, out: id(2) }, vec![read_n(2), read_n(2)]),
        node(Rel::Agg { sets: vec![vec![Ex::Ref(0)]], outs: vec![AO::G(0), AO::M(Call { f: 1, args: vec![Ex::Ref(0)], ty: i64t() })] }, vec![read_n(2)]),
    ].into_iter().chain(JOIN_TYPES.iter().map(|j| node(Rel::Join { ty: j.0, cond: boolean(true), post: None, out: id(join_width(j.0, 2, 3) as i32) }, vec![read_n(2), read_n(3)])));
    for n in nodes {
        let w = direct_width(&n);
        let d = with_tab(n, tb.clone());
        let t = text(&d, &Opts::default());
        let (mut a, mut b) = (proto(&d), proto(&d));
        set_common(&mut a, None);
        set_common(&mut b, emit(&id(w as i32)));
        v.push((a, b, t));
    }
    v
}
pub fn set_common(p: &mut Plan, k: Option<sp::RelCommon>) {
    use sp::rel::RelType as R;
    let sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(r) }) = p.relations[0].rel_type.as_mut().unwrap() else { unreachable!() };
    match r { R::Filter(x) => x.common = k, R::Sort(x) => x.common = k, R::Fetch(x) => x.common = k, R::Project(x) => x.common = k, R::Cross(x) => x.common = k, R::Set(x) => x.common = k, R::Aggregate(x) => x.common = k, R::Join(x) => x.common = k, R::Read(x) => x.common = k, _ => unreachable!() }
}

// ---------------------------------------------------------------- P06
fn p06(c: &mut Cx) {
    let s = c.evals;
    // every sequence of up to 4 declarations over a small alphabet, via text
    #[derive(Clone, Copy)]
    enum D { U(u32, u8), X(usize, u32, u32, u8) }
    let mut alpha = vec![D::U(1, 0), D::U(1, 1), D::U(2, 0)];
    for k in 0..3 { for a in [1, 2] { for n in 0..2u8 { alpha.push(D::X(k, a, 1, n)); } } alpha.push(D::X(k, 1, 2, 0)); alpha.push(D::X(k, 3, 9, 0)); }
    let un = ["ua", "ub"]; let nm = ["foo", "bar"]; let ks = [XK::Function, XK::Type, XK::Variation];
    let ek = [ExtensionKind::Function, ExtensionKind::Type, ExtensionKind::TypeVariation];
    let len = if c.thorough { 4 } else { 3 };
    let total = alpha.len().pow(len as u32);
    for code in 0..total {
        if !c.ok() { break; }
        let mut x = code;
        let seq: Vec<D> = (0..len).map(|_| { let d = alpha[x % alpha.len()]; x /= alpha.len(); d }).collect();
        // the crate's table, driven directly
        let mut t = SimpleExtensions::new();
        let mut m = Table::default();
        for d in &seq {
            let (ok, got) = match *d {
                D::U(a, n) => { let dup = m.urns.iter().any(|u| u.0 == a); if !dup { m.urns.push((a, un[n as usize].into())); } (!dup, t.add_extension_urn(un[n as usize].into(), a).is_ok()) }
                D::X(k, a, u, n) => {
                    let dup = m.get(ks[k], a).is_some(); let miss = !m.urns.iter().any(|x| x.0 == u);
                    if !dup { m.decls.push(Decl { k: ks[k], anchor: a, urn: u, name: nm[n as usize].into() }); }
                    (!dup && !miss, t.add_extension(ek[k], u, a, nm[n as usize].into()).is_ok())
                }
            };
            c.evals += 1;
            if ok != got { c.fail("declaration accepted/rejected wrongly", dbg_seq(&seq, |d| match d { D::U(a, n) => format!("@{a}:{}", un[*n as usize]), D::X(k, a, u, n) => format!("{:?}#{a}@{u}:{}", ks[*k], nm[*n as usize]) }), format!("ok={ok}"), format!("ok={got}")); }
        }
        let (u, e) = tab_proto(&m);
        if t.to_extension_urns() != u || t.to_extension_declarations() != e || t.to_string("  ") != m.text("  ") || t.is_empty() != (u.is_empty() && e.is_empty()) { c.fail("table contents after declarations", format!("{m:?}"), m.text("  "), t.to_string("  ")); }
        for k in 0..3 { for a in 0..4u32 { let w = m.get(ks[k], a).map(|d| (d.urn, d.name.clone())); let g = t.find_by_anchor(ek[k], a).ok().map(|(u, n)| (u, n.full().to_string())); if w != g { c.fail("lookup by anchor", format!("{m:?} {k} {a}"), format!("{w:?}"), format!("{g:?}")); } } }
        for a in 0..4u32 { let w = m.urns.iter().find(|u| u.0 == a).map(|u| u.1.clone()); let g = t.find_urn(a).ok().map(|s| s.to_string()); if w != g { c.fail("lookup of URN", format!("{m:?} {a}"), format!("{w:?}"), format!("{g:?}")); } }
        // the same sequence as a plan: errors reported iff some declaration is bad, table printed in full
        if code % 5 == 0 || c.thorough {
            let mut us = vec![]; let mut ds = vec![]; let mut mm = Table::default(); let mut bad = 0;
            for d in &seq { if let D::U(a, n) = *d { us.push(sp::extensions::SimpleExtensionUrn { extension_urn_anchor: a, urn: un[n as usize].into() }); if mm.urns.iter().any(|u| u.0 == a) { bad += 1; } else { mm.urns.push((a, un[n as usize].into())); } } }
            for d in &seq { if let D::X(k, a, u, n) = *d {
                let one = Table { urns: vec![], decls: vec![Decl { k: ks[k], anchor: a, urn: u, name: nm[n as usize].into() }] };
                ds.extend(tab_proto(&one).1);
                let dup = mm.get(ks[k], a).is_some(); if dup || !mm.urns.iter().any(|x| x.0 == u) { bad += 1; } if !dup { mm.decls.extend(one.decls); }
            } }
            let mut p = proto(&doc1(read_n(1)));
            p.extension_urns = us; p.extensions = ds;
            let f = c.fmt(&p, &OutputOptions::default());
            let want = text(&Doc { tab: mm.clone(), ..doc1(read_n(1)) }, &Opts::default());
            c.note(&want);
            if !matches!(&f, F::Ok(t, e) if *t == want && e.len() == bad) { c.fail("declarations of a plan", show(&p), format!("{want}\n{bad} errors"), f.show()); }
            // as text, in the order written
            let mut t = String::from("=== Extensions\nURNs:\n");
            for d in &seq { if let D::U(a, n) = d { t += &format!("  @{a}: {}\n", un[*n as usize]); } }
            for (k, h) in ["Functions:", "Types:", "Type Variations:"].iter().enumerate() { t += &format!("{h}\n"); for d in &seq { if let D::X(kk, a, u, n) = d { if *kk == k { t += &format!("  #{a} @{u}: {}\n", nm[*n as usize]); } } } }
            t += "\n=== Plan\nRead[t => c0:i64]\n";
            let mut want = proto(&doc1(read_n(1)));
            (want.extension_urns, want.extensions) = tab_proto(&mm);
            if bad > 0 { c.rejects(&t); } else { c.accepts(&t, &want); }
        }
    }
    c.family("every declaration sequence over a small alphabet", s);
    let s = c.evals;
    let ext = |u: &str, f: &str, t: &str, v: &str| format!("=== Extensions\nURNs:\n{u}Functions:\n{f}Types:\n{t}Type Variations:\n{v}\n=== Plan\nRead[t => c0:i64]\n");
    for (u, f, t, v) in [
        ("  @1: a\n", "  #1 @1: u!f\n", "", ""), ("  @1: a\n", "", "", "  #1 @1: u!v\n"), ("  @1: a\n", "  #1 @2: f\n", "", ""), ("  @1: a\n", "  #1: f\n", "", ""), ("  @1 a\n", "", "", ""), ("  1: a\n", "", "", ""), ("  @-1: a\n", "", "", ""), ("  @4294967296: a\n", "", "", ""),
        ("  @1: a\n", "  #4294967296 @1: f\n", "", ""), ("  @1: a\n", "  #-1 @1: f\n", "", ""), ("  @1: a\n", "  #1 @4294967297: f\n", "", ""), ("  @1: a b\n", "", "", ""), ("  @1: a\n", "  #1 @1: f g\n", "", ""), ("  @1: a\n", "  #1 @1: \n", "", ""), ("  @1: \n", "", "", ""), ("  @1: a\n", "  #1 @1: f:i64_\n", "", ""), ("  @1: a\n", "  #1 @1: 1f\n", "", ""), ("  #1 @1: f\n", "", "", ""), ("  @1: a\n", "  @2: b\n", "", ""),
    ] { c.rejects(&ext(u, f, t, v)); }
    let mut w = proto(&doc1(read_n(1)));
    (w.extension_urns, w.extensions) = tab_proto(&Table { urns: vec![(1, "a".into()), (u32::MAX, "b:c#d@e".into())], decls: vec![Decl { k: XK::Type, anchor: 1, urn: 1, name: "json".into() }, Decl { k: XK::Type, anchor: 2, urn: u32::MAX, name: "json".into() }, Decl { k: XK::Function, anchor: 1, urn: 1, name: "f:".into() }, Decl { k: XK::Function, anchor: 7, urn: 1, name: "f:i64_u!x".into() }, Decl { k: XK::Variation, anchor: 1, urn: 1, name: "v".into() }] });
    c.accepts(&ext("  @4294967295: b:c#d@e\n  @1: a\n", "  #7 @1: f:i64_u!x\n  #1 @1: f:\n", "  #2@4294967295: u!json\n  # 1 @ 1: json\n", "  #1 @1: v\n"), &w);
    c.family("declaration syntax", s);
    let s = c.evals;
    let n = if c.thorough { 40000 } else { 2500 };
    for _ in 0..n { if !c.more() { break; } let t = g::table(&mut c.r, true); c.both(&with_tab(read_n(1), t)); }
    c.family("random tables", s);
}
fn dbg_seq<T>(s: &[T], f: impl Fn(&T) -> String) -> String { s.iter().map(f).collect::<Vec<_>>().join(" ; ") }

// ---------------------------------------------------------------- P07
fn p07(c: &mut Cx) {
    let s = c.evals;
    let names = ["f", "f:i64", "f:", "g", "f:i64_i64"];
    let k = if c.thorough { 4 } else { 3 };
    // every function table with k anchors over the name pool (0 = undeclared), kinds in parallel
    for code in 0..(names.len() + 1).pow(k) {
        if !c.ok() { break; }
        let mut x = code;
        let mut fs = vec![];
        for a in 0..k { let d = x % (names.len() + 1); x /= names.len() + 1; if d > 0 { fs.push(([2u32, 1, 7, 4][a as usize], names[d - 1])); } }
        // a type of the same name must not interfere
        let tb = tab(&fs, &[(1, "f"), (2, "g")]);
        for (a, _) in &fs { c.both(&ex_doc(Ex::Call(Call { f: *a, args: vec![], ty: i64t() }), tb.clone())); c.both(&with_tab(node(Rel::Agg { sets: vec![vec![]], outs: vec![AO::M(Call { f: *a, args: vec![Ex::Ref(0)], ty: i64t() })] }, vec![read_n(1)]), tb.clone())); }
        for nm in ["f", "f:i64", "f:", "g", "h", "f:str", "g:", "f:i64_i64", "F"] { for anc in [None, Some(1u32), Some(2), Some(7), Some(9)] {
            let matches = |d: &str| if nm.contains(':') { d == nm } else { d.split(':').next() == Some(nm) };
            let want = match anc { Some(a) => fs.iter().find(|f| f.0 == a && matches(f.1)).map(|f| f.0), None => { let v: Vec<_> = fs.iter().filter(|f| matches(f.1)).collect(); if v.len() == 1 { Some(v[0].0) } else { None } } };
            let t = text(&ex_doc(Ex::Ref(0), tb.clone()), &Opts::default()).replace("Filter[$0 =>", &format!("Filter[{nm}{}():i64 =>", anc.map(|a| format!("#{a}")).unwrap_or_default()));
            match want { Some(a) => c.accepts(&t, &proto(&ex_doc(Ex::Call(Call { f: a, args: vec![], ty: i64t() }), tb.clone()))), None => c.rejects(&t) }
        } }
    }
    c.family("every function table of 3-4 anchors, every spelling", s);
    let s = c.evals;
    let names = ["p", "q", "i64", "list", "date"];
    for code in 0..(names.len() + 1).pow(3) {
        if !c.ok() { break; }
        let mut x = code;
        let mut tsx = vec![];
        for a in [3u32, 1, 5] { let d = x % (names.len() + 1); x /= names.len() + 1; if d > 0 { tsx.push((a, names[d - 1])); } }
        let tb = tab(&[(1, "p"), (3, "q")], &tsx);
        for (a, _) in &tsx { c.both(&ty_doc(Ty::U(*a, vec![], true), tb.clone())); c.both(&ty_doc(Ty::L(Box::new(Ty::U(*a, vec![TP::I(1)], false)), true), tb.clone())); }
        for nm in ["p", "q", "r", "i64", "list"] { for pre in ["", "u!"] { for anc in [None, Some(1u32), Some(3), Some(9)] {
            if (nm == "i64" || nm == "list") && pre.is_empty() { continue; }
            let v: Vec<_> = tsx.iter().filter(|t| t.1 == nm).collect();
            let want = match anc { Some(a) => v.iter().find(|t| t.0 == a).map(|t| t.0), None => if v.len() == 1 { Some(v[0].0) } else { None } };
            let t = text(&ty_doc(i64t(), tb.clone()), &Opts::default()).replace("c:i64", &format!("c:{pre}{nm}{}", anc.map(|a| format!("#{a}")).unwrap_or_default()));
            match want { Some(a) => c.accepts(&t, &proto(&ty_doc(Ty::U(a, vec![], false), tb.clone()))), None => c.rejects(&t) }
        } } }
    }
    c.family("every type table of 3 anchors, every spelling", s);
    let s = c.evals;
    // undeclared anchors in plans are reported
    for a in [0, 1, 3, u32::MAX] {
        let tb = tab(&[(2, "f")], &[(2, "p")]);
        let mut p = proto(&ex_doc(Ex::Call(Call { f: 2, args: vec![], ty: i64t() }), tb.clone()));
        if let Some(sp::expression::RexType::ScalarFunction(f)) = cond_mut(&mut p).rex_type.as_mut() { f.function_reference = a; }
        c.marks("undeclared function anchor", &p, true);
        let mut p = proto(&ex_doc(Ex::Cast(Box::new(Ex::Ref(0)), 0, Ty::U(2, vec![], false)), tb));
        if let Some(sp::expression::RexType::Cast(f)) = cond_mut(&mut p).rex_type.as_mut() { f.r#type = Some(ty_proto(&Ty::U(a, vec![], false))); }
        c.marks("undeclared type anchor", &p, true);
    }
    c.family("undeclared anchors", s);
    random(c, Focus { expr: 3, depth: 1, ver: false, weird: false, ..Default::default() }, 1200);
}

// ---------------------------------------------------------------- P08
#[derive(Clone, Copy, Debug, PartialEq)]
enum L { R(usize), A(usize), Root }
struct T8 { id: usize, adds: Vec<usize>, kids: Vec<T8>, root: bool }
fn tree_of(ls: &[L]) -> Option<Vec<T8>> {
    fn at(v: &mut Vec<T8>, d: usize) -> Option<&mut T8> { let mut n = v.last_mut()?; for _ in 0..d { n = n.kids.last_mut()?; } Some(n) }
    let mut v: Vec<T8> = vec![];
    for (i, l) in ls.iter().enumerate() {
        match *l {
            L::Root => v.push(T8 { id: i, adds: vec![], kids: vec![], root: true }),
            L::R(0) => v.push(T8 { id: i, adds: vec![], kids: vec![], root: false }),
            L::R(d) => at(&mut v, d - 1)?.kids.push(T8 { id: i, adds: vec![], kids: vec![], root: false }),
            L::A(0) => return None,
            L::A(d) => { let p = at(&mut v, d - 1)?; if p.root || !p.kids.is_empty() { return None; } p.adds.push(i); }
        }
    }
    if v.iter().any(|t| t.root && t.kids.len() != 1) { return None; }
    Some(v)
}
fn t8_node(t: &T8) -> Node {
    let inputs: Vec<Node> = t.kids.iter().map(t8_node).collect();
    let rel = match inputs.len() { 0 => read_named(&format!("t{}", t.id), 1).rel, 1 => Rel::Filter { cond: int(t.id as i64), out: vec![0] }, _ => Rel::Set { op: SET_OPS[t.id % 8].0, out: vec![0] } };
    Node { rel, adds: t.adds.iter().map(|i| opt(*i)).collect(), inputs }
}
fn opt(i: usize) -> Add { Add { k: AddK::Opt, name: NAMES[0].into(), url: URLS[0].into(), args: XArgs { pos: vec![XVal::Int(i as i64)], ..Default::default() } } }
fn t8_case(c: &mut Cx, ls: &[L]) {
    let tr = tree_of(ls);
    let doc = tr.as_ref().map(|v| Doc { tops: v.iter().map(|t| if t.root { Top::Root(vec![format!("r{}", t.id)], t8_node(&t.kids[0])) } else { Top::Rel(t8_node(t)) }).collect(), ..Default::default() });
    match doc {
        Some(d) => { let t = text(&d, &Opts::default()); let p = proto(&d); c.accepts(&t, &p); c.prints(&p, &OutputOptions::default(), &t); let t2 = t.replace("\n\n", "\n"); if t2 != t { c.accepts(&t2, &p); } }
        None => {
            // kinds by the number of direct children each line would get
            let mut t = String::from("=== Plan\n");
            for (i, l) in ls.iter().enumerate() {
                let (d, s) = match l { L::Root => (0, format!("Root[r{i}]")), L::A(d) => (*d, format!("+ Opt:Zed[{i}]")), L::R(d) => {
                    let mut k = 0; for m in &ls[i + 1..] { match m { L::R(e) if *e <= *d => break, L::Root => break, L::R(e) if *e == d + 1 => k += 1, _ => {} } }
                    (*d, match k { 0 => format!("Read[t{i} => c0:i64]"), 1 => format!("Filter[{i} => $0]"), _ => "Set[&UnionAll => $0]".to_string() })
                } };
                t += &format!("{}{s}\n", "  ".repeat(d));
            }
            c.rejects(&t);
        }
    }
}
fn p08(c: &mut Cx) {
    let s = c.evals;
    let alpha = [L::R(0), L::R(1), L::R(2), L::R(3), L::A(0), L::A(1), L::A(2), L::A(3), L::Root];
    let max = if c.thorough { 6 } else { 5 };
    for len in 1..=max {
        for code in 0..alpha.len().pow(len as u32) {
            let mut x = code;
            let ls: Vec<L> = (0..len).map(|_| { let l = alpha[x % alpha.len()]; x /= alpha.len(); l }).collect();
            // prune: any impossible prefix is covered by a shorter sequence
            if len > 2 && tree_of_prefix_bad(&ls[..len - 1]) { continue; }
            if c.ok() { t8_case(c, &ls); }
        }
    }
    c.family("every sequence of relation/addendum/root lines up to the bound", s);
    let s = c.evals;
    let n = if c.thorough { 40000 } else { 2500 };
    for _ in 0..n {
        if !c.more() { break; }
        // random valid tree, up to 14 lines and depth 7, sometimes with one line moved
        let k = 2 + c.r.below(13);
        let mut ls = vec![if c.r.one_in(3) { L::Root } else { L::R(0) }];
        let mut d = 0usize;
        for _ in 1..k {
            if c.r.one_in(4) && tree_of(&[ls.clone(), vec![L::A(d + 1)]].concat()).is_some() { ls.push(L::A(d + 1)); continue; }
            let nd = c.r.below((d + 2).min(8));
            if nd == 0 && c.r.one_in(3) { ls.push(L::Root); } else { ls.push(L::R(nd)); }
            d = nd;
        }
        if c.r.one_in(4) { let i = c.r.below(ls.len()); let e = c.r.below(5); ls[i] = match ls[i] { L::A(_) => L::A(e), _ => L::R(e) }; }
        t8_case(c, &ls);
    }
    c.family("random line sequences up to 14 lines, depth 7", s);
    let s = c.evals;
    // roots with none or several children, odd indentation, tabs
    for t in ["Root[a]\n", "Root[a]\n  Read[t => c:i64]\n  Read[u => c:i64]\n", "Root[a]\n  Root[b]\n    Read[t => c:i64]\n", "Filter[true => $0]\n Read[t => c:i64]\n", "Filter[true => $0]\n   Read[t => c:i64]\n", "Filter[true => $0]\n\tRead[t => c:i64]\n", "Filter[true => $0]\n    Read[t => c:i64]\n", "  Read[t => c:i64]\n", " Read[t => c:i64]\n", "Filter[true => $0]\n  Filter[true => $0]\n      Read[t => c:i64]\n", "Root[a]\n  + Opt:Zed[_]\n  Read[t => c:i64]\n", "Root[a]\n  Read[t => c:i64]\n  + Opt:Zed[_]\n", "+ Opt:Zed[_]\nRead[t => c:i64]\n", "Filter[true => $0]\n  Read[t => c:i64]\n  + Opt:Zed[_]\n"] { c.rejects(&format!("=== Plan\n{t}")); }
    c.family("bad indentation and roots", s);
    // the printed indentation unit
    let s = c.evals;
    for ind in ["", " ", "    ", "\t", "--"] { for _ in 0..20 { let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 3, ..Default::default() }).doc(); c.both_with(&d, &[Opts { indent: ind.into(), ..Default::default() }]); } }
    c.family("indent units", s);
    random(c, Focus { expr: 0, depth: 5, udt: false, weird: false, ext: true, kinds: ALL, tops: 3, ..Default::default() }, 400);
}
fn tree_of_prefix_bad(ls: &[L]) -> bool {
    // bad regardless of what follows: a structural failure (not merely a root still waiting for its child)
    for i in 1..=ls.len() {
        let mut p = ls[..i].to_vec();
        // satisfy a pending root
        if tree_of(&p).is_some() { continue; }
        if p.last() == Some(&L::Root) { p.push(L::R(1)); if tree_of(&p).is_some() { continue; } }
        return true;
    }
    false
}

// ---------------------------------------------------------------- P09
fn p09(c: &mut Cx) {
    let s = c.evals;
    let tb = tab(&[(1, "f")], &[]);
    let secs: [(&str, u8); 4] = [("=== Version 1.2.3\n  producer: p\n", 1), ("=== Extensions\nURNs:\n  @  1: u\nFunctions:\n  #  1 @  1: f\n", 2), ("=== Plan\nRead[t => c0:i64]\n", 3), ("junk\n", 9)];
    // every order and multiplicity of up to 4 sections
    for len in 0..=4usize { for code in 0..4usize.pow(len as u32) {
        let mut x = code;
        let seq: Vec<usize> = (0..len).map(|_| { let d = x % 4; x /= 4; d }).collect();
        let t: String = seq.iter().map(|i| secs[*i].0).collect();
        let ranks: Vec<u8> = seq.iter().map(|i| secs[*i].1).collect();
        let good = ranks.windows(2).all(|w| w[0] < w[1]) && !ranks.contains(&9);
        if good {
            // the plan section must be the one that carries relations
            let mut p = if ranks.contains(&3) { proto(&doc1(read_n(1))) } else { Plan::default() };
            if ranks.contains(&1) { p.version = Some(sp::Version { major_number: 1, minor_number: 2, patch_number: 3, producer: "p".into(), git_hash: String::new() }); }
            if ranks.contains(&2) { (p.extension_urns, p.extensions) = tab_proto(&tb); }
            let g0 = c.parse(&t);
            c.note(&t);
            // documents without a plan section may be rejected or give an empty plan, never anything else
            if !(matches!(&g0, P::Ok(q) if same(q, &p)) || (!ranks.contains(&3) && matches!(g0, P::Err(..)))) { c.fail("sections in order", t, show(&p), g0.show()); }
        } else { c.rejects(&t); }
    } }
    c.family("every order of up to 4 sections", s);
    // one bad line at every position: rejected, naming exactly that line
    let s = c.evals;
    let base = ["=== Version 1.2.3", "  producer: p", "  git_hash: g", "=== Extensions", "URNs:", "  @  1: u", "Functions:", "  #  1 @  1: f", "", "=== Plan", "Root[a]", "  Filter[f():boolean => $0]", "    Read:Virtual[", "      - (1),", "      - (2),", "      - (3)", "      - => c0:i64]", "", "Read[t => c0:i64]"];
    let basep = { let t = base.join("\n"); match c.parse(&t) { P::Ok(p) => *p, g0 => { c.fail("base document", t, "accepted", g0.show()); return; } } };
    let want = Doc { ver: Some(Ver { n: (1, 2, 3), producer: "p".into(), git: "g".into() }), tab: tb.clone(), tops: vec![Top::Root(vec!["a".into()], node(Rel::Filter { cond: Ex::Call(Call { f: 1, args: vec![], ty: Ty::S(Simple::Bool, false) }), out: vec![0] }, vec![node(Rel::Virt { rows: vec![vec![int(1)], vec![int(2)], vec![int(3)]], filter: None, cols: vec![("c0".into(), i64t())] }, vec![])])), Top::Rel(read_n(1))] };
    c.check(same(&basep, &proto(&want)), "base document means the expected plan", &base.join("\n"), &show(&proto(&want)), &show(&basep));
    for pos in 0..=base.len() { for bad in ["junk", "  junk", "Filter[", "=== Other", "===", "Filter[$0 => $0", "    junk[]", "@1: x", "#1 @1: f"] {
        let mut v: Vec<&str> = base.to_vec();
        v.insert(pos, bad);
        let t = v.join("\n");
        let g0 = c.parse(&t);
        c.note(&t);
        if !matches!(g0, P::Err(..)) { c.fail("an unexpected line must be rejected", t.clone(), "an error", g0.show()); }
        // line naming, where only that line can be at fault
        let inside_virtual = (13..=16).contains(&pos);
        if matches!(bad, "junk" | "=== Other") && pos != 0 && !inside_virtual { if let P::Err(Some(l), _) = &g0 { if *l != pos as i64 + 1 { c.fail("error names the wrong line", t, format!("line {}", pos + 1), g0.show()); } } else { c.fail("error without a line", t, format!("line {}", pos + 1), g0.show()); } }
    } }
    // a semantic error in each relation line names that line (first line of a multi-line one)
    for (i, bad) in [(7usize, "  #  1 @  9: f"), (5, "  @ x: u"), (11, "  Filter[nofn():boolean => $0]"), (12, "    Read:Virtual[ (nofn():i64),"), (18, "Read[t => c0:u32]"), (10, "Root[a, ]"), (0, "=== Version 1.2"), (1, "  producer p"), (0, "=== Versions 1.2.3"), (11, "  Filter[300:i8 => $0]"), (11, "  Fetch[limit=-1 => $0]"), (11, "  Join[&Inner, true => $0]"), (18, "Filter[true => $0]"), (18, "ExtensionLeaf:Nope[_ => c:i64]")] {
        let mut v: Vec<&str> = base.to_vec();
        v[i] = bad;
        let t = if i == 12 { let mut w = v.clone(); w[12] = "    Read:Virtual["; w[13] = "      - (nofn():i64),"; w.join("\n") } else { v.join("\n") };
        c.rejects_at(&t, i as i64 + 1);
        // blank lines before shift the number
        let shifted = format!("\n\n{t}");
        c.rejects_at(&shifted, i as i64 + 3);
        let crlf = t.replace('\n', "\r\n");
        c.rejects_at(&crlf, i as i64 + 1);
    }
    c.family("one bad line at every position", s);
    // layout that must not matter
    let s = c.evals;
    let n = if c.thorough { 8000 } else { 500 };
    for i in 0..n {
        if !c.more() { break; }
        let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 3, expr: 1, ..Default::default() }).doc();
        let p = proto(&d);
        let t = text(&d, &Opts { threshold: [3, 1, 100, 0][i % 4], ..Default::default() });
        c.accepts(&t, &p);
        let crlf = t.replace('\n', "\r\n");
        c.accepts(&crlf, &p);
        c.accepts(t.trim_end(), &p);
        c.accepts(&format!("\n\n  \n{t}\n\n"), &p);
        // trailing blanks and extra blank lines between lines (not inside a multi-line relation)
        let mut x = String::new();
        for l in t.lines() { x += l; if !l.trim_start().starts_with('-') && !l.ends_with("Virtual[") && !l.is_empty() { for _ in 0..c.r.below(3) { x.push(' '); } } x.push('\n'); }
        c.accepts(&x, &p);
        let lines: Vec<&str> = t.lines().collect();
        let mut y = String::new();
        for (j, l) in lines.iter().enumerate() { y += l; y.push('\n'); let next_cont = lines.get(j + 1).is_some_and(|n| n.trim_start().starts_with("- ")); if !next_cont && c.r.one_in(3) { y += ["\n", "  \n", "\n\n"][c.r.below(3)]; } }
        c.accepts(&y, &p);
    }
    c.family("line endings, blank lines, trailing blanks, multi-line layout", s);
    // text after a complete relation
    let s = c.evals;
    for l in ["Read[t => c0:i64]", "Filter[true => $0]", "Project[$0]", "Aggregate[$0 => $0]", "Sort[($0, &AscNullsFirst) => $0]", "Fetch[limit=1 => $0]", "Join[&Inner, true => $0, $1]", "Set[&UnionAll => $0]", "Cross[$0, $1]", "Read:Virtual[_ => c0:i64]", "Read:Extension[c0:i64]", "Root[a]", "ExtensionLeaf:Zed[_ => c0:i64]"] {
        let kids = match &l[..4] { "Join" | "Set[" | "Cros" => 2, "Read" => 0, "Exte" => 0, _ => 1 };
        let add = if l.starts_with("Read:Extension") { "  + Ext:Zed[_]\n" } else { "" };
        let k: String = (0..kids).map(|_| "  Read[t => c0:i64]\n").collect();
        let plain = format!("=== Plan\n{l}\n{add}{k}");
        let g0 = c.parse(&plain);
        if !matches!(g0, P::Ok(_)) { c.fail("well-formed relation line", plain, "accepted", g0.show()); continue; }
        for tail in ["]", " ]", "x", " x", "[]", " => $0]", ", $0]", " / x", "$0", " Read[t => c0:i64]", "+"] { c.rejects(&format!("=== Plan\n{l}{tail}\n{add}{k}")); }
        if !l.starts_with("Read:Virtual") { if let P::Ok(p) = g0 { c.accepts(&format!("=== Plan\n{l} // note\n{add}{k}"), &p); } }
    }
    for tail in ["x", " x", "]", "[]"] { c.rejects(&format!("=== Plan\nRead[t => c0:i64]\n  + Opt:Zed[_]{tail}\n")); c.rejects(&format!("=== Plan{tail}\nRead[t => c0:i64]\n")); c.rejects(&format!("=== Extensions{tail}\n=== Plan\nRead[t => c0:i64]\n")); c.rejects(&format!("=== Version 1.2.3{tail}\n=== Plan\nRead[t => c0:i64]\n")); c.rejects(&format!("=== Extensions\nURNs:{tail}\n  @1: u\n=== Plan\nRead[t => c0:i64]\n")); }
    c.family("text after a complete line", s);
    // version section
    let s = c.evals;
    for v in ["", "1", "1.2", "1.2.3.4", "a.b.c", "1.2.x", "-1.2.3", "4294967296.0.0", "1..3", "1.2."] { c.rejects(&format!("=== Version {v}\n=== Plan\nRead[t => c0:i64]\n")); }
    for v in ["  producer: a\n  producer: a\n", "  producer:\n  producer: a\n", "  git_hash: \n  producer: x\n  git_hash:\n", "  producer: a\n  producer:\n", "  git_hash: a\n  git_hash: b\n", "  other: x\n", "  producer\n", "  x\n"] { c.rejects(&format!("=== Version 1.2.3\n{v}=== Plan\nRead[t => c0:i64]\n")); }
    let n = if c.thorough { 5000 } else { 400 };
    for _ in 0..n { if !c.more() { break; } let v = g::version(&mut c.r); c.both(&Doc { ver: Some(v), ..doc1(read_n(1)) }); }
    let mut texts: Vec<String> = g::VERSION_TEXTS.iter().map(|t| t.to_string()).collect();
    for b in 0x21u8..0x7f { let ch = b as char; texts.extend([format!("{ch}"), format!("a{ch}b"), format!("a {ch} b"), format!("{ch}{ch}x"), format!("x{ch}{ch}")]); }
    for t in texts { if t.is_empty() { continue; } for (producer, git) in [(t.clone(), String::new()), (String::new(), t.clone()), (t.clone(), t.clone())] { c.both(&Doc { ver: Some(Ver { n: (1, 2, 3), producer, git }), ..doc1(read_n(1)) }); } }
    let v = Ver { n: (1, 2, 3), producer: "p".into(), git: "g".into() };
    c.accepts("=== Version 1.2.3\n  git_hash: g\n  producer: p\n\n=== Plan\nRead[t => c0:i64]\n", &proto(&Doc { ver: Some(v), ..doc1(read_n(1)) }));
    c.family("version section", s);
    // multi-line layout of table reads
    let s = c.evals;
    for rows in 0..=4usize { for filt in [false, true] { for th in [0usize, 1, 2, 3, 4, 5, 100] { for depth in 0..3usize {
        let mut n = node(Rel::Virt { rows: (0..rows).map(|i| vec![int(i as i64), Ex::Lit(Lit { v: LitV::Str("- x,\n".into()), nullable: false })]).collect(), filter: if filt { Some(boolean(true)) } else { None }, cols: vec![("a".into(), i64t()), ("b".into(), Ty::S(Simple::Str, false))] }, vec![]);
        for _ in 0..depth { n = node(Rel::Filter { cond: boolean(false), out: vec![0, 1] }, vec![n]); }
        c.both_with(&doc1(n), &[Opts { threshold: th, ..Default::default() }]);
    } } } }
    c.family("multi-line table reads", s);
}

// ---------------------------------------------------------------- P10
fn p10(c: &mut Cx) {
    let s = c.evals;
    let tb = "=== Extensions\nURNs:\n  @  1: u\nFunctions:\n  #  1 @  1: sum\n\n";
    let kinds: Vec<(String, std::ops::RangeInclusive<usize>)> = vec![
        ("Read[t => c0:i64]".into(), 0..=0), ("Read:Virtual[(1) => c0:i64]".into(), 0..=0), ("Filter[true => $0]".into(), 1..=1), ("Project[$0]".into(), 1..=1), ("Project[1]".into(), 1..=1), ("Aggregate[$0 => $0, sum($0):i64]".into(), 1..=1), ("Aggregate[_ => sum($0):i64]".into(), 1..=1),
        ("Sort[($0, &AscNullsFirst) => $0]".into(), 1..=1), ("Fetch[limit=1 => $0]".into(), 1..=1), ("Fetch[_ => $0]".into(), 1..=1), ("Cross[$0]".into(), 2..=2), ("ExtensionLeaf:Zed[_ => c:i64]".into(), 0..=0), ("ExtensionSingle:Zed[_ => c:i64]".into(), 1..=1), ("ExtensionMulti:Zed[_ => c:i64]".into(), 0..=9),
    ].into_iter().chain(JOIN_TYPES.iter().map(|j| (format!("Join[&{}, true => $0]", j.1), 2..=2))).chain(SET_OPS.iter().map(|o| (format!("Set[&{} => $0]", o.1), 2..=99))).collect();
    for (l, ar) in &kinds { for n in 0..=5usize { for wrap in 0..3usize {
        let ind = "  ".repeat(wrap);
        let mut t = format!("{tb}=== Plan\n");
        if wrap == 1 { t += "Root[x]\n"; }
        if wrap == 2 { t += "Root[x]\n  Filter[true => $0]\n"; }
        t += &format!("{ind}{l}\n");
        for i in 0..n { t += &format!("{ind}  Read[t{i} => c0:i64]\n"); }
        c.note(&t);
        let g0 = c.parse(&t);
        if ar.contains(&n) != matches!(g0, P::Ok(_)) || matches!(g0, P::Panic(_)) { c.fail("number of inputs", t, format!("accepted iff inputs in {ar:?}"), g0.show()); }
    } } }
    for n in 0..=3usize { let mut t = "=== Plan\nRead:Extension[c0:i64]\n  + Ext:Zed[_]\n".to_string(); for _ in 0..n { t += "  Read[t => c0:i64]\n"; } if n > 0 { c.rejects(&t); } else { c.note(&t); let g0 = c.parse(&t); if !matches!(g0, P::Ok(_)) { c.fail("table extension read", t, "accepted", g0.show()); } } }
    c.family("every relation kind with 0 to 5 inputs", s);
    // set widths
    let s = c.evals;
    for a in 1..=3usize { for b in 1..=3usize { for d in 0..=3usize { for op in SET_OPS {
        let mut ins = vec![read_n(a), read_n(b)]; if d > 0 { ins.push(read_n(d)); }
        let dd = doc1(node(Rel::Set { op: op.0, out: vec![0] }, ins));
        let t = text(&dd, &Opts::default());
        if a == b && (d == 0 || d == a) { let p = proto(&dd); c.accepts(&t, &p); } else { c.rejects(&t); }
    } } } }
    c.family("set input widths", s);
    // named arguments
    let s = c.evals;
    let un = |l: &str| format!("{tb}=== Plan\n{l}\n  Read[t => c0:i64]\n");
    for l in ["Fetch[limit=1, limit=1 => $0]", "Fetch[limit=1, limit=2 => $0]", "Fetch[offset=1, offset=1 => $0]", "Fetch[limit=1, offset=2, limit=3 => $0]", "Fetch[offset=2, limit=1, offset=2 => $0]", "Fetch[count=1 => $0]", "Fetch[limit=1, foo=2 => $0]", "Fetch[1 => $0]", "Fetch[ => $0]", "Fetch[limit= => $0]", "Fetch[limit=1 offset=2 => $0]",
        "Fetch[limit=-1 => $0]", "Fetch[offset=-1 => $0]", "Fetch[limit=-9223372036854775808 => $0]", "Fetch[limit=5, offset=-3 => $0]", "Fetch[limit=-3, offset=5 => $0]", "Fetch[limit=9223372036854775808 => $0]", "Fetch[offset=99999999999999999999 => $0]", "Fetch[limit=1, _ => $0]", "Fetch[limit=-1:i64 => $0]", "Fetch[offset=-1:i64 => $0]", "Fetch[offset=-2:i32, limit=1 => $0]", "Fetch[limit=-7:i16? => $0]", "Fetch[limit=-7:i8 => $0]",
        "Aggregate[$0 => $1]", "Aggregate[$0 => 1]", "Aggregate[_ => $0]", "Aggregate[$0 => $0, true]", "Aggregate[$0, ($1)::i64 => ($1)::i32]", "Aggregate[1 => 2]", "Aggregate[1 => 1:i32]", "Aggregate[($0), ($0) => $1]", "Aggregate[$0 => if_then(true -> $0, _ -> $0)]", "Aggregate[$0 => (sum($0):i64)::i64]", "Aggregate[=> sum($0):i64]", "Aggregate[sum($0):i64]", "Aggregate[($0), $1 => $0]",
        "Sort[$0 => $0]", "Sort[($0) => $0]", "Sort[($0, &Foo) => $0]", "Sort[($0, AscNullsFirst) => $0]", "Sort[($0, &AscNullsFirst), _ => $0]", "Filter[ => $0]", "Filter[true]", "Filter[true, false => $0]", "Filter[true => 1]", "Filter[true => $0, ]", "Project[$0, ]", "Project[, $0]", "Filter[true => $]", "Filter[true => $99999999999]", "Filter[$2147483648 => $0]", "Filter[$-2147483649 => $0]"] { c.rejects(&un(l)); }
    for l in ["Join[&Inner => $0]", "Join[&Full, true => $0]", "Join[Inner, true => $0]", "Join[&Inner, true, true => $0]", "Join[&Inner, true, post_filter=true, post_filter=true => $0]", "Join[&Inner, true, filter=true => $0]", "Join[&Inner, post_filter=true => $0]", "Join[&Inner, true, post_filter= => $0]", "Set[UnionAll => $0]", "Set[&Union => $0]", "Set[&UnionAll, $0]", "Set[ => $0]", "Cross[true => $0]", "Cross[1]", "Join[&LeftSem, true => $0]", "Join[&Leftx, true => $0]", "Set[&UnionAllx => $0]"] { c.rejects(&format!("=== Plan\n{l}\n  Read[t => c0:i64]\n  Read[t => c0:i64]\n")); }
    for l in ["Read[t]", "Read[ => c:i64]", "Read[t => c]", "Read[t => :i64]", "Read[t => c:i64, ]", "Read[t. => c:i64]", "Read[t +> c:i64 |> c]", "Read[t => c:i64 |> $0]", "Read:Virtual[1 => c:i64]", "Read:Virtual[(1), _ => c:i64]", "Read:Virtual[ => c:i64]", "Read:Virtual[(1) c:i64]", "Read:Virtual[(1), filter=true, filter=true => c:i64]", "Read:Virtual[filter=true => c:i64]", "Read:Virtual[(1), where=true => c:i64]", "Read:Virtual[(1) (2) => c:i64]", "Nope[t => c:i64]", "read[t => c:i64]", "Root", "Root[a", "Read[t => c:i64"] { c.rejects(&format!("=== Plan\n{l}\n")); }
    c.family("malformed arguments", s);
    // addenda
    let s = c.evals;
    for l in ["Read[t => c0:i64]", "Read:Virtual[(1) => c0:i64]"] {
        for (adds, ok) in [(&["Enh"][..], true), (&["Opt"], true), (&["Enh", "Enh"], false), (&["Opt", "Opt"], true), (&["Enh", "Opt", "Enh"], false), (&["Opt", "Enh", "Opt"], true), (&["Ext"], false), (&["Enh", "Ext"], false), (&["Opt", "Opt", "Opt", "Enh"], true)] { add_case(c, l, adds, ok); }
    }
    for (adds, ok) in [(&[][..], false), (&["Ext"], true), (&["Ext", "Ext"], false), (&["Enh"], false), (&["Enh", "Ext"], true), (&["Ext", "Enh"], true), (&["Ext", "Opt", "Opt"], true), (&["Ext", "Enh", "Enh"], false), (&["Opt", "Ext", "Opt", "Ext"], false), (&["Ext", "Enh", "Opt", "Enh"], false)] { add_case(c, "Read:Extension[c0:i64]", adds, ok); }
    for adds in [&["Enh"][..], &["Opt"], &["Ext"], &["Opt", "Opt"]] { for k in ["Leaf", "Multi"] { add_case(c, &format!("Extension{k}:Zed[_ => c0:i64]"), adds, false); } }
    for a in ["Enh", "Opt", "Ext"] { c.rejects(&format!("=== Plan\nRoot[x]\n  + {a}:Zed[_]\n  Read[t => c0:i64]\n")); c.rejects(&format!("=== Plan\nExtensionSingle:Zed[_ => $0]\n  + {a}:Zed[_]\n  Read[t => c0:i64]\n")); c.rejects(&format!("=== Plan\nRead[t => c0:i64]\n  + {a}:Unknown[_]\n")); c.rejects(&format!("=== Plan\nRead[t => c0:i64]\n  + {a}:Zed[alpha=1, alpha=2]\n")); c.rejects(&format!("=== Plan\nRead[t => c0:i64]\n  + {a}:Zed[nosuch=1]\n")); }
    // addenda on every other kind
    for (l, k) in [("Filter[true => $0]", 1), ("Project[$0]", 1), ("Aggregate[$0 => $0]", 1), ("Sort[($0, &Clustered) => $0]", 1), ("Fetch[_ => $0]", 1), ("Join[&Inner, true => $0]", 2), ("Set[&UnionAll => $0]", 2), ("Cross[$0]", 2)] {
        for (adds, ok) in [(&["Enh"][..], true), (&["Opt", "Opt"], true), (&["Enh", "Enh"], false), (&["Ext"], false), (&["Opt", "Enh"], true), (&["Enh", "Opt", "Enh"], false)] {
            let mut t = format!("=== Plan\n{l}\n");
            for a in adds { t += &format!("  + {a}:Zed[1]\n"); }
            for _ in 0..k { t += "  Read[t => c0:i64]\n"; }
            c.note(&t);
            let g0 = c.parse(&t);
            if ok != matches!(g0, P::Ok(_)) || matches!(g0, P::Panic(_)) { c.fail("addenda", t.clone(), format!("accepted={ok}"), g0.show()); }
            // stored in the written order
            if let P::Ok(p) = &g0 { let tt = c.fmt(p, &OutputOptions::default()); let opts = adds.iter().filter(|a| **a == "Opt").count(); if let F::Ok(x, _) = &tt { if x.matches("+ Opt:").count() != opts || x.matches("+ Enh:").count() != adds.len() - opts { c.fail("addenda dropped or invented", t, "all of them", tt.show()); } } }
        }
    }
    for l in ["ExtensionLeaf:Zed[alpha=1, alpha=2 => c:i64]", "ExtensionLeaf:Zed[zz=1 => c:i64]", "ExtensionLeaf:Zed[alpha=1, 2 => c:i64]", "ExtensionLeaf:Fails[_ => c:i64]", "ExtensionLeaf:Nope[_ => c:i64]", "ExtensionLeaf[_ => c:i64]", "ExtensionFoo:Zed[_ => c:i64]", "ExtensionLeaf:Zed[(1) => c:i64]", "ExtensionLeaf:Zed[_, 1 => c:i64]"] { c.rejects(&format!("=== Plan\n{l}\n")); }
    c.family("addenda counts and kinds", s);
    random(c, Focus { kinds: ALL, ext: true, expr: 1, ..Default::default() }, 400);
}
fn add_case(c: &mut Cx, l: &str, adds: &[&str], ok: bool) {
    let mut t = format!("=== Plan\n{l}\n");
    for (i, a) in adds.iter().enumerate() { t += &format!("  + {a}:{}[{i}]\n", name(NAMES[i % 3])); }
    c.note(&t);
    let g0 = c.parse(&t);
    if ok != matches!(g0, P::Ok(_)) || matches!(g0, P::Panic(_)) { c.fail("addenda", t, format!("accepted={ok}"), g0.show()); }
}

// ---------------------------------------------------------------- P11
fn p11(c: &mut Cx) {
    let s = c.evals;
    let tb = tab(&[(1, "f"), (2, "g:any"), (3, "g:i64"), (4, "nullif"), (5, "trueish"), (6, "if_then2")], &[(1, "point")]);
    let d1 = |n: Node| with_tab(n, tb.clone());
    for j in JOIN_TYPES { for post in [None, Some(Ex::Ref(1)), Some(boolean(false))] { c.both(&d1(node(Rel::Join { ty: j.0, cond: Ex::Ref(0), post, out: vec![0] }, vec![read_named("l", 1), read_named("r", 2)]))); } }
    for o in SET_OPS { for k in 2..5usize { c.both(&d1(node(Rel::Set { op: o.0, out: vec![0] }, (0..k).map(|i| read_named(&format!("t{i}"), 1)).collect()))); } }
    for a in SORT_DIRS { for b in SORT_DIRS { c.both(&d1(node(Rel::Sort { fields: vec![(Ex::Ref(1), a.0), (int(3), b.0)], out: vec![0, 1] }, vec![read_n(2)]))); } }
    for k in 0..=4usize { c.both(&d1(node(Rel::Sort { fields: (0..k).map(|i| (Ex::Ref(i as i32), SORT_DIRS[i % 5].0)).collect(), out: vec![0] }, vec![read_n(1)]))); }
    for m in 0..3 { for e in [Ex::Ref(0), int(1), Ex::Cast(Box::new(Ex::Ref(0)), 2 - m, i64t())] { c.both(&ex_doc(Ex::Cast(Box::new(e), m, Ty::S(Simple::I8, m == 1)), tb.clone())); } }
    for n in 1..=5usize { c.both(&ex_doc(Ex::If((0..n).map(|i| (Ex::Ref(i as i32), int(i as i64))).collect(), Box::new(int(-1))), tb.clone())); }
    for n in 0..=5usize { for f in 1..=6 { c.both(&ex_doc(Ex::Call(Call { f, args: (0..n).map(|i| if i % 2 == 0 { Ex::Ref(i as i32) } else { int(i as i64) }).collect(), ty: i64t() }), tb.clone())); } }
    let lims = [None, Some(Lim::Int(0)), Some(Lim::Int(5)), Some(Lim::Int(i64::MAX)), Some(Lim::Ex(Ex::Ref(0))), Some(Lim::Ex(Ex::Lit(Lit { v: LitV::I32(4), nullable: true }))), Some(Lim::Ex(Ex::Call(Call { f: 1, args: vec![], ty: i64t() }))), Some(Lim::Ex(Ex::Lit(Lit { v: LitV::Null(i64t()), nullable: false }))), Some(Lim::Ex(Ex::Lit(Lit { v: LitV::F64(1.5), nullable: false })))];
    for a in &lims { for b in &lims { c.both(&d1(node(Rel::Fetch { limit: a.clone(), offset: b.clone(), out: vec![0] }, vec![read_n(1)]))); } }
    // argument order in text is free for fetch
    for (t, a, b) in [("limit=3, offset=7", 3, 7), ("offset=7, limit=3", 3, 7)] { c.accepts(&format!("=== Plan\nFetch[{t} => $0]\n  Read[t => c0:i64]\n"), &proto(&doc1(node(Rel::Fetch { limit: Some(Lim::Int(a)), offset: Some(Lim::Int(b)), out: vec![0] }, vec![read_n(1)])))); }
    // deprecated integer modes of fetch print the same
    for (l, o) in [(5i64, 3i64), (0, 0), (i64::MAX, 1)] {
        let d = doc1(node(Rel::Fetch { limit: Some(Lim::Int(l)), offset: Some(Lim::Int(o)), out: vec![0] }, vec![read_n(1)]));
        let mut p = proto(&d);
        if let sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(sp::rel::RelType::Fetch(f)) }) = p.relations[0].rel_type.as_mut().unwrap() { f.count_mode = Some(sp::fetch_rel::CountMode::Count(l)); f.offset_mode = Some(sp::fetch_rel::OffsetMode::Offset(o)); }
        let f = c.fmt(&p, &OutputOptions::default());
        c.check(matches!(&f, F::Ok(t, e) if e.is_empty() && t.contains(&format!("limit={l}")) && (o == 0 || t.contains(&format!("offset={o}")))), "deprecated fetch counts", &show(&p), "limit and offset shown", &f.show());
    }
    for rows in 0..=4usize { for w in 0..=3usize { for filt in [None, Some(Ex::Ref(0)), Some(Ex::Call(Call { f: 1, args: vec![int(1)], ty: i64t() }))] {
        c.both(&d1(node(Rel::Virt { rows: (0..rows).map(|r| (0..w).map(|k| int((r * 10 + k) as i64)).collect()).collect(), filter: filt, cols: (0..w).map(|k| (format!("c{k}"), i64t())).collect() }, vec![])));
    } } }
    for k in 1..=4usize { for w in 0..=3usize { c.both(&d1(node(Rel::Read { names: (0..k).map(|i| format!("n{i}")).collect(), cols: (0..w).map(|i| (format!("c{i}"), if i % 2 == 0 { i64t() } else { Ty::S(Simple::Str, true) })).collect(), map: None }, vec![]))); } }
    for i in [0, 1, 7, 10, 255, 256, 65536, i32::MAX] { c.both(&ex_doc(Ex::Ref(i), tb.clone())); }
    for k in 0..=4usize { c.both(&Doc { tab: tb.clone(), tops: vec![Top::Root((0..k).map(|i| format!("r{i}")).collect(), read_n(2))], ver: None }); }
    c.family("each relation, enum spelling and list length", s);
    let s = c.evals;
    // every pair of expression forms nested in one another
    let forms: Vec<Box<dyn Fn(Ex) -> Ex>> = vec![
        Box::new(|e| Ex::Call(Call { f: 1, args: vec![int(9), e, Ex::Ref(3)], ty: Ty::U(1, vec![], true) })), Box::new(|e| Ex::Cast(Box::new(e), 1, i64t())), Box::new(|e| Ex::If(vec![(e, int(1))], Box::new(int(2)))), Box::new(|e| Ex::If(vec![(int(1), e), (Ex::Ref(1), int(3))], Box::new(int(2)))), Box::new(|e| Ex::If(vec![(int(1), int(3))], Box::new(e))), Box::new(|e| Ex::Call(Call { f: 4, args: vec![e], ty: i64t() })), Box::new(|e| Ex::Call(Call { f: 5, args: vec![Ex::Ref(1), e], ty: i64t() })),
    ];
    let leaves = [Ex::Ref(2), int(-4), boolean(true), Ex::Lit(Lit { v: LitV::Str("a, b) => $0]".into()), nullable: false }), Ex::Lit(Lit { v: LitV::Null(Ty::L(Box::new(i64t()), true)), nullable: false }), Ex::Lit(Lit { v: LitV::F64(-0.5), nullable: true })];
    for a in &forms { for b in &forms { for l in &leaves {
        let e = a(b(l.clone()));
        if !c.ok() { break; }
        c.both(&ex_doc(e.clone(), tb.clone()));
        c.both(&d1(node(Rel::Project { items: vec![PI::Ref(0), PI::Ex(e.clone()), PI::Ex(b(e.clone()))] }, vec![read_n(1)])));
        c.both(&d1(node(Rel::Sort { fields: vec![(e.clone(), 3), (l.clone(), 1)], out: vec![0] }, vec![read_n(1)])));
        c.both(&d1(node(Rel::Join { ty: 3, cond: e.clone(), post: Some(e.clone()), out: vec![0] }, vec![read_n(1), read_n(1)])));
        c.both(&d1(node(Rel::Virt { rows: vec![vec![e.clone()], vec![l.clone()]], filter: Some(e), cols: vec![("c".into(), i64t())] }, vec![])));
    } } }
    c.family("every nesting of two expression forms, in every position", s);
    // neighbours that are almost equal, in every list
    let s = c.evals;
    let pool = confusable();
    for a in &pool { for b in &pool {
        if !c.ok() { break; }
        let one = [Opts::default()];
        c.both_with(&ex_doc(Ex::Call(Call { f: 1, args: vec![a.clone(), b.clone(), a.clone()], ty: i64t() }), tb.clone()), &one);
        c.both_with(&ex_doc(Ex::If(vec![(a.clone(), b.clone()), (b.clone(), a.clone()), (a.clone(), a.clone())], Box::new(b.clone())), tb.clone()), &one);
        c.both_with(&d1(node(Rel::Project { items: vec![PI::Ex(Ex::Call(Call { f: 1, args: vec![a.clone()], ty: i64t() })), PI::Ex(Ex::Call(Call { f: 1, args: vec![b.clone()], ty: i64t() })), PI::Ex(Ex::Cast(Box::new(a.clone()), 0, i64t())), PI::Ex(Ex::Cast(Box::new(b.clone()), 0, i64t()))] }, vec![read_n(1)])), &one);
        c.both_with(&d1(node(Rel::Sort { fields: vec![(a.clone(), 1), (b.clone(), 1), (a.clone(), 2)], out: vec![0] }, vec![read_n(1)])), &one);
        c.both_with(&d1(node(Rel::Join { ty: 1, cond: a.clone(), post: Some(b.clone()), out: vec![0] }, vec![read_n(1), read_n(1)])), &one);
        c.both_with(&d1(node(Rel::Virt { rows: vec![vec![a.clone(), b.clone()], vec![b.clone(), a.clone()], vec![a.clone(), b.clone()]], filter: Some(b.clone()), cols: vec![("c".into(), i64t()), ("C".into(), i64t())] }, vec![])), &one);
    } }
    c.family("every pair of almost equal neighbours in every list", s);
    // whitespace the grammar allows does not change the meaning
    let s = c.evals;
    for (a, b) in [("Filter[ ( $0 )::i64 => $0]", ""), ("Filter[if_then( true -> 1 ,  _ -> 2) => $0]", "Filter[if_then(true -> 1, _ -> 2) => $0]"), ("Filter[5: i32 => $0]", "Filter[5:i32 => $0]"), ("Filter[($0)::  ? i64 => $0]", "Filter[($0)::?i64 => $0]"), ("Filter[true   =>   $0]", "Filter[true => $0]"), ("Project[$0 ,$0]", "Project[$0, $0]"), ("Fetch[limit = 1 ,offset = 2 => $0]", "Fetch[limit=1, offset=2 => $0]"), ("Sort[( $0 , &AscNullsLast ) => $0]", "Sort[($0, &AscNullsLast) => $0]"), ("Filter[f #1 @1 ():i64 => $0]", "Filter[f():i64 => $0]")] {
        if b.is_empty() { continue; }
        let w = |l: &str| format!("=== Extensions\nURNs:\n  @  1: u\nFunctions:\n  #  1 @  1: f\n\n=== Plan\n{l}\n  Read[t => c0:i64]\n");
        if let P::Ok(p) = c.parse(&w(b)) { c.accepts(&w(a), &p); } else { c.fail("canonical spelling rejected", w(b), "accepted", ""); }
    }
    c.family("allowed white space", s);
    random(c, Focus { expr: 3, depth: 4, tops: 2, ..Default::default() }, 900);
}

/// Expressions that differ in one detail only.
fn confusable() -> Vec<Ex> {
    let l = |v: LitV, n: bool| Ex::Lit(Lit { v, nullable: n });
    let st = |t: &str| l(LitV::Str(t.into()), false);
    let f = |a: Vec<Ex>, t: Ty| Ex::Call(Call { f: 1, args: a, ty: t });
    vec![st("a"), st("A"), st("a "), st(" a"), st("a'"), st("a\""), st(""), l(LitV::Str("a".into()), true), int(1), int(-1), int(10), l(LitV::I64(1), true), l(LitV::I32(1), false), l(LitV::F64(1.0), false), l(LitV::F64(-0.0), false), l(LitV::F64(0.0), false), l(LitV::F32(1.0), false), boolean(true), st("true"), Ex::Ref(1), Ex::Ref(10), Ex::Ref(0),
        l(LitV::Null(i64t()), false), l(LitV::Null(Ty::S(Simple::I64, true)), false), f(vec![], i64t()), f(vec![Ex::Ref(0)], i64t()), f(vec![Ex::Ref(0)], Ty::S(Simple::I64, true)), f(vec![Ex::Ref(1)], i64t()), Ex::Cast(Box::new(Ex::Ref(0)), 0, i64t()), Ex::Cast(Box::new(Ex::Ref(0)), 1, i64t()), Ex::Cast(Box::new(Ex::Ref(0)), 2, i64t()), Ex::If(vec![(boolean(true), int(1))], Box::new(int(2))), Ex::If(vec![(boolean(true), int(2))], Box::new(int(1)))]
}
// ---------------------------------------------------------------- P12
fn p12(c: &mut Cx) {
    let s = c.evals;
    let tb = tab(&[(1, "sum"), (2, "count:any"), (3, "count:")], &[]);
    let pool = [Ex::Ref(0), Ex::Ref(1), Ex::Call(Call { f: 1, args: vec![Ex::Ref(0)], ty: i64t() })];
    // all sets of size <= 2 (with order and repetition) over 3 expressions: 13 sets; all lists of 1..=3 of them (quick: 2 fully, 3 sampled)
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..3 { sets.push(vec![a]); for b in 0..3 { sets.push(vec![a, b]); } }
    let mut lists: Vec<Vec<Vec<usize>>> = vec![];
    for a in &sets { lists.push(vec![a.clone()]); for b in &sets { lists.push(vec![a.clone(), b.clone()]); for (i, d) in sets.iter().enumerate() { if c.thorough || (lists.len() + i) % 3 == 0 { lists.push(vec![a.clone(), b.clone(), d.clone()]); } } } }
    lists.push(vec![vec![0, 1, 2], vec![2, 1], vec![1], vec![]]);
    lists.push(vec![vec![2], vec![0, 1], vec![1, 2], vec![0, 1, 2], vec![]]);
    for (i, l) in lists.iter().enumerate() {
        if !c.ok() { break; }
        let ss: Vec<Vec<Ex>> = l.iter().map(|s| s.iter().map(|i| pool[*i].clone()).collect()).collect();
        let d = distinct(&ss);
        let m = |f: u32| AO::M(Call { f, args: vec![Ex::Ref(1)], ty: i64t() });
        let variants: Vec<Vec<AO>> = vec![(0..d.len()).map(AO::G).collect(), (0..d.len()).map(AO::G).chain([m(2), m(1)]).collect(), [m(1)].into_iter().chain((0..d.len()).rev().map(AO::G)).collect(), vec![m(3), m(3)], (0..d.len()).flat_map(|i| [AO::G(i), m(2)]).collect()];
        for v in [&variants[i % 5], &variants[(i + 1) % 5]] {
            let n = node(Rel::Agg { sets: ss.clone(), outs: v.clone() }, vec![read_n(2)]);
            let doc = with_tab(n, tb.clone());
            c.both(&doc);
            // deprecated representation prints the same
            let mut p = proto(&doc);
            if let sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(sp::rel::RelType::Aggregate(a)) }) = p.relations[0].rel_type.as_mut().unwrap() {
                a.grouping_expressions.clear();
                a.groupings = ss.iter().map(|s| sp::aggregate_rel::Grouping { grouping_expressions: s.iter().map(ex_proto).collect(), expression_references: vec![] }).collect();
            }
            c.prints(&p, &OutputOptions::default(), &text(&doc, &Opts::default()));
        }
        // parenthesised single set is the same as the bare list
        if l.len() == 1 && !l[0].is_empty() { let n = with_tab(node(Rel::Agg { sets: ss.clone(), outs: variants[1].clone() }, vec![read_n(2)]), tb.clone()); let t = text(&n, &Opts::default()); let inner = list(&ss[0], &tb, &Opts::default()); c.accepts(&t.replacen(&format!("[{inner} =>"), &format!("[({inner}) =>"), 1), &proto(&n)); }
    }
    c.family("every list of up to 3 grouping sets over 3 expressions", s);
    let s = c.evals;
    // almost equal expressions are different groupings, equal ones the same
    for a in confusable() { for b in confusable() {
        if !c.ok() { break; }
        let sets = vec![vec![a.clone(), b.clone()], vec![b.clone()], vec![a.clone(), a.clone()]];
        let n = distinct(&sets).len();
        let outs: Vec<AO> = (0..n).rev().map(AO::G).chain([AO::M(Call { f: 1, args: vec![a.clone(), b.clone()], ty: i64t() }), AO::M(Call { f: 1, args: vec![b.clone(), a.clone()], ty: i64t() })]).collect();
        c.both_with(&with_tab(node(Rel::Agg { sets, outs }, vec![read_n(2)]), tb.clone()), &[Opts::default()]);
    } }
    // grouping references out of range, missing measure
    let base = || proto(&with_tab(node(Rel::Agg { sets: vec![vec![Ex::Ref(0)], vec![Ex::Ref(1), Ex::Ref(0)]], outs: vec![AO::G(0), AO::G(1), AO::M(Call { f: 1, args: vec![], ty: i64t() })] }, vec![read_n(2)]), tab(&[(1, "sum")], &[])));
    let with = |f: &dyn Fn(&mut sp::AggregateRel)| { let mut p = base(); if let sp::plan_rel::RelType::Rel(sp::Rel { rel_type: Some(sp::rel::RelType::Aggregate(a)) }) = p.relations[0].rel_type.as_mut().unwrap() { f(a); } p };
    for r in [2u32, 3, 100, u32::MAX] { for gi in 0..2usize { c.marks("grouping reference out of range", &with(&|a| a.groupings[gi].expression_references[0] = r), true); } }
    c.marks("measure without function", &with(&|a| a.measures[0].measure = None), true);
    for m in [3, 4, 100, -1, i32::MIN] { c.marks("output index out of range", &with(&|a| a.common = emit(&[0, m])), true); }
    c.family("invalid aggregates", s);
    random(c, Focus { kinds: &[K::Agg, K::Agg, K::Agg, K::Read, K::Filter], depth: 2, expr: 2, ver: false, ..Default::default() }, 1500);
}

// ---------------------------------------------------------------- P13
const FRAGS: &[&str] = &["[", "]", "(", ")", "=>", "$", "$0", "$-1", "$99999999999", "#", "@", ":", "::", "!", "?", "\u{2049}", "_", ",", "&", "&Inner", "+", "- ", "\n", "\r\n", "\r", "  ", "=== Plan\n", "=== Version ", "=== Extensions\n", "\"", "'", "\\", "\\u{", "\\u{110000}", "\\u{d800}", "null", "true", "1", "-9223372036854775809", "99999999999999999999999999", "1.5", "1.5:i64", "list<", "map<i64,", "struct<>", "i64", "u!", "precisiontime<4294967299>", "interval_day<-1>", "filter=", "limit=", "offset=-1", "post_filter=", "if_then(", "_ ->", "Read[", "Read:Virtual[", "Read:Extension[", "Extension", "ExtensionLeaf:Zed[", "+ Enh:", "Root[", "\0", "é", "😀", "//", "|>", "+>", "'2020-01-01':date", "'24:00:00':time", "'x':interval_day<3>", "-", "#4294967296", "@4294967296", "#-1", "f():", "sum($0):i64", "5:i8", "300:i8", "\u{feff}", "\t", "\u{85}", "\u{2028}"];
pub fn mutate(c: &mut Cx, t: &str) -> String {
    let mut s: Vec<char> = t.chars().collect();
    for _ in 0..1 + c.r.below(3) {
        let n = s.len();
        let i = c.r.below(n + 1);
        match c.r.below(8) {
            0 => { let j = (i + 1 + c.r.below(4)).min(n); if i < j { s.drain(i..j); } }
            1 | 2 => { let f: Vec<char> = c.r.pick(FRAGS).chars().collect(); s.splice(i..i, f); }
            3 => { let f: Vec<char> = c.r.pick(FRAGS).chars().collect(); let j = (i + 1 + c.r.below(4)).min(n); if i < j { s.splice(i..j, f); } }
            4 => { // duplicate or swap a line
                let st: String = s.iter().collect(); let mut ls: Vec<&str> = st.split('\n').collect(); let a = c.r.below(ls.len()); let b = c.r.below(ls.len());
                if c.r.bool() { ls.swap(a, b); } else { let l = ls[a]; ls.insert(b, l); }
                let st = ls.join("\n"); s = st.chars().collect();
            }
            5 => { // change a digit run
                if let Some(k) = (0..n).map(|d| (i + d) % n.max(1)).find(|k| s.get(*k).is_some_and(|x| x.is_ascii_digit())) { let mut e = k; while e < s.len() && s[e].is_ascii_digit() { e += 1; } let f: Vec<char> = c.r.pick(&["0", "1", "127", "128", "32768", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-1", "13", "12", "00", ""]).chars().collect(); s.splice(k..e, f); }
            }
            6 => { let j = (i + c.r.below(30)).min(n); let seg: Vec<char> = s[i.min(n)..j].to_vec(); let k = c.r.below(s.len() + 1); s.splice(k..k, seg); }
            _ => { if i < n { s[i] = g::ch(&mut c.r); } }
        }
    }
    s.into_iter().collect()
}
fn p13(c: &mut Cx) {
    let s = c.evals;
    let no_panic = |c: &mut Cx, t: &str| { c.note(t); for reg in [true, false] { let g0 = if reg { c.parse(t) } else { c.parse_reg(t, &ExtensionRegistry::default()) }; if let P::Panic(m) = g0 { c.fail("parser panicked", t, "a plan or an error", m); return; } } };
    for a in FRAGS { no_panic(c, a); for b in FRAGS { if c.ok() { let t = format!("{a}{b}"); no_panic(c, &t); let t = format!("=== Plan\n{a}{b}"); no_panic(c, &t); let t = ex_text(&format!("{a}{b}")); no_panic(c, &t); let t = ty_text(&format!("{a}{b}")); no_panic(c, &t); let t = format!("=== Extensions\nURNs:\n  {a}{b}\nFunctions:\n  {a}{b}\n"); no_panic(c, &t); } } }
    for pre in ["$", "#", "@", "-", "f#", "t: i64 |> $", "'", "f():precisiontime<", "f():list<interval_day<", "(1)::u!", "1:", "'10:00:00':precisiontime<", "'1d':interval_day<"] { for v in ["0", "1", "-1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999999", "-2147483649", "-9223372036854775809"] { for post in ["", ">", ">>", " => $0", "():i64", "'"] { if c.ok() { no_panic(c, &ex_text(&format!("{pre}{v}{post}"))); no_panic(c, &ty_text(&format!("{pre}{v}{post}"))); no_panic(c, &format!("=== Plan\nExtensionLeaf:Zed[{pre}{v}{post} => {pre}{v}{post}]\n")); no_panic(c, &format!("=== Plan\nAggregate[{pre}{v}{post} => {pre}{v}{post}]\n  Read[t => a:i64]\n")); } } } }
    for k in 0..4usize { for l in ["Join[&LeftMark, true => $0]", "Join[&Inner, true => ]", "Set[&UnionAll => $0]", "Cross[]", "Filter[true => ]", "Project[]", "Aggregate[_ => ]", "Sort[ => ]", "Fetch[_ => ]", "ExtensionMulti:Zed[]", "ExtensionSingle:Zed[ => ]", "Read:Extension[]", "Root[]", "Read:Virtual[() => ]"] { let mut t = format!("=== Plan\n{l}\n"); for _ in 0..k { t += "  Read[t => c0:i64]\n"; } no_panic(c, &t); let mut t = format!("=== Plan\n{l}\n  + Enh:Zed[]\n"); for _ in 0..k { t += "  Read[t => ]\n"; } no_panic(c, &t); } }
    c.family("every pair of text fragments in every context, extreme numbers", s);
    let s = c.evals;
    let n = if c.thorough { 400000 } else { 12000 };
    let mut base = String::new();
    for i in 0..n {
        if !c.more() { break; }
        if i % 8 == 0 { let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 2, ..Default::default() }).doc(); base = text(&d, &if i % 16 == 0 { Opts::default() } else { Opts::verbose() }); }
        let t = mutate(c, &base);
        no_panic(c, &t);
    }
    c.family("mutated documents", s);
}

// ---------------------------------------------------------------- P14
fn p14(c: &mut Cx) {
    let s = c.evals;
    let n = if c.thorough { 3000 } else { 260 };
    for i in 0..n {
        if !c.more() { break; }
        let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 2, depth: 3, weird: false, ..Default::default() }).doc();
        let plan = proto(&d);
        // complete and supported: no marks, no errors (strings in the pool contain no mark)
        for o in [OutputOptions::default(), OutputOptions::verbose()] { let f = c.fmt(&plan, &o); c.note(&format!("{:x}", hash(&plan.encode_to_vec()))); if !matches!(&f, F::Ok(_, e) if e.is_empty()) { c.fail("complete plan reports errors", show(&plan), "none", f.show()); } }
        // remove or break one required part at a time
        let sites = crate::knock::count(&plan);
        for k in 0..sites { if i >= 40 && !c.r.one_in(4) { continue; } let mut p = plan.clone(); let what = crate::knock::apply(&mut p, k); if c.ok() { c.marks(what, &p, !what.ends_with('~')); } }
    }
    c.family("one required part removed or broken, at every site", s);
    // arbitrary plans: mutated wire bytes
    let s = c.evals;
    let n = if c.thorough { 400000 } else { 15000 };
    let mut bytes = vec![];
    for i in 0..n {
        if !c.more() { break; }
        if i % 10 == 0 { let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 2, weird: false, expr: 2, ..Default::default() }).doc(); bytes = proto(&d).encode_to_vec(); }
        let mut b = bytes.clone();
        for _ in 0..1 + c.r.below(4) { if b.is_empty() { break; } let k = c.r.below(b.len()); match c.r.below(4) { 0 => b[k] = c.r.u64() as u8, 1 => b[k] ^= 1 << c.r.below(8), 2 => b[k] = *c.r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0x0a, 0x12]), _ => b[k] = b[k].wrapping_add(8) } }
        let Ok(p) = Plan::decode(&b[..]) else { continue };
        let opt = random_opts(c);
        c.note(&format!("{:x}", hash(&b)));
        match c.fmt(&p, &opt) {
            F::Panic(m) => c.fail("formatter panicked", format!("{:?}", p), "text and errors", m),
            F::Ok(t, e) => { if t.contains("!{") && e.is_empty() && !format!("{p:?}").contains("!{") { c.fail("mark without a reported error", show(&p), "a reported error", t); } }
        }
    }
    c.family("plans decoded from mutated bytes, random options", s);
    let s = c.evals;
    for (what, p, mark) in crate::knock::fixed() { c.marks(what, &p, mark); }
    for p in [Plan::default(), Plan { relations: vec![sp::PlanRel { rel_type: None }], ..Default::default() }, Plan { relations: vec![sp::PlanRel { rel_type: Some(sp::plan_rel::RelType::Rel(sp::Rel { rel_type: None })) }], ..Default::default() }] { for _ in 0..10 { let o = random_opts(c); let f = c.fmt(&p, &o); c.check(matches!(f, F::Ok(..)), "incomplete plan", &show(&p), "text and errors", &f.show()); } }
    c.family("unsupported parts", s);
}
fn random_opts(c: &mut Cx) -> OutputOptions {
    let v = [Visibility::Never, Visibility::Required, Visibility::Always];
    let mut o = OutputOptions::default();
    o.show_extension_urns = c.r.bool(); o.show_simple_extensions = c.r.bool(); o.show_simple_extension_anchors = v[c.r.below(3)]; o.show_emit = c.r.bool(); o.read_types = c.r.bool(); o.literal_types = v[c.r.below(3)]; o.nullability = c.r.bool(); o.show_literal_binaries = c.r.bool(); o.virtual_table_multiline_threshold = c.r.below(5);
    o.indent = ["", " ", "  ", "\t"][c.r.below(4)].into();
    o
}

// ---------------------------------------------------------------- P15
fn p15(c: &mut Cx) {
    let s = c.evals;
    let kinds = [ExtensionType::Relation, ExtensionType::ExtensionTable, ExtensionType::Enhancement, ExtensionType::Optimization];
    fn reg(r: &mut ExtensionRegistry, k: usize, n: usize, u: usize) -> bool {
        macro_rules! go { ($($n:literal $u:literal),*) => { match (n, u) { $(($n, $u) => match k { 0 => r.register_relation::<H<$n, $u>>(), 1 => r.register_extension_table::<H<$n, $u>>(), 2 => r.register_enhancement::<H<$n, $u>>(), _ => r.register_optimization::<H<$n, $u>>() }.is_ok(),)* _ => unreachable!() } } }
        go!(0 0, 0 1, 0 2, 1 0, 1 1, 1 2, 2 0, 2 1, 2 2)
    }
    let len = if c.thorough { 4 } else { 3 };
    let alpha: Vec<(usize, usize, usize)> = (0..4).flat_map(|k| (0..3).flat_map(move |n| (0..3).map(move |u| (k, n, u)))).filter(|(k, n, u)| *k < 2 || (*n < 2 && *u < 2)).collect();
    let mut code = 0usize;
    let total = alpha.len().pow(len as u32);
    let step = if c.thorough { 7 } else { 3 };
    while code < total && c.ok() {
        let mut x = code;
        code += step;
        let seq: Vec<(usize, usize, usize)> = (0..len).map(|_| { let d = alpha[x % alpha.len()]; x /= alpha.len(); d }).collect();
        reg_case(c, &seq, &kinds, reg);
    }
    c.family("registration sequences", s);
    let s = c.evals;
    let n = if c.thorough { 20000 } else { 1500 };
    for _ in 0..n { if !c.more() { break; } let k = 4 + c.r.below(8); let seq: Vec<_> = (0..k).map(|_| (c.r.below(4), c.r.below(3), c.r.below(3))).collect(); reg_case(c, &seq, &kinds, reg); }
    c.family("random longer registration sequences", s);
    let s = c.evals;
    // unregistered and failing handlers surface as errors in both directions
    for k in ["Leaf", "Single", "Multi"] { for nm in ["Nope", "zed", "Fails"] { let kid = if k == "Single" { "  Read[t => c:i64]\n" } else { "" }; c.rejects(&format!("=== Plan\nExtension{k}:{nm}[_ => c:i64]\n{kid}")); } }
    for a in ["Enh", "Opt", "Ext"] { for nm in ["Nope", "zed", "Fails"] { c.rejects(&format!("=== Plan\nRead:Extension[c:i64]\n  + Ext:Zed[_]\n  + {a}:{nm}[_]\n")); } c.rejects(&format!("=== Plan\nRead:Extension[c:i64]\n  + {}:Zed[_]\n", if a == "Ext" { "Foo" } else { a })); }
    for url in ["t/none", "", "t/fails", "t/zed2", "Zed"] {
        for k in [ExtK::Leaf, ExtK::Single, ExtK::Multi] { let ins = if k == ExtK::Single { vec![read_n(1)] } else { vec![] }; c.marks("undecodable extension relation", &proto(&doc1(node(Rel::Ext { k, name: "x".into(), url: url.into(), args: XArgs::default() }, ins))), true); }
        for k in [AddK::Enh, AddK::Opt] { let mut n = read_n(1); n.adds.push(Add { k, name: "x".into(), url: url.into(), args: XArgs::default() }); c.marks("undecodable addendum", &proto(&doc1(n)), true); }
        let mut n = node(Rel::ExtRead { cols: vec![("c".into(), i64t())] }, vec![]); n.adds.push(Add { k: AddK::Ext, name: "x".into(), url: url.into(), args: XArgs::default() }); c.marks("undecodable table detail", &proto(&doc1(n)), true);
    }
    c.family("unregistered or failing handlers", s);
    let s = c.evals;
    // every handler, every namespace: payload survives, names are quoted when needed
    for i in 0..7 { for k in [ExtK::Leaf, ExtK::Single, ExtK::Multi] {
        let args = XArgs { pos: vec![XVal::Int(i as i64)], named: vec![("alpha".into(), XVal::Str(format!("p{i}")))], cols: vec![XCol::Named("c".into(), i64t())] };
        c.both(&doc1(node(Rel::Ext { k, name: NAMES[i].into(), url: URLS[i].into(), args }, match k { ExtK::Leaf => vec![], ExtK::Single => vec![read_n(1)], ExtK::Multi => vec![read_n(1), read_n(2)] })));
    } for j in 0..7 {
        let a = |k: AddK, i: usize| Add { k, name: NAMES[i].into(), url: URLS[i].into(), args: XArgs { pos: vec![XVal::Int(i as i64)], ..Default::default() } };
        let mut n = node(Rel::ExtRead { cols: vec![("c".into(), i64t())] }, vec![]); n.adds = vec![a(AddK::Ext, i), a(AddK::Enh, j), a(AddK::Opt, i), a(AddK::Opt, j), a(AddK::Opt, i)]; c.both(&doc1(n));
        let mut n = node(Rel::Filter { cond: boolean(true), out: vec![0] }, vec![read_n(1)]); n.adds = vec![a(AddK::Enh, i), a(AddK::Opt, j)]; c.both(&doc1(n));
    } }
    c.family("every handler in every namespace, both directions", s);
    random(c, Focus { kinds: ALL, ext: true, expr: 1, udt: false, ..Default::default() }, 500);
}
fn reg_case(c: &mut Cx, seq: &[(usize, usize, usize)], kinds: &[ExtensionType; 4], reg: fn(&mut ExtensionRegistry, usize, usize, usize) -> bool) {
    let mut r = ExtensionRegistry::new();
    let mut m: Vec<(usize, usize, usize)> = vec![];
    for &(k, n, u) in seq {
        let want = !m.iter().any(|x| x.0 == k && (x.1 == n || x.2 == u));
        let got = reg(&mut r, k, n, u);
        c.evals += 1;
        if want != got { c.fail("registration accepted/rejected wrongly", format!("{seq:?} (namespace, name, url)"), format!("{want}"), format!("{got}")); return; }
        if want { m.push((k, n, u)); }
        // the whole observable state
        for (ki, kt) in kinds.iter().enumerate() {
            let mut names: Vec<&str> = m.iter().filter(|x| x.0 == ki).map(|x| NAMES[x.1]).collect();
            names.sort();
            if r.extension_names(*kt) != names { c.fail("registered names", format!("{seq:?}"), format!("{names:?}"), format!("{:?}", r.extension_names(*kt))); return; }
            for n in 0..3 {
                let e = m.iter().find(|x| x.0 == ki && x.1 == n);
                let mut args = ExtensionArgs::default(); args.push(n as i64);
                let f = match ki { 0 => r.parse_extension(NAMES[n], &args), 1 => r.parse_extension_table(NAMES[n], &args), 2 => r.parse_enhancement(NAMES[n], &args), _ => r.parse_optimization(NAMES[n], &args) };
                let good = match (&e, &f) { (Some(x), Ok(a)) => a.type_url == URLS[x.2], (None, Err(_)) => true, _ => false };
                if !good || r.has_extension(*kt, NAMES[n]) != e.is_some() { c.fail("parsing by name", format!("{seq:?} name {}", NAMES[n]), format!("{e:?}"), format!("{:?}", f.map(|a| a.type_url))); return; }
                let e = m.iter().find(|x| x.0 == ki && x.2 == n);
                let a = any::Any::new(URLS[n].into(), vec![]);
                let g0 = match ki { 0 => r.decode(a.as_ref()), 1 => r.decode_extension_table(a.as_ref()), 2 => r.decode_enhancement(a.as_ref()), _ => r.decode_optimization(a.as_ref()) };
                let good = match (&e, &g0) { (Some(x), Ok((nm, _))) => nm == NAMES[x.1], (None, Err(_)) => true, _ => false };
                if !good { c.fail("decoding by URL", format!("{seq:?} url {}", URLS[n]), format!("{e:?}"), format!("{:?}", g0.map(|x| x.0))); return; }
            }
        }
    }
    c.note(&format!("{seq:?}"));
}

// ---------------------------------------------------------------- P16
type Script = Vec<(u8, String)>;
thread_local! { static SCRIPT: std::cell::RefCell<(Script, Vec<String>)> = const { std::cell::RefCell::new((vec![], vec![])) }; }
struct Probe;
fn show_v(v: &ExtensionValue) -> String { ext::to_xval(v).map(|x| format!("{x:?}")).unwrap_or_else(|e| e) }
impl Explainable for Probe {
    fn name() -> &'static str { "Probe" }
    fn from_args(a: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let sc = SCRIPT.with(|s| s.borrow().0.clone());
        for (op, n) in sc {
            let r = match op {
                0 => format!("{:?}", a.positional().iter().map(show_v).collect::<Vec<_>>()),
                1 => format!("{:?}", a.get_named_arg(&n).map(show_v)),
                2 => format!("{:?}", a.get_named::<i64>(&n).map_err(|_| ())), 3 => format!("{:?}", a.get_named::<String>(&n).map_err(|_| ())), 4 => format!("{:?}", a.get_named::<bool>(&n).map_err(|_| ())), 5 => format!("{:?}", a.get_named::<f64>(&n).map_err(|_| ())),
                6 => format!("{:?}", a.get_named_tuple::<i64>(&n).map_err(|_| ())),
                7 => format!("{:?}", a.expect_named::<i64>(&n).map_err(|_| ())), 8 => format!("{:?}", a.get_named::<EnumValue>(&n).map(|x| x.map(|e| e.0)).map_err(|_| ())),
                9 => format!("{:?}", a.get_named::<Expr>(&n).map(|x| x.map(|e| e.to_proto().encode_to_vec())).map_err(|_| ())),
                _ => format!("{:?}", a.output_columns().len()),
            };
            SCRIPT.with(|s| s.borrow_mut().1.push(r));
        }
        Ok(Probe)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> { Ok(ExtensionArgs::default()) }
}
fn p16(c: &mut Cx) {
    let s = c.evals;
    // reader: every script of up to 3 reads over 3 arguments, every presence pattern
    let vals: Vec<ExtensionValue> = vec![ExtensionValue::Integer(7), ExtensionValue::String("s".into()), ExtensionValue::Boolean(true), ExtensionValue::Float(2.5), ExtensionValue::Null, ExtensionValue::Enum("E".into()), ExtensionValue::Tuple(vec![ExtensionValue::Integer(1), ExtensionValue::Integer(2)].into()), ExtensionValue::Tuple(vec![ExtensionValue::Integer(1), ExtensionValue::Null].into()), ExtensionValue::Expr(Expr::field(3)), ExtensionValue::Tuple(vec![].into())];
    let names = ["a", "b"];
    let nops = 11usize;
    for va in 0..=vals.len() { for vb in 0..=vals.len() { for np in 0..2usize { for o1 in 0..nops { for o2 in 0..nops {
        if !c.ok() { break; }
        if !c.thorough && (va + vb + o1 + o2 + np) % 3 != 0 { continue; }
        let mut args = ExtensionArgs::default();
        for i in 0..np { args.push(i as i64); }
        // insertion order b, a: order must not matter to the reader
        if vb < vals.len() { args.insert("b", vals[vb].clone()); }
        if va < vals.len() { args.insert("a", vals[va].clone()); }
        for (n1, n2) in [(0, 1), (0, 0), (1, 0)] {
            let sc: Script = vec![(o1 as u8, names[n1].into()), (o2 as u8, names[n2].into())];
            let mut read = [false, false]; let mut pos = false; let mut want = vec![];
            for (op, n) in &sc {
                let i = (n == "b") as usize;
                let present = [va, vb][i] < vals.len();
                let v = present.then(|| &vals[[va, vb][i]]);
                if (1..=9).contains(op) && present { read[i] = true; }
                let iv = |v: &ExtensionValue| match v { ExtensionValue::Integer(i) => Ok(*i), _ => Err(()) };
                want.push(match op {
                    0 => { pos = true; format!("{:?}", (0..np).map(|i| show_v(&ExtensionValue::Integer(i as i64))).collect::<Vec<_>>()) }
                    1 => format!("{:?}", v.map(show_v)),
                    2 => format!("{:?}", v.map(iv).transpose()),
                    3 => format!("{:?}", v.map(|v| match v { ExtensionValue::String(s) => Ok(s.clone()), _ => Err(()) }).transpose()),
                    4 => format!("{:?}", v.map(|v| match v { ExtensionValue::Boolean(s) => Ok(*s), _ => Err(()) }).transpose()),
                    5 => format!("{:?}", v.map(|v| match v { ExtensionValue::Float(s) => Ok(*s), _ => Err(()) }).transpose()),
                    6 => format!("{:?}", v.map(|v| match v { ExtensionValue::Tuple(t) => t.iter().map(iv).collect::<Result<Vec<i64>, ()>>(), _ => Err(()) }).transpose()),
                    7 => format!("{:?}", v.map(iv).unwrap_or(Err(()))),
                    8 => format!("{:?}", v.map(|v| match v { ExtensionValue::Enum(s) => Ok(s.clone()), _ => Err(()) }).transpose()),
                    9 => { let ex = |e: Ex| Ok(ex_proto(&e).encode_to_vec()); format!("{:?}", v.map(|v| match v { ExtensionValue::Expr(e) => Ok(e.to_proto().encode_to_vec()), ExtensionValue::Integer(i) => ex(int(*i)), ExtensionValue::Boolean(b) => ex(boolean(*b)), ExtensionValue::Float(f) => ex(Ex::Lit(Lit { v: LitV::F64(*f), nullable: false })), ExtensionValue::String(s) => ex(Ex::Lit(Lit { v: LitV::Str(s.clone()), nullable: false })), _ => Err::<Vec<u8>, ()>(()) }).transpose()) }
                    _ => "0".into(),
                });
            }
            let complete = (np == 0 || pos) && (va >= vals.len() || read[0]) && (vb >= vals.len() || read[1]);
            SCRIPT.with(|s| *s.borrow_mut() = (sc.clone(), vec![]));
            let r = args.parse::<Probe>();
            let got = SCRIPT.with(|s| s.borrow().1.clone());
            c.note(&format!("{args:?} {sc:?}"));
            if got != want || r.is_ok() != complete { c.fail("argument reader", format!("{args:?} read by {sc:?}"), format!("{want:?} complete={complete}"), format!("{got:?} ok={}", r.is_ok())); }
        }
    } } } } }
    c.family("argument reader: every pair of reads over every value kind", s);
    let s = c.evals;
    // text lists: all value kinds in every position, tuples of every small size
    let tb = tab(&[(1, "nullif"), (2, "trueish"), (3, "f:i64"), (4, "falsey")], &[]);
    let mk = |f: u32, a: Vec<Ex>| XVal::Ex(Ex::Call(Call { f, args: a, ty: i64t() }));
    let vs: Vec<XVal> = vec![XVal::Str("x".into()), XVal::Str("it's".into()), XVal::Int(0), XVal::Int(i64::MIN), XVal::Int(i64::MAX), XVal::Float(1.0), XVal::Float(-0.25), XVal::Bool(true), XVal::Bool(false), XVal::Null, XVal::Ex(Ex::Ref(0)), XVal::Ex(Ex::Ref(12)), XVal::Enum("Hash".into()), XVal::Enum("null".into()), mk(1, vec![]), mk(2, vec![Ex::Ref(0)]), mk(3, vec![int(1), Ex::Ref(2)]), mk(4, vec![]), XVal::Ex(Ex::Lit(Lit { v: LitV::I32(4), nullable: false })), XVal::Ex(Ex::Lit(Lit { v: LitV::I64(4), nullable: true })), XVal::Ex(Ex::Lit(Lit { v: LitV::Null(i64t()), nullable: false })), XVal::Ex(Ex::Lit(Lit { v: LitV::Date(3), nullable: false })), XVal::Ex(Ex::Cast(Box::new(Ex::Ref(1)), 0, i64t())), XVal::Ex(Ex::If(vec![(boolean(true), int(1))], Box::new(int(2)))), XVal::Tuple(vec![]), XVal::Tuple(vec![XVal::Int(1)]), XVal::Tuple(vec![XVal::Null]), XVal::Tuple(vec![XVal::Ex(Ex::Ref(0))]), XVal::Tuple(vec![XVal::Int(1), XVal::Str("a".into())]), XVal::Tuple(vec![XVal::Tuple(vec![XVal::Enum("A".into())]), XVal::Tuple(vec![]), XVal::Bool(false)]), XVal::Tuple(vec![XVal::Ex(Ex::Cast(Box::new(Ex::Ref(1)), 1, i64t()))])];
    let leaf = |a: XArgs| with_tab(node(Rel::Ext { k: ExtK::Leaf, name: NAMES[0].into(), url: URLS[0].into(), args: a }, vec![]), tb.clone());
    let nm = |i: usize, v: &XVal| (ext::ARG_NAMES[i].to_string(), v.clone());
    for a in &vs { for b in &vs {
        if !c.ok() { break; }
        c.both(&leaf(XArgs { pos: vec![a.clone(), b.clone()], ..Default::default() }));
        c.both(&leaf(XArgs { pos: vec![a.clone()], named: vec![nm(0, b), nm(3, a)], cols: vec![] }));
        c.both(&leaf(XArgs { pos: vec![], named: vec![nm(0, a), nm(1, b), nm(2, a), nm(7, b)], cols: vec![XCol::Named("a b".into(), i64t()), XCol::Ex(Ex::Ref(0))] }));
        c.both(&leaf(XArgs { pos: vec![XVal::Tuple(vec![a.clone(), b.clone()]), XVal::Tuple(vec![a.clone()])], ..Default::default() }));
    } let mut n = read_n(1); n.adds = vec![Add { k: AddK::Enh, name: NAMES[2].into(), url: URLS[2].into(), args: XArgs { pos: vec![a.clone()], named: vec![nm(4, a)], cols: vec![] } }]; c.both(&with_tab(n, tb.clone())); }
    for k in 0..4usize { for e in [Ex::Ref(1), Ex::Call(Call { f: 3, args: vec![Ex::Ref(0)], ty: i64t() }), int(4), Ex::Cast(Box::new(Ex::Ref(0)), 0, i64t()), Ex::Lit(Lit { v: LitV::Str("s".into()), nullable: true })] { c.both(&leaf(XArgs { cols: (0..k).map(|i| if i % 2 == 0 { XCol::Ex(e.clone()) } else { XCol::Named("f".into(), i64t()) }).collect(), ..Default::default() })); } }
    // trailing comma in tuples, named order in text is free
    let p = |a: XArgs| proto(&leaf(a));
    let lt = |x: &str| text(&leaf(XArgs::default()), &Opts::default()).replace("[_ => ]", &format!("[{x} => ]"));
    c.accepts(&lt("(1, 2,)"), &p(XArgs { pos: vec![XVal::Tuple(vec![XVal::Int(1), XVal::Int(2)])], ..Default::default() }));
    c.accepts(&lt("( 1 , )"), &p(XArgs { pos: vec![XVal::Tuple(vec![XVal::Int(1)])], ..Default::default() }));
    c.accepts(&lt("b=1, alpha=2"), &p(XArgs { named: vec![nm(1, &XVal::Int(2)), nm(5, &XVal::Int(1))], ..Default::default() }));
    c.accepts(&lt("\"alpha\"=2"), &p(XArgs { named: vec![nm(1, &XVal::Int(2))], ..Default::default() }));
    for bad in ["alpha=1, alpha=1", "alpha=1, zeta=2, alpha=3", "alpha=1, \"alpha\"=2", "alpha=1, 5", "(1)", "alpha", "alpha=", "=1", "1 2", ",", "1,", "unknown=1", "&", "& A", "9223372036854775808", "alpha=9223372036854775808"] { c.rejects(&lt(bad)); }
    c.family("every pair of argument values in text", s);
    random(c, Focus { kinds: &[K::Leaf, K::Single, K::Multi, K::ExtRead, K::Read], ext: true, expr: 1, depth: 2, ver: false, ..Default::default() }, 1000);
}

// ---------------------------------------------------------------- P18
fn p18(c: &mut Cx) {
    let s = c.evals;
    // hand-picked accepted spellings that are not canonical
    let h = "=== Extensions\nURNs:\n  @  1: u\nFunctions:\n  #  1 @  1: f\n  #  2 @  1: g:i64\n  #  3 @  1: g:any\nTypes:\n  #  1 @  1: point\n\n=== Plan\n";
    for l in ["Filter[f #1 ($0):i64 => $0]", "Filter[g:any($0):i64 => $0]", "Filter[f():u!point<i64, 3> => $0]", "Filter[f():point#1@1? => $0]", "Filter[5 => $0]", "Filter[5:i64 => $0]", "Filter[5:i64? => $0]", "Filter[007 => $0]", "Filter[-0 => $0]", "Filter[1.50 => $0]", "Filter[-0.0:fp32 => $0]", "Filter['\\x' => $0]", "Filter['\\u{41}' => $0]", "Filter[null:LIST?<i64> => $0]", "Filter['10:00:00.5':time => $0]", "Filter['2020-1-1':date => $0]", "Filter['1d':interval_day<6> => $0]", "Filter['0d 0s 0us':interval_day<6> => $0]", "Aggregate[($0, f($0):i64), _, ($0) => f($0):i64, $0, f($0):i32]", "Aggregate[($0)::i64 => ($0)::i64]", "Aggregate[($0) => $0]", "Sort[_ => $0]", "Sort[ => $0]", "Fetch[offset=1, limit=2:i64 => $0]", "Fetch[limit=5:i64? => $0]", "Fetch[_ => $0]", "Project[]", "Project[$0, 1, $0]", "Filter[true => ]", "Filter[$-1 => $0]", "ExtensionSingle:Zed[ => ]", "ExtensionSingle:Zed[]", "ExtensionSingle:\"Zed\"[b=1, alpha=(1,2,), zeta=null => f($0):i64, \"a\":i64]", "Filter[if_then(true -> if_then(false -> 1, _ -> 2), _ -> 3) => $0]"] {
        let t = format!("{h}{l}\n  Read[\"t\".\"x y\" => c0:i64]\n");
        if !c.stable(&t) && c.ok() { let g0 = c.parse(&t); c.fail("accepted spelling", t, "accepted", g0.show()); }
    }
    c.family("non-canonical spellings", s);
    let s = c.evals;
    let n = if c.thorough { 20000 } else { 900 };
    for _ in 0..n { if !c.more() { break; } let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 3, depth: 4, ..Default::default() }).doc(); let t = text(&d, &Opts::default()); if !c.stable(&t) && c.ok() { let g0 = c.parse(&t); c.fail("generated document must be accepted without errors", t, "accepted", g0.show()); } }
    c.family("generated documents", s);
    let s = c.evals;
    let n = if c.thorough { 400000 } else { 14000 };
    let mut base = String::new();
    let mut acc = 0u64;
    for i in 0..n {
        if !c.more() { break; }
        if i % 6 == 0 { let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 2, expr: 1, depth: 2, ..Default::default() }).doc(); base = text(&d, &if i % 12 == 0 { Opts::default() } else { Opts::verbose() }); }
        let t = mutate(c, &base);
        if c.stable(&t) { acc += 1; }
    }
    c.family(&format!("mutated documents ({acc} accepted)"), s);
    let _ = CORE;
}
