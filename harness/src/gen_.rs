//! Seeded generators of model documents.
use crate::ext::{ARG_NAMES, NAMES, URLS};
use crate::model::*;
use crate::rng::Rng;

/// What a generated document concentrates on.
#[derive(Clone, Copy)]
pub struct Focus { pub depth: usize, pub expr: usize, pub ext: bool, pub udt: bool, pub ver: bool, pub kinds: &'static [K], pub tops: usize, pub weird: bool }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Read, Virt, ExtRead, Filter, Project, Agg, Sort, Fetch, Join, Set, Cross, Leaf, Single, Multi }
pub const CORE: &[K] = &[K::Read, K::Virt, K::Filter, K::Project, K::Agg, K::Sort, K::Fetch, K::Join, K::Set, K::Cross];
pub const ALL: &[K] = &[K::Read, K::Virt, K::ExtRead, K::Filter, K::Project, K::Agg, K::Sort, K::Fetch, K::Join, K::Set, K::Cross, K::Leaf, K::Single, K::Multi];
impl Default for Focus { fn default() -> Self { Focus { depth: 3, expr: 2, ext: false, udt: true, ver: true, kinds: CORE, tops: 1, weird: true } } }

pub struct G<'r> { pub r: &'r mut Rng, pub tab: Table, pub f: Focus }

pub const FUNCS: [&str; 14] = ["add", "add:i64_i64", "add:any", "equal", "equal:any_any", "sum", "sum:i64", "count", "count:", "count:any", "nullif", "trueish", "json_x:u!json_str", "if_then2"];
pub const TYPES: [&str; 8] = ["point", "json", "geo_point", "i64", "list", "point2", "Timestamp", "i64x"];

pub fn ident(r: &mut Rng) -> String { r.pick(&["a", "b", "id", "name", "Ab9", "col_1", "x", "value", "null", "true", "Read", "limit", "i64", "Z__"]).to_string() }
pub fn any_name(r: &mut Rng, weird: bool) -> String {
    if weird && r.one_in(5) { r.pick(&["my col", "", "1a", "_x", "é", "a-b", "a.b", "a\"b", "it's", "back\\slash", "new\nline", "tab\t", "x]y", "=> $0", "nul\0", "a,b", "日本", "\u{200b}z", "//c", "x // y", "http://h", "#1", "@1", " lead", "trail ", "a:i64"]).to_string() } else { ident(r) }
}
pub fn edge_i64(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    match r.below(6) { 0 => lo, 1 => hi, 2 => 0i64.clamp(lo, hi), 3 => (r.range(-3, 3)).clamp(lo, hi), _ => r.range(lo, hi) }
}
pub const TSMIN: i64 = -8_334_601_228_800; // chrono NaiveDateTime limits, in seconds, rounded inward
pub const TSMAX: i64 = 8_210_266_876_799;

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, f: Focus) -> Self {
        let tab = table(r, f.udt);
        G { r, tab, f }
    }
    pub fn simple(&mut self) -> Simple { *self.r.pick(&SIMPLES) }
    pub fn ty(&mut self, depth: usize) -> Ty {
        let n = self.r.bool();
        match self.r.below(if depth == 0 { 4 } else { 8 }) {
            0..=2 => Ty::S(self.simple(), n),
            3 => Ty::P(*self.r.pick(&PRECS), self.r.range(0, 12) as i32, n),
            4 | 5 => Ty::L(Box::new(self.ty(depth - 1)), n),
            _ => {
                let ts: Vec<u32> = self.tab.decls.iter().filter(|d| d.k == XK::Type).map(|d| d.anchor).collect();
                if ts.is_empty() { return Ty::S(self.simple(), n); }
                let a = *self.r.pick(&ts);
                let k = self.r.below(3);
                let ps = (0..k).map(|_| if self.r.bool() { TP::T(self.ty(depth - 1)) } else { TP::I(edge_i64(self.r, i64::MIN, i64::MAX)) }).collect();
                Ty::U(a, ps, n)
            }
        }
    }
    pub fn litv(&mut self, which: usize) -> LitV {
        let r = &mut *self.r;
        match which {
            0 => LitV::Bool(r.bool()),
            1 => LitV::I8(edge_i64(r, i8::MIN as i64, i8::MAX as i64) as i8),
            2 => LitV::I16(edge_i64(r, i16::MIN as i64, i16::MAX as i64) as i16),
            3 => LitV::I32(edge_i64(r, i32::MIN as i64, i32::MAX as i64) as i32),
            4 => LitV::I64(edge_i64(r, i64::MIN, i64::MAX)),
            5 => LitV::F32(f32v(r)),
            6 => LitV::F64(f64v(r)),
            7 => LitV::Str(string(r)),
            8 => LitV::Date(edge_i64(r, -96_465_292, 95_026_236) as i32),
            9 => LitV::Time(edge_i64(r, 0, 86_400_000_000 - 1)),
            10 => LitV::Timestamp(ts(r, 6)),
            11 => { let p = *r.pick(&[0, 3, 6, 9]); LitV::PTime(p, edge_i64(r, 0, 86_400 * pow10(p) - 1)) }
            12 => { let p = *r.pick(&[0, 3, 6, 9]); LitV::PTs(p, ts(r, p)) }
            13 => { let p = *r.pick(&[0, 3, 6, 9]); LitV::PTsTz(p, ts(r, p)) }
            14 => interval(r),
            _ => LitV::Null(self.ty(1)),
        }
    }
    pub fn lit(&mut self) -> Lit {
        let w = self.r.below(16);
        let v = self.litv(w);
        let nullable = !matches!(v, LitV::Null(_)) && self.r.one_in(3);
        Lit { v, nullable }
    }
    pub fn fref(&mut self) -> Ex { Ex::Ref(if self.r.one_in(20) { *self.r.pick(&[100, i32::MAX, 9]) } else { self.r.below(4) as i32 }) }
    pub fn call(&mut self, depth: usize) -> Option<Call> {
        let fs: Vec<u32> = self.tab.decls.iter().filter(|d| d.k == XK::Function).map(|d| d.anchor).collect();
        if fs.is_empty() { return None; }
        let f = *self.r.pick(&fs);
        let n = self.r.below(4);
        Some(Call { f, args: (0..n).map(|_| self.ex(depth.saturating_sub(1))).collect(), ty: self.ty(1) })
    }
    pub fn ex(&mut self, depth: usize) -> Ex {
        match self.r.below(if depth == 0 { 4 } else { 9 }) {
            0 | 1 => self.fref(),
            2 | 3 => Ex::Lit(self.lit()),
            4 | 5 => self.call(depth).map(Ex::Call).unwrap_or(Ex::Ref(0)),
            6 => Ex::Cast(Box::new(self.ex(depth - 1)), self.r.below(3) as i32, self.ty(1)),
            7 => { let n = 1 + self.r.below(3); Ex::If((0..n).map(|_| (self.ex(depth - 1), self.ex(depth - 1))).collect(), Box::new(self.ex(depth - 1))) }
            _ => self.call(depth).map(Ex::Call).unwrap_or(Ex::Ref(1)),
        }
    }
    pub fn cols(&mut self, lo: usize) -> Vec<(String, Ty)> {
        let n = lo + self.r.below(4);
        (0..n).map(|_| (any_name(self.r, self.f.weird), self.ty(1))).collect()
    }
    /// A mapping over `w` direct columns: identity half of the time.
    pub fn out(&mut self, w: usize) -> Vec<i32> {
        let id: Vec<i32> = (0..w as i32).collect();
        match self.r.below(6) {
            0..=2 => id,
            3 => id.into_iter().rev().collect(),
            4 => id[..w.saturating_sub(1)].to_vec(),
            _ => { let n = self.r.below(w + 2); if w == 0 { vec![] } else { (0..n).map(|_| self.r.below(w) as i32).collect() } }
        }
    }
    pub fn xval(&mut self, depth: usize) -> XVal {
        match self.r.below(if depth == 0 { 8 } else { 9 }) {
            0 => XVal::Str(string(self.r)), 1 => XVal::Int(edge_i64(self.r, i64::MIN, i64::MAX)), 2 => XVal::Float(f64v(self.r)), 3 => XVal::Bool(self.r.bool()), 4 => XVal::Null,
            5 => XVal::Ex(self.fref()), 6 => XVal::Enum(ident(self.r)),
            7 => {
                let e = self.ex(1);
                // an untyped scalar literal is a scalar argument, not an expression
                match &e { Ex::Lit(l) if !l.nullable && matches!(l.v, LitV::Bool(_) | LitV::I64(_) | LitV::F64(_) | LitV::Str(_)) => XVal::Null, _ => XVal::Ex(e) }
            }
            _ => { let n = self.r.below(4); XVal::Tuple((0..n).map(|_| self.xval(depth - 1)).collect()) }
        }
    }
    pub fn xargs(&mut self, columns: bool) -> XArgs {
        let np = self.r.below(4);
        let pos = (0..np).map(|_| self.xval(2)).collect();
        let mut named = vec![];
        for n in ARG_NAMES { if self.r.one_in(4) { named.push((n.to_string(), self.xval(2))); } }
        let nc = if columns { self.r.below(4) } else { 0 };
        let cols = (0..nc).map(|_| match self.r.below(3) {
            0 => XCol::Ex(self.fref()),
            1 => XCol::Ex(self.ex(1)),
            _ => XCol::Named(any_name(self.r, self.f.weird), self.ty(1)),
        }).collect();
        XArgs { pos, named, cols }
    }
    pub fn add(&mut self, k: AddK) -> Add { let i = self.r.below(7); Add { k, name: NAMES[i].into(), url: URLS[i].into(), args: self.xargs(false) } }
    fn adds(&mut self) -> Vec<Add> {
        let mut v = vec![];
        if !self.f.ext || self.r.bool() { return v; }
        if self.r.bool() { v.push(self.add(AddK::Enh)); }
        for _ in 0..self.r.below(3) { v.push(self.add(AddK::Opt)); }
        v
    }
    pub fn node(&mut self, depth: usize) -> Node {
        let leaf = |k: &K| matches!(k, K::Read | K::Virt | K::ExtRead | K::Leaf);
        let ks: Vec<K> = self.f.kinds.iter().copied().filter(|k| (depth > 0 || leaf(k)) && (self.f.ext || !matches!(k, K::ExtRead | K::Leaf | K::Single | K::Multi))).collect();
        let k = if ks.is_empty() || (depth > 0 && self.r.one_in(8)) { K::Read } else { *self.r.pick(&ks) };
        self.node_of(k, depth)
    }
    pub fn node_of(&mut self, k: K, depth: usize) -> Node {
        let d = depth.saturating_sub(1);
        let e = self.f.expr;
        let mut inputs: Vec<Node> = match k {
            K::Read | K::Virt | K::ExtRead | K::Leaf => vec![],
            K::Filter | K::Project | K::Agg | K::Sort | K::Fetch | K::Single => vec![self.node(d)],
            K::Join | K::Cross => vec![self.node(d), self.node(d)],
            K::Set => {
                let first = self.node(d);
                let w = width(&first);
                let n = 1 + self.r.below(3);
                let mut v = vec![first];
                for _ in 0..n {
                    let mut x = self.node(d);
                    if width(&x) != w {
                        let iw = width(&x);
                        let items = (0..w).map(|i| if iw == 0 { PI::Ex(Ex::Lit(Lit { v: LitV::I64(i as i64), nullable: false })) } else { PI::Ref((i % iw) as i32) }).collect();
                        x = Node { rel: Rel::Project { items }, adds: vec![], inputs: vec![x] };
                    }
                    v.push(x);
                }
                v
            }
            K::Multi => (0..self.r.below(4)).map(|_| self.node(d)).collect(),
        };
        let mut adds = if matches!(k, K::Leaf | K::Single | K::Multi) { vec![] } else { self.adds() };
        let ws: Vec<usize> = inputs.iter().map(width).collect();
        let rel = match k {
            K::Read => {
                let n = 1 + self.r.below(3);
                let names = (0..n).map(|_| any_name(self.r, self.f.weird)).collect();
                let cols = self.cols(1);
                let map = if self.r.one_in(3) { Some(self.out(cols.len())) } else { None };
                Rel::Read { names, cols, map }
            }
            K::Virt => {
                let cols = self.cols(0);
                let n = self.r.below(5);
                let rows = (0..n).map(|_| { let m = if self.r.one_in(6) { self.r.below(4) } else { cols.len() }; (0..m).map(|_| self.ex(1)).collect() }).collect();
                let filter = if self.r.one_in(3) { Some(self.ex(e)) } else { None };
                Rel::Virt { rows, filter, cols }
            }
            K::ExtRead => { let a = self.add(AddK::Ext); adds.push(a); Rel::ExtRead { cols: self.cols(0) } }
            K::Filter => Rel::Filter { cond: self.ex(e), out: self.out(ws[0]) },
            K::Project => {
                let n = self.r.below(5);
                let items = if self.r.one_in(4) {
                    // identity prefix plus expressions: a direct projection
                    (0..ws[0] as i32).map(PI::Ref).chain((0..n).map(|_| PI::Ex(self.nonref(e)))).collect()
                } else {
                    (0..n).map(|_| if ws[0] > 0 && self.r.bool() { PI::Ref(self.r.below(ws[0]) as i32) } else { PI::Ex(self.nonref(e)) }).collect()
                };
                Rel::Project { items }
            }
            K::Agg => {
                let pool: Vec<Ex> = (0..3).map(|_| self.ex(e.min(1))).collect();
                let ns = 1 + self.r.below(4);
                let sets: Vec<Vec<Ex>> = (0..ns).map(|_| { let m = self.r.below(4); (0..m).map(|_| self.r.pick(&pool).clone()).collect() }).collect();
                let d = distinct(&sets);
                let no = self.r.below(5);
                let mut outs: Vec<AO> = if self.r.bool() { (0..d.len()).map(AO::G).collect() } else { vec![] };
                for _ in 0..no {
                    if !d.is_empty() && self.r.bool() { outs.push(AO::G(self.r.below(d.len()))); continue; }
                    if let Some(c) = self.call(e) { if !d.iter().any(|x| ex_key(x) == ex_key(&Ex::Call(c.clone()))) { outs.push(AO::M(c)); } }
                }
                Rel::Agg { sets, outs }
            }
            K::Sort => { let n = self.r.below(4); Rel::Sort { fields: (0..n).map(|_| (self.ex(e), self.r.pick(&SORT_DIRS).0)).collect(), out: self.out(ws[0]) } }
            K::Fetch => { let l = |g: &mut Self| match g.r.below(4) { 0 => None, 1 | 2 => Some(Lim::Int(edge_i64(g.r, 0, i64::MAX))), _ => Some(Lim::Ex(match g.nonref(1) { Ex::Lit(Lit { v: LitV::I64(_), nullable: false }) => Ex::Ref(0), Ex::Lit(Lit { v: LitV::I64(x), .. }) if x < 0 => Ex::Ref(0), Ex::Lit(Lit { v: LitV::I32(x), .. }) if x < 0 => Ex::Ref(0), Ex::Lit(Lit { v: LitV::I16(x), .. }) if x < 0 => Ex::Ref(0), Ex::Lit(Lit { v: LitV::I8(x), .. }) if x < 0 => Ex::Ref(0), e => e })) };
                Rel::Fetch { limit: l(self), offset: l(self), out: self.out(ws[0]) } }
            K::Join => { let t = self.r.pick(&JOIN_TYPES).0; let w = join_width(t, ws[0], ws[1]); Rel::Join { ty: t, cond: self.ex(e), post: if self.r.one_in(3) { Some(self.ex(e)) } else { None }, out: self.out(w) } }
            K::Set => Rel::Set { op: self.r.pick(&SET_OPS).0, out: self.out(ws[0]) },
            K::Cross => Rel::Cross { out: self.out(ws[0] + ws[1]) },
            K::Leaf | K::Single | K::Multi => {
                let i = self.r.below(7);
                Rel::Ext { k: match k { K::Leaf => ExtK::Leaf, K::Single => ExtK::Single, _ => ExtK::Multi }, name: NAMES[i].into(), url: URLS[i].into(), args: self.xargs(true) }
            }
        };
        if matches!(rel, Rel::Ext { .. }) { adds.clear(); }
        inputs.shrink_to_fit();
        Node { rel, adds, inputs }
    }
    pub fn nonref(&mut self, depth: usize) -> Ex { loop { let e = self.ex(depth); if !matches!(e, Ex::Ref(_)) { return e; } } }
    pub fn doc(mut self) -> Doc {
        let n = if self.f.tops <= 1 { 1 } else { 1 + self.r.below(self.f.tops) };
        let mut tops = vec![];
        for _ in 0..n {
            let d = self.r.below(self.f.depth + 1);
            let node = self.node(d);
            tops.push(if self.r.bool() { let k = self.r.below(4); Top::Root((0..k).map(|_| any_name(self.r, self.f.weird)).collect(), node) } else { Top::Rel(node) });
        }
        let ver = if self.f.ver && self.r.one_in(3) { Some(version(self.r)) } else { None };
        Doc { ver, tab: self.tab, tops }
    }
}
pub const VERSION_TEXTS: [&str; 44] = ["", "x", "my producer 1.0", "0123456789abcdef", "a: b", "é", "producer: y", "=== Plan", "https://example.com/p", "a // b", "//", "// x", "a//", "a # b", "#1", "a@b", "@  1: u", "x:", ":x", ":", "a;b", "- x", "[x]", "(x)", "\"q\"", "'q'", "a\tb", "git_hash: z", "git_hash:", "producer:", "=", "==", "===", "a=b", "$0", "a,b", "%", "\\", "a\u{a0}b", "1.2.3", "A", "producer: producer: z", "/* c */", "日本 語"];
pub fn version(r: &mut Rng) -> Ver {
    let n = |r: &mut Rng| edge_i64(r, 0, u32::MAX as i64) as u32;
    let s = |r: &mut Rng| { let i = r.below(VERSION_TEXTS.len() + 3); VERSION_TEXTS.get(i).unwrap_or(&"").to_string() };
    let v = Ver { n: (n(r), n(r), n(r)), producer: s(r), git: s(r) };
    if v.n == (0, 0, 0) && v.producer.is_empty() && v.git.is_empty() { Ver { n: (0, 1, 0), ..v } } else { v }
}
pub fn table(r: &mut Rng, udt: bool) -> Table {
    let mut t = Table::default();
    let nu = 1 + r.below(3);
    for _ in 0..nu { let a = *r.pick(&[0, 1, 2, 3, 7, 10, 99, 1000, u32::MAX]); if !t.urns.iter().any(|u| u.0 == a) { t.urns.push((a, r.pick(&["extension:io.substrait:functions", "/my/urn", "urn:a:b#c", "é", "x@3:y", "same", "https://h/e.yaml", "a#b", "a//b"]).to_string())); } }
    let mut add = |r: &mut Rng, k: XK, pool: &[&str], n: usize| {
        for _ in 0..n {
            let a = *r.pick(&[0, 1, 2, 3, 4, 5, 8, 12, 100, 999, 1000, u32::MAX]);
            if t.decls.iter().any(|d| d.k == k && d.anchor == a) { continue; }
            let urn = r.pick(&t.urns).0;
            t.decls.push(Decl { k, anchor: a, urn, name: r.pick(pool).to_string() });
        }
    };
    let nf = 1 + r.below(5);
    add(r, XK::Function, &FUNCS, nf);
    if udt { let nt = r.below(4); add(r, XK::Type, &TYPES, nt); if r.one_in(3) { add(r, XK::Variation, &["var", "u8", "foo"], 2); } }
    t
}
pub fn f32v(r: &mut Rng) -> f32 { match r.below(5) { 0 => *r.pick(&[0.0, -0.0, 1.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777216.0, 1e10]), 1 => r.range(-1000, 1000) as f32, 2 => r.range(-100000, 100000) as f32 / 100.0, _ => loop { let f = f32::from_bits(r.u64() as u32); if f.is_finite() { break f; } } } }
pub fn f64v(r: &mut Rng) -> f64 { match r.below(5) { 0 => *r.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 0.1, 9007199254740993.0, 1e21]), 1 => r.range(-1000, 1000) as f64, 2 => r.range(-100000, 100000) as f64 / 100.0, _ => loop { let f = f64::from_bits(r.u64()); if f.is_finite() { break f; } } } }
pub fn string(r: &mut Rng) -> String {
    if r.one_in(4) { return r.pick(&["", "it's", "q\"q", "back\\n", "a\nb", "\r\n", "\t", "\0", "null", "1", "x:i64", "日本語", "\u{1F600}", "\u{7f}", "\u{200b}", "e\u{301}", "\u{301}x", "//", "]", "=> ", "\\", "'", "\u{feff}", "- x"]).to_string(); }
    let n = r.below(6);
    (0..n).map(|_| ch(r)).collect()
}
pub fn ch(r: &mut Rng) -> char {
    match r.below(8) {
        0 => *r.pick(&['\\', '\'', '"', '\n', '\r', '\t', '\0', ' ', 'u', 'n', '{', '}', '\u{85}', '\u{2028}']),
        1 => char::from_u32(r.below(0x80) as u32).unwrap(),
        2 => loop { if let Some(c) = char::from_u32(r.below(0x3000) as u32) { break c; } },
        3 => loop { if let Some(c) = char::from_u32(r.below(0x110000) as u32) { break c; } },
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
pub fn ts(r: &mut Rng, p: i32) -> i64 {
    let lo = (TSMIN as i128 * pow10(p) as i128).max(i64::MIN as i128) as i64;
    let hi = ((TSMAX as i128 + 1) * pow10(p) as i128 - 1).min(i64::MAX as i128) as i64;
    edge_i64(r, lo, hi)
}
pub fn interval(r: &mut Rng) -> LitV {
    let p = *r.pick(&[0, 3, 6, 9, 12]);
    let days = edge_i64(r, -3_600_000, 3_600_000) as i32;
    let secs = edge_i64(r, -86_399, 86_399) as i32;
    let sub = if p == 0 { 0 } else { edge_i64(r, -(pow10(p) - 1), pow10(p) - 1) };
    LitV::Interval { p, days, secs, sub }
}
