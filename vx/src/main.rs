//! vx: mechanical extraction of functions and types from the repository into Verus input.
//!
//! A template is Verus text with directive lines:
//!   //@@ include FILE                         another template (relative to the template)
//!   //@@ item FILE NAME [derive=A,B]          a type definition, const or static
//!   //@@ fn FILE PATH [ret=NAME] [as=NAME] [pub] [opaque]
//!        contract lines (requires/ensures/decreases/returns) follow, then
//!   //@@ attr TEXT                            attribute placed before the function
//!   //@@ loop N [iter=NAME]                   loop contract of the N-th loop (pre-order, 0-based)
//!   //@@ at start | tail | loop N start | loop N end | after N CALL | before N CALL    proof text there
//!   //@@ sub TEXT => TEXT                     textual substitution in the printed function (reported)
//!   //@@ end
//!   //@@ grammar FILE                         spec predicates of the pest grammar
//! PATH is `name`, `Type::name` (inherent impl) or `<Trait for Type>::name`.
mod grammar;
mod proto;
mod rewrite;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub struct Out { pub text: String, pub fns: Vec<FnMeta>, pub drops: BTreeSet<String>, pub trusted: Vec<String> }
pub struct FnMeta { name: String, file: String, start: usize, end: usize, loops: usize, trusted: bool }

fn die(m: &str) -> ! { eprintln!("vx: {m}"); std::process::exit(4) }
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn toks<T: quote::ToTokens>(t: &T) -> String { norm(&t.to_token_stream().to_string()) }

struct Src { files: BTreeMap<String, syn::File>, root: PathBuf }
impl Src {
    fn file(&mut self, f: &str) -> &syn::File {
        if !self.files.contains_key(f) {
            let p = self.root.join(f);
            let t = std::fs::read_to_string(&p).unwrap_or_else(|e| die(&format!("lost anchor: {}: {e}", p.display())));
            let a = syn::parse_file(&t).unwrap_or_else(|e| die(&format!("cannot parse {f}: {e}")));
            self.files.insert(f.to_string(), a);
        }
        &self.files[f]
    }
}
fn ident_of(ty: &syn::Type) -> String { toks(ty) }
fn strip_lt(s: &str) -> String { // drop lifetimes arguments: Foo<'a> == Foo
    let mut o = String::new(); let b: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < b.len() { if b[i] == '<' { // find matching, drop if only lifetimes
            let mut d = 0; let mut j = i; while j < b.len() { if b[j] == '<' { d += 1 } if b[j] == '>' { d -= 1; if d == 0 { break } } j += 1 }
            let inner: String = b[i + 1..j].iter().collect();
            if inner.split(',').all(|p| p.starts_with('\'')) { i = j + 1; continue }
        } o.push(b[i]); i += 1 }
    o
}
fn test_cfg(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && toks(a).contains("test")) }

/// All functions of a file, as (self type, trait, function).
fn find_fn(file: &syn::File, path: &str) -> Option<(syn::ImplItemFn, Option<syn::ItemImpl>)> {
    let (imp, name) = match path.rfind("::") { Some(i) => (Some(path[..i].to_string()), path[i + 2..].to_string()), None => (None, path.to_string()) };
    fn walk(items: &[syn::Item], imp: &Option<String>, name: &str) -> Option<(syn::ImplItemFn, Option<syn::ItemImpl>)> {
        for it in items {
            match it {
                syn::Item::Fn(f) if imp.is_none() && f.sig.ident == name && !test_cfg(&f.attrs) => {
                    return Some((syn::ImplItemFn { attrs: f.attrs.clone(), vis: f.vis.clone(), defaultness: None, sig: f.sig.clone(), block: (*f.block).clone() }, None));
                }
                syn::Item::Mod(m) if !test_cfg(&m.attrs) => { if let Some((_, i)) = &m.content { if let Some(r) = walk(i, imp, name) { return Some(r) } } }
                syn::Item::Trait(t) => if let Some(want) = imp {
                    if norm(want) == format!("trait{}", t.ident) { for i in &t.items { if let syn::TraitItem::Fn(f) = i { if f.sig.ident == name { if let Some(b) = &f.default { return Some((syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig.clone(), block: b.clone() }, None)); } } } } }
                },
                syn::Item::Impl(b) if imp.is_some() && !test_cfg(&b.attrs) => {
                    let want = norm(imp.as_ref().unwrap());
                    let st = strip_lt(&ident_of(&b.self_ty));
                    let me = match &b.trait_ { Some((_, p, _)) => format!("<{}for{}>", strip_lt(&toks(p)), st), None => st.clone() };
                    if strip_lt(&want) != me && want != me { continue }
                    for i in &b.items { if let syn::ImplItem::Fn(f) = i { if f.sig.ident == name { return Some((f.clone(), Some(b.clone()))) } } }
                }
                _ => {}
            }
        }
        None
    }
    walk(&file.items, &imp, &name)
}
fn find_item<'a>(items: &'a [syn::Item], name: &str) -> Option<&'a syn::Item> {
    for it in items {
        let id = match it { syn::Item::Enum(e) => &e.ident, syn::Item::Struct(s) => &s.ident, syn::Item::Const(c) => &c.ident, syn::Item::Static(c) => &c.ident, syn::Item::Type(c) => &c.ident,
            syn::Item::Mod(m) if !test_cfg(&m.attrs) => { if let Some((_, i)) = &m.content { if let Some(r) = find_item(i, name) { return Some(r) } } continue }
            _ => continue };
        if id == name { return Some(it) }
    }
    None
}

#[derive(Default)]
struct FnDir { file: String, path: String, ret: Option<String>, rename: Option<String>, public: bool, attrs: Vec<String>, contract: String, loops: BTreeMap<usize, (Option<String>, String)>, ats: Vec<(String, String)>, subs: Vec<(String, String)>, seqs: BTreeSet<usize>, closures: BTreeMap<usize, (Option<String>, String)>, anyloops: bool, opts: BTreeSet<String> }

struct Gen { src: Src, out: Out, vac: bool, spin: bool, prov: Vec<String>, included: BTreeSet<PathBuf>, defs: BTreeMap<String, Vec<String>> }

impl Gen {
    fn line(&self) -> usize { self.out.text.matches('\n').count() + 1 }
    fn expand_use(&self, l: &str, all: &mut Vec<String>) {
        let name = l.split_whitespace().nth(2).unwrap_or("");
        let b = self.defs.get(name).unwrap_or_else(|| die(&format!("no def {name}"))).clone();
        let a: Vec<String> = l.trim_start().splitn(4, ' ').nth(3).unwrap_or("").split(" ; ").map(|x| x.to_string()).collect();
        for mut x in b { for (i, v) in a.iter().enumerate() { x = x.replace(&format!("${}", i + 1), v.trim()) } if x.trim_start().starts_with("//@@ use ") { self.expand_use(&x, all) } else { all.push(x) } }
    }
    fn load_defs(&mut self, path: &Path) {
        let t = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("template {}: {e}", path.display())));
        let mut it = t.lines();
        while let Some(l) = it.next() {
            let w: Vec<&str> = l.trim_start().strip_prefix("//@@ ").map(|d| d.split_whitespace().collect()).unwrap_or_default();
            match w.first() {
                Some(&"include") => self.load_defs(&path.parent().unwrap().join(w[1])),
                Some(&"def") => { let mut b = vec![]; for l in it.by_ref() { if l.trim() == "//@@ enddef" { break } b.push(l.to_string()) } self.defs.insert(w[1].to_string(), b); }
                _ => {}
            }
        }
    }
    fn template(&mut self, path: &Path) {
        let t = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("template {}: {e}", path.display())));
        // template macros: `//@@ def NAME` .. `//@@ enddef`, then `//@@ use NAME A B` with $1, $2
        let mut all: Vec<String> = vec![]; let mut it = t.lines();
        while let Some(l) = it.next() {
            let w: Vec<&str> = l.trim_start().strip_prefix("//@@ ").map(|d| d.split_whitespace().collect()).unwrap_or_default();
            match w.first() {
                Some(&"def") => for l in it.by_ref() { if l.trim() == "//@@ enddef" { break } },
                Some(&"use") => self.expand_use(&l, &mut all),
                _ => all.push(l.to_string()),
            }
        }
        let mut lines = all.iter().map(|s| s.as_str()).peekable();
        while let Some(l) = lines.next() {
            let Some(d) = l.trim_start().strip_prefix("//@@ ") else { self.out.text.push_str(l); self.out.text.push('\n'); continue };
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "include" => { let p = path.parent().unwrap().join(w[1]); if self.included.insert(p.clone()) { self.template(&p) } }
                "trust" => self.out.trusted.push(d["trust".len()..].trim().to_string()),
                "grammar" => { let g = std::fs::read_to_string(self.src.root.join(w[1])).unwrap_or_else(|e| die(&format!("lost anchor {}: {e}", w[1]))); let s = grammar::spec(&g, &w[2..].iter().map(|s| s.to_string()).collect::<Vec<_>>(), &std::fs::read_to_string(path.parent().unwrap().join("lex.txt")).unwrap_or_default()).unwrap_or_else(|e| die(&e)); self.out.text.push_str(&s) }
                "item" => self.item(&w[1..]),
                "proto" => {
                    let src = std::fs::read_to_string(path.parent().unwrap().join("proto.src")).unwrap_or_else(|e| die(&e.to_string()));
                    let lock = std::fs::read_to_string(self.src.root.join("Cargo.lock")).unwrap_or_default();
                    let s = proto::select(&src, &lock, &w[1..]).unwrap_or_else(|e| die(&e)); self.out.text.push_str(&s);
                    self.out.trusted.push("plan message types as generated by prost for the locked substrait crate (fields and enum numbers from its source, recorded in proofs/proto.src); clone copies, default clears".into());
                }
                "pin" => {
                    let (a, b) = d["pin".len()..].trim().split_once(" => ").unwrap_or_else(|| die("bad pin"));
                    let (file, path) = a.trim().split_once(' ').unwrap_or_else(|| die("bad pin"));
                    let (f, _) = find_fn(self.src.file(file), path.trim()).unwrap_or_else(|| die(&format!("lost anchor: fn {path} in {file}")));
                    let st = &f.block.stmts; let got = norm(&st.iter().map(|s| quote::ToTokens::to_token_stream(s).to_string()).collect::<Vec<_>>().join(" "));
                    if got != norm(b) { die(&format!("structure changed: {path} in {file} is described by a trusted contract for the body `{b}`, which changed")) }
                    self.out.trusted.push(format!("{file}: {path} (body pinned to `{b}`) by a stated contract"));
                }
                "fn" => {
                    let mut f = FnDir { file: w[1].into(), ..Default::default() };
                    let rest = d["fn".len()..].trim_start()[w[1].len()..].trim();
                    // PATH may contain spaces inside <...>
                    let (p, opts) = if rest.starts_with('<') { let e = rest.find(">::").unwrap_or_else(|| die(&format!("bad path {rest}"))); let e2 = rest[e..].find(char::is_whitespace).map(|x| x + e).unwrap_or(rest.len()); (&rest[..e2], &rest[e2..]) } else { let e = rest.find(char::is_whitespace).unwrap_or(rest.len()); (&rest[..e], &rest[e..]) };
                    f.path = p.into();
                    for o in opts.split_whitespace() { if let Some(r) = o.strip_prefix("ret=") { f.ret = Some(r.into()) } else if let Some(r) = o.strip_prefix("as=") { f.rename = Some(r.into()) } else if o == "pub" { f.public = true } else if o == "anyloops" { f.anyloops = true } else { f.opts.insert(o.to_string()); } }
                    let mut cur: Option<String> = None; let mut buf = String::new();
                    let mut secs: Vec<(Option<String>, String)> = vec![];
                    loop {
                        let Some(l) = lines.next() else { die("fn without end") };
                        if let Some(d) = l.trim_start().strip_prefix("//@@ ") {
                            if let Some(a) = d.strip_prefix("attr ") { f.attrs.push(a.into()); continue }
                            if let Some(a) = d.strip_prefix("sub? ") { let (x, y) = a.split_once(" => ").unwrap_or_else(|| die("bad sub")); f.subs.push((format!("?{x}"), y.into())); continue }
                            if let Some(a) = d.strip_prefix("sub ") { let (x, y) = a.split_once(" => ").unwrap_or_else(|| die("bad sub")); f.subs.push((x.into(), y.into())); continue }
                            secs.push((cur.take(), std::mem::take(&mut buf)));
                            if d.trim() == "end" { break }
                            cur = Some(d.trim().to_string());
                        } else { buf.push_str(l); buf.push('\n') }
                    }
                    for (k, text) in secs {
                        match k {
                            None => f.contract = text,
                            Some(k) => { let kw: Vec<&str> = k.split_whitespace().collect();
                                if kw[0] == "loop" { let n: usize = kw[1].parse().unwrap_or_else(|_| die("loop N")); let it = kw.get(2).and_then(|x| x.strip_prefix("iter=")).map(String::from); if kw.get(2) == Some(&"seq") { f.seqs.insert(n); } f.loops.insert(n, (it, text)); }
                                else if kw[0] == "closure" { let n: usize = kw[1].parse().unwrap_or_else(|_| die("closure N")); let t = kw.get(2).and_then(|_| k.split_once("ret=")).map(|x| x.1.to_string()); f.closures.insert(n, (t, text)); }
                                else if kw[0] == "at" { f.ats.push((kw[1..].join(" "), text)) }
                                else { die(&format!("unknown section {k}")) } }
                        }
                    }
                    self.function(f);
                }
                x => die(&format!("unknown directive {x}")),
            }
        }
    }
    fn item(&mut self, w: &[&str]) {
        let (file, name) = (w[0], w[1]);
        let mut derive = String::new();
        let mut public = false;
        for o in &w[2..] { if let Some(d) = o.strip_prefix("derive=") { derive = d.replace(',', ", ") } if *o == "pub" { public = true } }
        let sub: Option<(String, String)> = w[2..].iter().find_map(|o| o.strip_prefix("sub=")).and_then(|x| x.split_once("=>")).map(|(a, b)| (a.to_string(), b.to_string()));
        let it = find_item(&self.src.file(file).items, name).cloned().unwrap_or_else(|| die(&format!("lost anchor: {name} in {file}")));
        let mut it = it;
        struct Strip(bool); impl syn::visit_mut::VisitMut for Strip {
            fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { a.clear() }
            fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) { if self.0 { *v = syn::parse_quote!(pub) } else { *v = syn::Visibility::Inherited } }
        }
        syn::visit_mut::VisitMut::visit_item_mut(&mut Strip(public), &mut it);
        let mut vis_fix = it.clone();
        if !public { match &mut vis_fix { syn::Item::Enum(e) => e.vis = syn::Visibility::Inherited, syn::Item::Struct(s) => { s.vis = syn::Visibility::Inherited; for f in s.fields.iter_mut() { f.vis = syn::Visibility::Inherited } } _ => {} } }
        else if let syn::Item::Struct(s) = &mut vis_fix { for f in s.fields.iter_mut() { f.vis = syn::parse_quote!(pub) } }
        if let syn::Item::Const(c) = &mut vis_fix { if let syn::Type::Reference(r) = &mut *c.ty { if r.lifetime.is_none() { r.lifetime = Some(syn::Lifetime::new("'static", proc_macro2::Span::call_site())) } } }
        // enum variants must not carry visibility
        let it = vis_fix;
        if w[2..].contains(&"exec") { if let syn::Item::Const(c) = &it {
            let (n, t, e) = (c.ident.to_string(), &c.ty, &c.expr);
            let f = |x: String| x.trim().to_string();
            let te = f(prettyplease::unparse(&syn::parse_quote!(const X: #t = #e;)).trim_start_matches("const X:").trim_end().trim_end_matches(';').to_string());
            let (ty, ex) = te.split_once(" = ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            self.out.text.push_str(&format!("exec const {n}: {ty}\n    ensures {n} == ({ex}),\n{{ {ex} }}\n"));
            self.prov.push(format!("{file}: {name}"));
            return;
        } }
        if !derive.is_empty() { self.out.text.push_str(&format!("#[derive({derive})]\n")) }
        let mut t = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] });
        if let Some((a, b)) = sub { let (a, b) = (a.replace('_', " "), b.replace('_', " ")); if !t.contains(&a) { die(&format!("lost anchor: `{a}` in {name}")) } t = t.replace(&a, &b); self.out.drops.insert(format!("{name}: `{a}` is read as `{b}`")); }
        self.out.text.push_str(&t);
        self.out.drops.insert("attributes, doc comments and derives of extracted types (derives needed by the proof are re-stated in the template)".into());
        self.prov.push(format!("{file}: {name}"));
    }
    fn function(&mut self, d: FnDir) {
        let (mut f, _imp) = match find_fn(self.src.file(&d.file), &d.path) { Some(x) => x, None => die(&format!("lost anchor: fn {} in {}", d.path, d.file)) };
        f.attrs.clear();
        f.vis = if d.public { syn::parse_quote!(pub) } else { syn::Visibility::Inherited };
        if let Some(n) = &d.rename { f.sig.ident = syn::Ident::new(n, f.sig.ident.span()) }
        let id = format!("k{}", self.out.fns.len());
        let mut rw = rewrite::Rw::new(&id, d.loops.iter().map(|(k, v)| (*k, v.0.clone())).collect(), self.vac, d.opts.clone());
        for it in &self.src.file(&d.file).items { if let syn::Item::Macro(m) = it { if let Some(i) = &m.ident { rw.macros.insert(i.to_string(), m.mac.tokens.clone()); } } }
        rw.seqs = d.seqs.clone(); rw.cspecs = d.closures.clone();
        rw.run(&mut f, d.ret.as_deref(), &d.ats);
        if let Some(e) = rw.error { die(&format!("cannot translate {} in {}: {e}", d.path, d.file)) }
        if !d.anyloops && rw.loops != d.loops.len() { die(&format!("structure changed: {} in {} has {} loops, the contract describes {}", d.path, d.file, rw.loops, d.loops.len())) }
        for x in &rw.drops { self.out.drops.insert(x.clone()); }
        // print through a dummy impl so that `self` is legal
        let file: syn::File = syn::parse_quote!(impl VxDummy { #f });
        let t = prettyplease::unparse(&file);
        let t = t.trim_end(); let t = &t[t.find('{').unwrap() + 1..t.len() - 1];
        let mut t = t.to_string();
        t = rewrite::ret_marker(&t);
        let spec = d.contract.clone();
        t = rewrite::subst_block(&t, &format!("__vx_spec!(\"{id}\");"), &spec);
        for (n, spec) in &rw.cout { t = rewrite::subst_block(&t, &format!("__vx_clo!(\"{id}\", {n});"), spec) }
        for n in d.closures.keys() { if *n >= rw.closures { die(&format!("structure changed: no closure {n} in {} of {}", d.path, d.file)) } }
        for n in &d.seqs {
            t = t.replace(&format!("__vx_g0!({n});"), &format!("let ghost __s{n} = __it{n}@; let ghost mut __n{n} = 0int;"));
            t = t.replace(&format!("__vx_g1!({n});"), &format!("proof {{ __n{n} = __n{n} + 1; }}"));
            if !t.contains(&format!("let ghost __s{n}")) { die(&format!("structure changed: loop {n} of {} in {} is no for loop", d.path, d.file)) }
        }
        let mut dl = d.loops.clone();
        for n in &d.seqs { let e = dl.get_mut(n).unwrap(); let x = e.1.trim_start(); let x = x.strip_prefix("invariant").filter(|y| y.starts_with(char::is_whitespace)).unwrap_or(x);
            let auto = format!("        0 <= __n{n} <= __s{n}.len(), __it{n}@ == __s{n}.skip(__n{n}),\n");
            let dec = if x.contains("decreases") { String::new() } else { format!("    decreases __s{n}.len() - __n{n}\n") };
            let y = e.1.clone();
            e.1 = if y.contains("invariant_except_break") { match y.find("    invariant\n") { Some(i) => format!("{}{auto}{}{dec}", &y[..i + 14], &y[i + 14..]), None => die("seq loop with invariant_except_break needs an invariant section") } } else { format!("    invariant\n{auto}{x}{dec}") } }
        for (n, (_, inv)) in &dl { t = rewrite::subst_block(&t, &format!("__vx_loop!(\"{id}\", {n});"), inv) }
        for n in 0..rw.loops { t = t.replace(&format!("__vx_loop!(\"{id}\", {n});"), "") }
        for (i, (k, p)) in d.ats.iter().enumerate() {
            let m = format!("__vx_at!(\"{id}\", {i});");
            if !t.contains(&m) { die(&format!("structure changed: no place `{k}` in {} of {}", d.path, d.file)) }
            t = t.replacen(&m, p, 1)
        }
        t = rewrite::iter_marker(&t);
        for (x, y) in &d.subs { if let Some(x) = x.strip_prefix('?') { if t.contains(x) { t = t.replace(x, y); self.out.drops.insert(format!("in {}: `{x}` is read as `{y}`", d.path)); } continue } if !t.contains(x.as_str()) { die(&format!("structure changed: no `{x}` in {} of {}", d.path, d.file)) } t = t.replace(x.as_str(), y); self.out.drops.insert(format!("in {}: `{x}` is read as `{y}`", d.path)); }
        // each function is discharged in a solver process of its own: its proof does not depend on its neighbours
        if self.spin && !d.opts.contains("nobody") && !d.attrs.iter().any(|a| a.contains("external_body")) { self.out.text.push_str("#[verifier::spinoff_prover]\n") }
        for a in &d.attrs { self.out.text.push_str(a); self.out.text.push('\n') }
        let start = self.line();
        self.out.text.push_str(&t); self.out.text.push('\n');
        let end = self.line();
        self.out.fns.push(FnMeta { name: d.path.clone(), file: d.file.clone(), start, end, loops: rw.loops, trusted: d.opts.contains("nobody") });
    }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "dump-grammar" { grammar::dump(&std::fs::read_to_string(&a[2]).unwrap()); return }
    if a.len() == 5 && a[1] == "dump-proto" { proto::dump(&a[2], &a[3], &a[4]); return }
    if a.len() < 5 { die("usage: vx REPO TEMPLATE OUT META [--vacuity]") }
    let mut g = Gen { src: Src { files: BTreeMap::new(), root: PathBuf::from(&a[1]) }, out: Out { text: String::new(), fns: vec![], drops: BTreeSet::new(), trusted: vec![] }, vac: a.iter().any(|x| x == "--vacuity"), spin: !a.iter().any(|x| x == "--nospin"), prov: vec![], included: BTreeSet::new(), defs: BTreeMap::new() };
    g.load_defs(Path::new(&a[2])); g.template(Path::new(&a[2]));
    std::fs::write(&a[3], &g.out.text).unwrap_or_else(|e| die(&e.to_string()));
    let fns: Vec<String> = g.out.fns.iter().map(|f| format!("{{\"name\":{},\"file\":{},\"start\":{},\"end\":{},\"loops\":{},\"trusted\":{}}}", js(&f.name), js(&f.file), f.start, f.end, f.loops, f.trusted)).collect();
    let list = |v: Vec<String>| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    let m = format!("{{\"functions\":[{}],\"drops\":[{}],\"items\":[{}],\"trusted\":[{}]}}\n", fns.join(","), list(g.out.drops.iter().cloned().collect()), list(g.prov.clone()), list(g.out.trusted.clone()));
    std::fs::write(&a[4], m).unwrap_or_else(|e| die(&e.to_string()));
}
