//! The plan message types: `dump` strips prost's generated source once (committed as proofs/proto.src, with the
//! crate checksum from Cargo.lock); `select` prints the types a template asks for, and what they refer to.
use std::collections::{BTreeMap, BTreeSet};
use quote::ToTokens;

fn clean(items: &mut Vec<syn::Item>) {
    items.retain(|i| matches!(i, syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Mod(_)));
    struct S; impl syn::visit_mut::VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) { let copy = a.iter().any(|x| x.path().is_ident("derive") && x.to_token_stream().to_string().contains("Copy")); let en = a.iter().find_map(|x| if x.path().is_ident("prost") { x.to_token_stream().to_string().split("enumeration = \"").nth(1).and_then(|y| y.split('"').next()).map(|y| y.to_string()) } else { None }).filter(|_| !a.iter().any(|x| x.to_token_stream().to_string().contains("repeated") || x.to_token_stream().to_string().contains("oneof"))); a.retain(|x| x.path().is_ident("repr")); if let Some(e) = en { a.push(syn::parse_quote!(#[en(#e)])) } if copy && a.is_empty() { a.push(syn::parse_quote!(#[copy])) } }
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            syn::visit_mut::visit_path_mut(self, p);
            let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
            if p.leading_colon.is_some() { let l = p.segments.last().unwrap().clone(); p.leading_colon = None; p.segments = Default::default(); if segs.last().unwrap() == "String" { *p = syn::parse_quote!(::std::string::String); return } if segs[0] == "pbjson_types" { p.segments.push(syn::parse_quote!(crate)); p.segments.push(syn::parse_quote!(pbjson_types)); } p.segments.push(l) }
        }
    }
    for i in items.iter_mut() { if let syn::Item::Mod(m) = i { m.attrs.clear(); if let Some((_, v)) = &mut m.content { clean(v) } } else { syn::visit_mut::VisitMut::visit_item_mut(&mut S, i) } }
}
pub fn dump(main: &str, ext: &str, sum: &str) {
    let mut a = syn::parse_file(&std::fs::read_to_string(main).unwrap()).unwrap(); clean(&mut a.items);
    let mut b = syn::parse_file(&std::fs::read_to_string(ext).unwrap()).unwrap(); clean(&mut b.items);
    let bi = b.items; a.items.push(syn::parse_quote!(pub mod extensions { #(#bi)* })); a.attrs.clear();
    println!("// substrait {sum}"); print!("{}", prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: a.items }));
}
struct Ty { path: Vec<String>, item: syn::Item }
fn collect(items: &[syn::Item], at: &[String], out: &mut BTreeMap<String, Ty>) {
    for i in items { match i {
        syn::Item::Mod(m) => { let mut p = at.to_vec(); p.push(m.ident.to_string()); collect(&m.content.as_ref().unwrap().1, &p, out) }
        syn::Item::Struct(s) => { let mut p = at.to_vec(); p.push(s.ident.to_string()); out.insert(p.join("::"), Ty { path: p, item: i.clone() }); }
        syn::Item::Enum(s) => { let mut p = at.to_vec(); p.push(s.ident.to_string()); out.insert(p.join("::"), Ty { path: p, item: i.clone() }); }
        _ => {}
    } }
}
fn refs(t: &Ty) -> Vec<String> {
    struct V<'a>(&'a [String], Vec<String>); impl<'a> syn::visit::Visit<'a> for V<'a> {
        fn visit_path(&mut self, p: &'a syn::Path) {
            syn::visit::visit_path(self, p);
            let mut cur: Vec<String> = self.0[..self.0.len() - 1].to_vec();
            for s in &p.segments { match s.ident.to_string().as_str() { "super" => { cur.pop(); } "self" => {} x => cur.push(x.to_string()) } }
            self.1.push(cur.join("::"));
        }
    }
    let mut v = V(&t.path, vec![]); syn::visit::Visit::visit_item(&mut v, &t.item); v.1
}
pub fn select(src: &str, lock: &str, w: &[&str]) -> Result<String, String> {
    let head = src.lines().next().unwrap_or("").trim_start_matches("// substrait ").to_string();
    let have = lock.split("[[package]]").find(|b| b.contains("name = \"substrait\"\n")).and_then(|b| b.split("checksum = \"").nth(1)).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
    if head != have { return Err(format!("structure changed: the plan types were recorded from substrait {head}, Cargo.lock has {have}")) }
    let f = syn::parse_file(src).map_err(|e| e.to_string())?;
    let mut all = BTreeMap::new(); collect(&f.items, &[], &mut all);
    let mut opaque: BTreeSet<String> = BTreeSet::new(); let mut nodefault = false;
    let mut todo: Vec<String> = vec![];
    for x in w { if let Some(o) = x.strip_prefix("opaque=") { for y in o.split(',') { opaque.insert(y.into()); } } else if *x == "nodefault" { nodefault = true } else { todo.push(x.to_string()) } }
    let mut want: BTreeSet<String> = BTreeSet::new();
    for t in &todo { if !all.contains_key(t) { return Err(format!("no plan type {t}")) } }
    while let Some(t) = todo.pop() { if !want.insert(t.clone()) || opaque.contains(&t) { continue } for r in refs(&all[&t]) { if all.contains_key(&r) { todo.push(r) } } }
    // print as a module tree
    #[derive(Default)] struct M { items: Vec<String>, subs: BTreeMap<String, M> }
    let mut root = M::default();
    for t in &want {
        let ty = &all[t]; let mut m = &mut root;
        for s in &ty.path[..ty.path.len() - 1] { m = m.subs.entry(s.clone()).or_default() }
        m.items.push(print(ty, opaque.contains(t), nodefault, &all, &want));
    }
    fn show(m: &M, o: &mut String) {
        for i in &m.items { o.push_str(i); o.push('\n') }
        for (n, s) in &m.subs { o.push_str(&format!("pub mod {n} {{\n    use vstd::prelude::*;\n")); show(s, o); o.push_str("}\n") }
    }
    let mut o = String::from("pub mod proto {\n    use vstd::prelude::*;\n"); show(&root, &mut o); o.push_str("}\n");
    Ok(o)
}
fn print(ty: &Ty, opaque: bool, nodefault: bool, all: &BTreeMap<String, Ty>, want: &BTreeSet<String>) -> String {
    let name = ty.path.last().unwrap();
    let clone = |n: &str| format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n");
    if opaque { return format!("#[verifier::external_body]\npub struct {name} {{ _p: () }}\n{}", clone(name)) }
    let mut item = ty.item.clone(); let mut copy = false;
    match &mut item { syn::Item::Struct(s) => { copy = s.attrs.iter().any(|a| a.path().is_ident("copy")); s.attrs.clear(); for f in s.fields.iter_mut() { f.attrs.clear() } } syn::Item::Enum(s) => { copy = s.attrs.iter().any(|a| a.path().is_ident("copy")); s.attrs.retain(|a| !a.path().is_ident("copy")); for v in s.variants.iter_mut() { v.attrs.clear() } } _ => {} }
    let clone = |n: &str| clone(n) + &if copy { format!("impl Copy for {n} {{}}\n") } else { String::new() };
    let text = prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![item] });
    match &ty.item {
        syn::Item::Enum(e) if e.variants.iter().all(|v| v.discriminant.is_some()) => {
            let num: Vec<String> = e.variants.iter().map(|v| format!("{name}::{} => {}i32", v.ident, v.discriminant.as_ref().unwrap().1.to_token_stream())).collect();
            let from: Vec<String> = e.variants.iter().map(|v| format!("v == {} ==> r == Ok::<{name}, crate::UnknownEnumValue>({name}::{})", v.discriminant.as_ref().unwrap().1.to_token_stream(), v.ident)).collect();
            let any: Vec<String> = e.variants.iter().map(|v| format!("v == {}", v.discriminant.as_ref().unwrap().1.to_token_stream())).collect();
            format!("{text}impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {name} {{}}\nimpl {name} {{\n    pub open spec fn num(self) -> i32 {{ match self {{ {} }} }}\n    pub open spec fn known(v: i32) -> bool {{ {} }}\n    #[verifier::external_body]\n    pub fn vx_try_from(v: i32) -> (r: Result<{name}, crate::UnknownEnumValue>)\n        ensures {}, !{name}::known(v) ==> r is Err\n    {{ unimplemented!() }}\n}}\n", num.join(", "), any.join(" || "), from.join(", "))
        }
        syn::Item::Struct(s) => {
            let copyable = false; let _ = (copyable, all);
            let mut o = format!("{text}{}", clone(name));
            if !nodefault {
                let c: Vec<String> = s.fields.iter().map(|f| { let n = f.ident.as_ref().unwrap(); let t: String = f.ty.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                    if t.starts_with("Option<") { format!("r.{n} is None") } else if t.starts_with("Vec<") { format!("r.{n}@.len() == 0") } else if t == "::std::string::String" { format!("r.{n}@.len() == 0") } else if t == "bool" { format!("!r.{n}") } else if ["i32", "u32", "i64", "u64"].contains(&t.as_str()) { format!("r.{n} == 0") } else { "true".into() } }).collect();
                o += &format!("impl Default for {name} {{ #[verifier::external_body] fn default() -> (r: Self) ensures {} {{ unimplemented!() }} }}\n", if c.is_empty() { "true".into() } else { c.join(", ") });
            }
            // prost's accessors of enumeration fields: the value, or the first one when the number is not known
            for f in &s.fields { if let Some(e) = f.attrs.iter().find(|a| a.path().is_ident("en")).and_then(|a| a.parse_args::<syn::LitStr>().ok()) { let (n, e) = (f.ident.as_ref().unwrap(), e.value());
                let mut cur: Vec<String> = ty.path[..ty.path.len() - 1].to_vec(); for x in e.split("::") { match x { "super" => { cur.pop(); } "self" => {} y => cur.push(y.to_string()) } }
                let Some(syn::Item::Enum(en)) = all.get(&cur.join("::")).map(|t| &t.item) else { continue };
                if !want.contains(&cur.join("::")) { continue }
                let first = &en.variants[0].ident;
                let opt = f.ty.to_token_stream().to_string().starts_with("Option");
                let v = if opt { format!("(if self.{n} is Some {{ self.{n}->0 }} else {{ {}i32 }})", en.variants[0].discriminant.as_ref().unwrap().1.to_token_stream()) } else { format!("self.{n}") };
                o += &format!("impl {name} {{ #[verifier::external_body] pub fn {n}(&self) -> (r: {e}) ensures {e}::known({v}) ==> r.num() == {v}, !{e}::known({v}) ==> r == {e}::{first} {{ unimplemented!() }} }}\n");
            } }
            o
        }
        _ => format!("{text}{}", clone(name)),
    }
}
