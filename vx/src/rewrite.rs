//! The mechanical rewrites applied to an extracted function. Each one that is applied is reported.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Stmt, parse_quote};
use quote::ToTokens;

pub struct Rw { id: String, iters: BTreeMap<usize, Option<String>>, vac: bool, pub loops: usize, pub drops: BTreeSet<String>, pub error: Option<String>, ats: Vec<(usize, String)>, opts: BTreeSet<String>,
    counts: BTreeMap<String, usize>, pending: Vec<String>, pub seqs: BTreeSet<usize>, pub closures: usize, pub cspecs: BTreeMap<usize, (Option<String>, String)>, pub cout: Vec<(usize, String)>, pub macros: BTreeMap<String, proc_macro2::TokenStream> }


fn lit(s: &str) -> syn::LitStr { syn::LitStr::new(s, proc_macro2::Span::call_site()) }
fn stmt_macro(name: &str, args: String) -> Stmt { syn::parse_str(&format!("{name}!({args});")).unwrap() }

struct Unroll { n: usize, bad: bool }
impl VisitMut for Unroll {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(c) = &*e { if c.method == "collect" { if let Expr::MethodCall(m) = &*c.receiver { if m.method == "map" && m.args.len() == 1 { if let Expr::Closure(k) = &m.args[0] { if k.inputs.len() == 1 {
            struct Q(bool); impl<'a> syn::visit::Visit<'a> for Q { fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true } fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true } fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {} }
            let mut q = Q(false); syn::visit::Visit::visit_expr(&mut q, &k.body); if q.0 { self.bad = true; return }
            let (p, b, r) = (k.inputs[0].clone(), k.body.clone(), m.receiver.clone());
            let p = match p { syn::Pat::Type(t) => *t.pat, p => p };
            let v = syn::Ident::new(&format!("__v{}", self.n), proc_macro2::Span::call_site()); self.n += 1;
            *e = parse_quote!({ let mut #v = Vec::new(); for #p in #r { let __e = #b; #v.push(__e); } #v });
        } } } } } }
        if let Expr::Unary(u) = &*e { if matches!(u.op, syn::UnOp::Deref(_)) { if let Expr::MethodCall(c) = &*u.expr { if c.method == "or_insert_with" { if let (Expr::MethodCall(m), Some(Expr::Closure(k))) = (&*c.receiver, c.args.first()) { if m.method == "entry" && k.inputs.is_empty() {
            let (map, key, body) = (m.receiver.clone(), m.args[0].clone(), k.body.clone()); self.n += 1;
            *e = parse_quote!({ let __k = #key; if let Some(__o) = #map.get(&__k) { *__o } else { let __w = #body; #map.insert(__k, __w); __w } });
        } } } } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Expands a macro with one rule whose pattern is a comma-separated list of `$x:kind`.
fn expand(rule: proc_macro2::TokenStream, args: proc_macro2::TokenStream) -> Option<Expr> {
    use proc_macro2::TokenTree as T;
    let r: Vec<T> = rule.into_iter().collect();
    let (T::Group(pat), T::Group(body)) = (r.first()?, r.get(3)?) else { return None };
    if r.len() > 5 { return None }
    let split = |s: proc_macro2::TokenStream| { let mut v: Vec<Vec<T>> = vec![vec![]]; for t in s { if matches!(&t, T::Punct(p) if p.as_char() == ',') { v.push(vec![]) } else { v.last_mut().unwrap().push(t) } } if v.last().unwrap().is_empty() { v.pop(); } v };
    let (ps, xs) = (split(pat.stream()), split(args));
    if ps.len() != xs.len() { return None }
    let mut map: BTreeMap<String, proc_macro2::TokenStream> = BTreeMap::new();
    for (p, x) in ps.iter().zip(xs) { if p.len() != 4 { return None } map.insert(p[1].to_string(), x.into_iter().collect()); }
    fn sub(s: proc_macro2::TokenStream, m: &BTreeMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
        let v: Vec<T> = s.into_iter().collect(); let mut o = proc_macro2::TokenStream::new(); let mut i = 0;
        while i < v.len() {
            match &v[i] { T::Punct(p) if p.as_char() == '$' => if let Some(x) = v.get(i + 1).and_then(|n| m.get(&n.to_string())) { o.extend(x.clone()); i += 2; continue }, T::Group(g) => { o.extend([T::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), m)))]); i += 1; continue } _ => {} }
            o.extend([v[i].clone()]); i += 1
        }
        o
    }
    let b = sub(body.stream(), &map);
    syn::parse2::<Expr>(b.clone()).ok().or_else(|| syn::parse2(quote::quote!({ #b })).ok())
}
struct Inline<'a> { name: &'a str, params: Vec<syn::Pat>, body: Block, n: usize }
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = &*e { if let Expr::Call(c) = &*t.expr { if c.func.to_token_stream().to_string() == self.name && c.args.len() == self.params.len() {
            let mut b = self.body.clone();
            let Some(Stmt::Expr(tail, None)) = b.stmts.pop() else { return };
            let mut v: Vec<Stmt> = vec![];
            // every argument is evaluated before a parameter comes into scope
            if self.params.len() == 1 { let (p, a) = (&self.params[0], &c.args[0]); v.push(parse_quote!(let #p = #a;)); }
            v.extend(b.stmts); v.push(Stmt::Expr(parse_quote!((#tail)?), None));
            *e = parse_quote!({ #(#v)* }); self.n += 1;
        } } }
    }
}
fn idents(t: proc_macro2::TokenStream, o: &mut BTreeSet<String>) {
    for x in t { match x { proc_macro2::TokenTree::Ident(i) => { o.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), o), _ => {} } }
}
/// Inlines the closure bound by `let [mut] name = |x: T| -> Result<_, E> { .. }` at its calls, all of which must be `name(x)?` in a function with the same error type.
fn inline(name: &str, f: &mut syn::ImplItemFn) -> Result<(), String> {
    let at = f.block.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(i) if i.ident == name))).ok_or("no such closure")?;
    let Stmt::Local(l) = f.block.stmts.remove(at) else { return Err("no binding".into()) };
    let Some(i) = l.init else { return Err("not initialised".into()) };
    let Expr::Closure(c) = *i.expr else { return Err("not a closure".into()) };
    let err = |t: &syn::ReturnType| -> Option<String> {
        let syn::ReturnType::Type(_, t) = t else { return None }; let syn::Type::Path(p) = &**t else { return None };
        let g = p.path.segments.last()?; if g.ident != "Result" { return None }
        let syn::PathArguments::AngleBracketed(a) = &g.arguments else { return None };
        if a.args.len() == 2 { Some(a.args[1].to_token_stream().to_string()) } else { None }
    };
    if err(&c.output).is_none() || err(&c.output) != err(&f.sig.output) { return Err("another error type".into()) }
    if c.inputs.len() > 1 { return Err("more than one parameter".into()) }
    let Expr::Block(b) = *c.body else { return Err("no block".into()) };
    let mut inner = BTreeSet::new(); let bb = &b.block; idents(quote::quote!(#bb), &mut inner);
    if inner.contains("return") || inner.contains(name) { return Err("return or recursion".into()) }
    if !matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) { return Err("no result".into()) }
    // nothing bound after the closure may capture a name its body uses
    for s in &f.block.stmts[at..] { if let Stmt::Local(l) = s { let mut p = BTreeSet::new(); idents(l.pat.to_token_stream(), &mut p); p.remove("mut"); if p.iter().any(|x| inner.contains(x)) { return Err("a name of its body is bound again".into()) } } }
    let mut v = Inline { name, params: c.inputs.into_iter().collect(), body: b.block, n: 0 };
    for s in &mut f.block.stmts[at..] { v.visit_stmt_mut(s) }
    let mut all = BTreeSet::new(); let bb = &f.block; idents(quote::quote!(#bb), &mut all);
    if v.n == 0 || all.contains(name) { return Err("used otherwise".into()) }
    Ok(())
}
enum Piece { Lit(String), Arg(Expr, bool) }

fn chain(e: &Expr) -> Vec<Expr> {
    match e { Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => { let mut v = chain(&b.left); v.extend(chain(&b.right)); v } _ => vec![e.clone()] }
}
fn ren_self(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    t.into_iter().map(|x| match x {
        T::Ident(i) if i == "self" => T::Ident(proc_macro2::Ident::new("vx_self", i.span())),
        T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), ren_self(g.stream()))),
        x => x,
    }).collect()
}
impl Rw {
    pub fn new(id: &str, iters: BTreeMap<usize, Option<String>>, vac: bool, opts: BTreeSet<String>) -> Rw { Rw { id: id.into(), iters, vac, loops: 0, drops: BTreeSet::new(), error: None, ats: vec![], opts, counts: BTreeMap::new(), pending: vec![], seqs: BTreeSet::new(), closures: 0, cspecs: BTreeMap::new(), cout: vec![], macros: BTreeMap::new() } }
    fn lib(&self, m: &str) -> bool { self.opts.iter().any(|o| o.strip_prefix("lib=").is_some_and(|l| l.split(',').any(|x| x == m))) }
    /// `lib=a>b` renames method a to b, `lib=@a>b` the last segment of a path used as a function.
    fn renamed(&self, m: &str) -> Option<String> { self.opts.iter().find_map(|o| o.strip_prefix("lib=").and_then(|l| l.split(',').find_map(|x| x.split_once('>').filter(|(a, _)| *a == m).map(|(_, b)| b.to_string())))) }
    fn drop(&mut self, s: &str) { self.drops.insert(s.to_string()); }
    fn fail(&mut self, s: String) { if self.error.is_none() { self.error = Some(s) } }
    pub fn run(&mut self, f: &mut syn::ImplItemFn, ret: Option<&str>, ats: &[(String, String)]) {
        self.ats = ats.iter().enumerate().map(|(i, (k, _))| (i, k.clone())).collect();
        if self.opts.contains("nobody") {
            let id = self.id.clone();
            f.block = parse_quote!({ unimplemented!() });
            f.block.stmts.insert(0, stmt_macro("__vx_spec", format!("\"{id}\"")));
            self.set_ret(f, ret);
            return;
        }
        let mut selfmut = false;
        if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first_mut() { if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; selfmut = true } }
        if selfmut {
            let b = &f.block; let t = ren_self(quote::quote!(#b));
            f.block = syn::parse2(t).unwrap();
            self.drop("`mut self` becomes `self` and a mutable local copy");
        }
        if self.opts.contains("unroll") { let mut u = Unroll { n: 0, bad: false }; u.visit_block_mut(&mut f.block); if u.n == 0 || u.bad { self.fail("no closure to unroll into a loop".into()) } self.drop("`xs.map(|x| e).collect()` with a closure that changes its environment becomes a loop pushing e; `*m.entry(k).or_insert_with(|| v)` becomes a lookup and, when absent, an insert"); }
        for o in self.opts.clone() { if let Some(n) = o.strip_prefix("inline=") {
            if let Err(e) = inline(n, f) { self.fail(format!("cannot inline the local closure {n}: {e}")) }
            self.drop("a local closure whose calls are all of the form `f(args)?` is inlined at its calls (`{ let params = args; body? }`)");
        } }
        self.visit_block_mut(&mut f.block);
        let mut head = vec![stmt_macro("__vx_spec", format!("\"{}\"", self.id))];
        if selfmut { head.push(parse_quote!(let mut vx_self = self;)) }
        for (i, k) in self.ats.clone() { if k == "start" { head.push(stmt_macro("__vx_at", format!("\"{}\", {i}", self.id))) } }
        if self.vac { head.push(parse_quote!(__vx_vac!();)) }
        for (i, k) in self.ats.clone() { if k == "tail" {
            let s = stmt_macro("__vx_at", format!("\"{}\", {i}", self.id));
            let n = f.block.stmts.len();
            if matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None))) { f.block.stmts.insert(n - 1, s) } else { f.block.stmts.push(s) }
        } }
        for s in head.into_iter().rev() { f.block.stmts.insert(0, s) }
        self.set_ret(f, ret);
    }
    fn set_ret(&mut self, f: &mut syn::ImplItemFn, ret: Option<&str>) {
        if let (Some(r), syn::ReturnType::Type(_, t)) = (ret, &f.sig.output) {
            let r = syn::Ident::new(r, proc_macro2::Span::call_site()); let t = t.clone();
            f.sig.output = parse_quote!(-> __vx_ret!(#r, #t));
        }
    }
    fn loop_body(&mut self, n: usize, b: &mut Block) {
        self.visit_block_mut(b);
        let mut head = vec![stmt_macro("__vx_loop", format!("\"{}\", {n}", self.id))];
        for (i, k) in self.ats.clone() {
            if k == format!("loop {n} start") { head.push(stmt_macro("__vx_at", format!("\"{}\", {i}", self.id))) }
            if k == format!("loop {n} end") { b.stmts.push(stmt_macro("__vx_at", format!("\"{}\", {i}", self.id))) }
        }
        for s in head.into_iter().rev() { b.stmts.insert(0, s) }
    }
    fn pieces(&mut self, args: &[Expr]) -> Option<Vec<Piece>> {
        let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = args.first() else { self.fail("format string is not a literal".into()); return None };
        let f: Vec<char> = f.value().chars().collect();
        let mut named: BTreeMap<String, Expr> = BTreeMap::new(); let mut pos: Vec<Expr> = vec![];
        for a in &args[1..] { if let Expr::Assign(x) = a { named.insert(x.left.to_token_stream().to_string(), (*x.right).clone()); } else { pos.push(a.clone()) } }
        let (mut out, mut cur, mut i, mut np) = (vec![], String::new(), 0, 0);
        while i < f.len() {
            match f[i] {
                '{' if f.get(i + 1) == Some(&'{') => { cur.push('{'); i += 2 }
                '}' => { cur.push('}'); i += 2 }
                '{' => {
                    let j = (i..f.len()).find(|j| f[*j] == '}')?;
                    let inner: String = f[i + 1..j].iter().collect();
                    let (n, spec) = inner.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or((inner.clone(), String::new()));
                    let mut e: Expr = if n.is_empty() { np += 1; match pos.get(np - 1) { Some(e) => e.clone(), None => { self.fail("format arguments".into()); return None } } }
                        else if let Ok(k) = n.parse::<usize>() { pos.get(k)?.clone() } else if let Some(e) = named.get(&n) { e.clone() } else { syn::parse_str(&n).ok()? };
                    let dbg = spec == "?";
                    if spec == "02x" { e = parse_quote!(VxHex2(#e)) } else if let (Ok(k), true) = (spec.parse::<usize>(), !spec.starts_with('0')) { e = parse_quote!(VxPad(&(#e), #k)) } else if !spec.is_empty() && !dbg { self.fail(format!("format specification {{:{spec}}}")); return None }
                    if !cur.is_empty() { out.push(Piece::Lit(std::mem::take(&mut cur))) }
                    out.push(Piece::Arg(e, dbg));
                    i = j + 1
                }
                c => { cur.push(c); i += 1 }
            }
        }
        if !cur.is_empty() { out.push(Piece::Lit(cur)) }
        Some(out)
    }
    fn mac(&mut self, m: &syn::Macro, stmt: bool) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || -> Option<Vec<Expr>> { m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect()) };
        if name.contains("assert") && m.tokens.to_string().contains("as_ptr") { self.drop("assertions comparing the addresses of strings are dropped"); return Some(parse_quote!(vx_assert(true))) }
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => { self.drop("panic!/unreachable!/unimplemented! become a call whose precondition is false"); Some(if stmt { parse_quote!(vx_unreachable::<()>()) } else { parse_quote!(vx_unreachable()) }) }
            "assert" | "debug_assert" => { let a = args()?; let c = &a[0]; self.drop("assert!/assert_eq! become calls whose precondition is the condition (messages dropped)"); Some(parse_quote!(vx_assert(#c))) }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => { let a = args()?; let (x, y) = (&a[0], &a[1]); self.drop("assert!/assert_eq! become calls whose precondition is the condition (messages dropped)");
                let none = |e: &Expr| e.to_token_stream().to_string() == "None";
                Some(if name == "assert_ne" { parse_quote!(vx_assert(#x != #y)) } else if none(y) { parse_quote!(vx_assert((#x).is_none())) } else { parse_quote!(vx_assert(#x == #y)) }) }
            "anyhow" => { self.drop("anyhow! becomes an arbitrary error"); Some(parse_quote!(anyhow::vx_error())) }
            "format" => {
                if self.opts.contains("fmtmodel") {
                    let a = args()?; let ps = self.pieces(&a)?;
                    self.drop("format! becomes the sequence of its literal pieces and Display calls");
                    let mut st: Vec<Stmt> = vec![parse_quote!(let mut __s = vx_new_string();)];
                    for p in ps { st.push(match p { Piece::Lit(l) => { let l = lit(&l); parse_quote!(vx_push_lit(&mut __s, #l);) } Piece::Arg(e, false) => parse_quote!(vx_push_disp(&mut __s, &(#e));), Piece::Arg(e, true) => parse_quote!(vx_push_dbg(&mut __s, &(#e));) }) }
                    Some(parse_quote!({ #(#st)* __s }))
                } else { self.drop("format! becomes an arbitrary string (error messages)"); Some(parse_quote!(vx_any_string())) }
            }
            "write" | "writeln" => {
                let a = args()?; let w = a[0].clone();
                let mut rest: Vec<Expr> = a[1..].to_vec();
                if name == "writeln" { if rest.is_empty() { rest.push(parse_quote!("\n")) } else if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = &rest[0] { let s = lit(&(f.value() + "\n")); rest[0] = parse_quote!(#s) } }
                let ps = self.pieces(&rest)?;
                self.drop("write!/writeln! becomes the sequence of its literal pieces and Display calls");
                let w: Expr = match &w { Expr::Path(_) => parse_quote!(&mut *#w), _ => w };
                let n = ps.len();
                let mut st: Vec<Expr> = vec![];
                for p in ps { st.push(match p { Piece::Lit(l) => { let l = lit(&l); parse_quote!(vx_w_lit(#w, #l)) } Piece::Arg(e, false) => parse_quote!(vx_w_disp(#w, &(#e))), Piece::Arg(e, true) => parse_quote!(vx_w_dbg(#w, &(#e))) }) }
                if n == 0 { return Some(parse_quote!(vx_ok_unit())) }
                let last = st.pop()?;
                Some(if st.is_empty() { last } else { parse_quote!({ #(#st?;)* #last }) })
            }
            _ => { let rule = self.macros.get(&name)?.clone(); match expand(rule, m.tokens.clone()) { Some(e) => { self.drop("macros of the same file are expanded"); Some(e) } None => { self.fail(format!("macro {name}")); None } } }
        }
    }
    /// `match x { P if g => A, rest }` becomes `match x { P => if g { A } else { match x { rest } }, rest }`.
    fn unguard(&mut self, m: &syn::ExprMatch) -> Expr {
        let Some(k) = m.arms.iter().position(|a| a.guard.is_some()) else { return Expr::Match(m.clone()) };
        let rest: Vec<syn::Arm> = m.arms[k + 1..].to_vec();
        let simple = matches!(&*m.expr, Expr::Path(_));
        let wild = rest.len() == 1 && matches!(rest[0].pat, syn::Pat::Wild(_)) && rest[0].guard.is_none();
        if !simple && !wild { return Expr::Match(m.clone()) }
        self.drop("match guards become an if inside the arm (the remaining arms are repeated in its else)");
        let x = &m.expr;
        // the arms before this one cannot match here: the else needs only those after it, and a last arm proved unreachable where they do not cover the type
        let covers = |a: &syn::Arm| a.guard.is_none() && match &a.pat { syn::Pat::Wild(_) => true, syn::Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_'), _ => false };
        let mut inner = rest.clone();
        if k > 0 && !inner.iter().any(covers) { for a in inner.iter_mut() { a.comma = Some(Default::default()) } inner.push(parse_quote!(_ => vx_unreachable(),)) }
        let other: Expr = if wild { (*rest[0].body).clone() } else { self.unguard(&syn::ExprMatch { attrs: vec![], match_token: m.match_token, expr: m.expr.clone(), brace_token: m.brace_token, arms: inner }) };
        let a = &m.arms[k]; let (p, g, b) = (&a.pat, &a.guard.as_ref().unwrap().1, &a.body);
        let mut arms: Vec<syn::Arm> = m.arms[..k].to_vec();
        arms.push(parse_quote!(#p => { if #g { #b } else { #other } }));
        // an identifier pattern matches everything: the remaining arms are only reached through its else
        let binds = match &a.pat { syn::Pat::Wild(_) => true, syn::Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_'), _ => false };
        if !binds {
            // the rest with its own guards made ifs; an unreachable last arm added for it is put behind all arms
            let mut rest = rest; let extra = rest.iter().any(|a| a.guard.is_some()) && !rest.iter().any(covers);
            if extra { for a in rest.iter_mut() { a.comma = Some(Default::default()) } rest.push(parse_quote!(_ => vx_unreachable(),)) }
            let r = self.unguard(&syn::ExprMatch { attrs: vec![], match_token: m.match_token, expr: m.expr.clone(), brace_token: m.brace_token, arms: rest });
            if let Expr::Match(mut r) = r { if extra { r.arms.pop(); } for mut x in r.arms { x.comma = Some(Default::default()); arms.push(x) } }
        }
        for a in arms.iter_mut() { a.comma = Some(Default::default()) }
        parse_quote!(match #x { #(#arms)* })
    }
    /// `&(a, ref b)` becomes `(a, b)` (matched through the reference), and `a` is dereferenced afterwards.
    fn unref(&mut self, p: &mut syn::Pat, derefs: &mut Vec<syn::Ident>) {
        fn strip(p: &mut syn::Pat, d: &mut Vec<syn::Ident>) {
            match p {
                syn::Pat::Ident(i) => { if i.by_ref.is_some() { i.by_ref = None } else { d.push(i.ident.clone()) } }
                syn::Pat::Tuple(t) => for e in t.elems.iter_mut() { match e { syn::Pat::Ident(_) => strip(e, d), syn::Pat::Reference(r) => { let mut q = (*r.pat).clone(); strip(&mut q, d); *e = q } _ => {} } },
                syn::Pat::TupleStruct(t) => for e in t.elems.iter_mut() { match e { syn::Pat::Ident(_) => strip(e, d), syn::Pat::Reference(r) => { let mut q = (*r.pat).clone(); strip(&mut q, d); *e = q } _ => {} } },
                _ => {}
            }
        }
        let n = match p {
            syn::Pat::Reference(r) => { let mut q = (*r.pat).clone(); strip(&mut q, derefs); q }
            syn::Pat::Tuple(t) => { for e in t.elems.iter_mut() { self.unref(e, derefs) } return }
            syn::Pat::TupleStruct(t) => { for e in t.elems.iter_mut() { self.unref(e, derefs) } return }
            _ => return,
        };
        *p = n; self.drop("reference patterns `&p` are matched through the reference and their copies dereferenced afterwards");
    }
    fn note_call(&mut self, n: String) { if self.ats.iter().any(|(_, k)| { let w: Vec<&str> = k.split_whitespace().collect(); w.len() == 3 && (w[0] == "after" || w[0] == "before") && w[2] == n }) { self.pending.push(n) } }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = std::mem::take(&mut self.pending);
        let mut out = vec![];
        // a constant of the block becomes a variable at its start
        let (consts, rest): (Vec<Stmt>, Vec<Stmt>) = std::mem::take(&mut b.stmts).into_iter().partition(|s| matches!(s, Stmt::Item(syn::Item::Const(_))));
        let consts: Vec<Stmt> = consts.into_iter().map(|s| { let Stmt::Item(syn::Item::Const(c)) = s else { unreachable!() }; let (i, t, e) = (c.ident, c.ty, c.expr); parse_quote!(let #i: #t = #e;) }).collect();
        for mut s in consts.into_iter().chain(rest) {
            // features: the default feature set is on, so `cfg(feature)` blocks stay and `cfg(not(feature))` blocks go
            if let Stmt::Expr(e, _) = &mut s {
                let attrs = match e { Expr::Block(b) => Some(&mut b.attrs), _ => None };
                if let Some(attrs) = attrs {
                    if attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("not (feature")) { self.drop("code for absent cargo features is left out (default features)"); continue }
                    if attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("(feature")) { attrs.clear() }
                }
            }
            if let Stmt::Macro(m) = &s { if m.mac.path.is_ident("eprintln") { self.drop("eprintln! (messages on standard error) is left out"); continue } }
            // statement macros
            if let Stmt::Macro(m) = &s {
                let semi = m.semi_token.is_some();
                if let Some(e) = self.mac(&m.mac, semi) { s = if semi { Stmt::Expr(e, Some(Default::default())) } else { Stmt::Expr(e, None) } }
                else { let mac = m.mac.clone(); let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac }); s = Stmt::Expr(e, m.semi_token) }
            }
            let mut derefs: Vec<syn::Ident> = vec![];
            if let Stmt::Local(l) = &mut s { l.attrs.clear(); self.unref(&mut l.pat, &mut derefs) }
            visit_mut::visit_stmt_mut(self, &mut s);
            let calls = std::mem::take(&mut self.pending);
            let (mut before, mut after) = (vec![], vec![]);
            for c in calls {
                let n = *self.counts.get(&c).unwrap_or(&0); self.counts.insert(c.clone(), n + 1);
                for (i, k) in &self.ats { let w: Vec<&str> = k.split_whitespace().collect(); if w.len() == 3 && w[2] == c && w[1] == n.to_string() { let m = stmt_macro("__vx_at", format!("\"{}\", {i}", self.id)); if w[0] == "after" { after.push(m) } else { before.push(m) } } }
            }
            out.extend(before); out.push(s); for d in derefs { out.push(parse_quote!(let #d = *#d;)) } out.extend(after);
        }
        b.stmts = out;
        self.pending = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Macro(m) => {
                if let Some(mut x) = self.mac(&m.mac.clone(), false) { self.visit_expr_mut(&mut x); *e = x; return }
                if m.mac.path.is_ident("vec") || m.mac.path.is_ident("matches") {
                    // rewrite inside vec![..] elements
                    if m.mac.path.is_ident("vec") { if let Ok(p) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) { let mut v: Vec<Expr> = p.into_iter().collect(); for x in v.iter_mut() { self.visit_expr_mut(x) } *e = parse_quote!(vec![#(#v),*]); } }
                }
            }
            Expr::Match(m) if m.arms.iter().any(|a| a.guard.is_some()) => {
                let x = self.unguard(m);
                *e = x;
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() { if a.guard.is_none() { let mut ds = vec![]; self.unref(&mut a.pat, &mut ds); if !ds.is_empty() { let b = &a.body; let ds: Vec<Stmt> = ds.into_iter().map(|d| parse_quote!(let #d = *#d;)).collect(); *a.body = parse_quote!({ #(#ds)* #b }) } } }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::If(f) if chain(&f.cond).len() > 1 && chain(&f.cond).iter().any(|c| matches!(c, Expr::Let(_))) => {
                // `if let P = x && c { A } else { B }` becomes nested ifs, each with the same else
                let parts = chain(&f.cond); let mut body: Block = f.then_branch.clone();
                for (i, c) in parts.iter().enumerate().rev() {
                    let x: Expr = match &f.else_branch { Some((_, b)) => parse_quote!(if #c #body else #b), None => parse_quote!(if #c #body) };
                    if i == 0 { *e = x; break }
                    body = parse_quote!({ #x });
                }
                self.drop("let chains become nested ifs (the else branch repeated)");
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::If(f) if matches!(&*f.cond, Expr::Let(_)) => {
                let mut ds = vec![]; if let Expr::Let(l) = &mut *f.cond { self.unref(&mut l.pat, &mut ds) }
                for d in ds.into_iter().rev() { f.then_branch.stmts.insert(0, parse_quote!(let #d = *#d;)) }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::While(w) => { let n = self.loops; self.loops += 1; self.visit_expr_mut(&mut w.cond); self.loop_body(n, &mut w.body) }
            Expr::Loop(l) => { let n = self.loops; self.loops += 1; self.loop_body(n, &mut l.body) }
            Expr::ForLoop(l) if self.seqs.contains(&self.loops) => {
                let n = self.loops; self.loops += 1;
                self.visit_expr_mut(&mut l.expr);
                self.loop_body(n, &mut l.body);
                self.drop("for loops over collections become while loops over the mirror iterator of the same elements");
                let it = quote::format_ident!("__it{n}");
                let x = &l.expr;
                let mut st = l.body.stmts.clone();
                let head = st.remove(0);
                let mut pat = (*l.pat).clone(); let mut ds = vec![]; self.unref(&mut pat, &mut ds);
                let p = &pat; let ds: Vec<Stmt> = ds.into_iter().map(|d| parse_quote!(let #d = *#d;)).collect();
                let lab = &l.label;
                let g0 = stmt_macro("__vx_g0", format!("{n}")); let g1 = stmt_macro("__vx_g1", format!("{n}"));
                *e = parse_quote!({ let mut #it = (#x).vx_elems(); #g0 #lab while #it.vx_more() { #head let #p = #it.vx_take(); #(#ds)* #g1 #(#st)* } });
            }
            Expr::ForLoop(l) => {
                let n = self.loops; self.loops += 1;
                self.visit_expr_mut(&mut l.expr);
                self.loop_body(n, &mut l.body);
                if let Some(Some(it)) = self.iters.get(&n) { let it = syn::Ident::new(it, proc_macro2::Span::call_site()); let x = &l.expr; *l.expr = parse_quote!(__vx_iter!(#it, #x)); }
            }
            Expr::Closure(c) => {
                let mut pre: Vec<Stmt> = vec![];
                let cn = self.closures; self.closures += 1;
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    let mut ds = vec![]; self.unref(p, &mut ds);
                    if !ds.is_empty() { let id = quote::format_ident!("__vx{i}"); let q = p.clone(); pre.push(parse_quote!(let #q = #id;)); for d in ds { pre.push(parse_quote!(let #d = *#d;)) } *p = parse_quote!(#id); continue }
                    match p {
                        syn::Pat::Ident(_) | syn::Pat::Type(_) => {}
                        syn::Pat::Wild(_) => { let id = quote::format_ident!("_vx{i}"); *p = parse_quote!(#id) }
                        _ => { let id = quote::format_ident!("__vx{i}"); let q = p.clone(); pre.push(parse_quote!(let #q = #id;)); *p = parse_quote!(#id) }
                    }
                }
                self.visit_expr_mut(&mut c.body);
                let auto = self.opts.contains("pure") || self.opts.iter().any(|o| o.strip_prefix("pure=").is_some_and(|l| l.split(',').any(|x| x == cn.to_string())));
                if let Some((ty, spec)) = self.cspecs.get(&cn).cloned() {
                    let t: syn::Type = match &ty { Some(t) => syn::parse_str(t).unwrap(), None => parse_quote!(_) };
                    let b = &c.body; let m = stmt_macro("__vx_clo", format!("\"{}\", {cn}", self.id));
                    *c.body = parse_quote!({ #m #(#pre)* #b }); c.output = parse_quote!(-> __vx_ret!(vx_r, #t));
                    self.cout.push((cn, spec)); if !pre.is_empty() { self.drop("closure parameter patterns become a let inside the closure") }
                    return;
                }
                let txt = c.body.to_token_stream().to_string();
                if auto && !["to_string", "clone", "vx_any_string", "to_owned", "?", "vx_unreachable", "into"].iter().any(|x| txt.contains(x)) {
                    let b = &c.body; let m = stmt_macro("__vx_clo", format!("\"{}\", {cn}", self.id));
                    let spec: Expr = parse_quote!({ #(#pre)* #b });
                    self.cout.push((cn, format!("ensures vx_same(vx_r, ({}))", spec.to_token_stream())));
                    *c.body = parse_quote!({ #m #(#pre)* #b }); c.output = parse_quote!(-> __vx_ret!(vx_r, _));
                    self.drop("closures read as pure functions get their own body as postcondition");
                    return;
                }
                if !pre.is_empty() { let b = &c.body; *c.body = parse_quote!({ #(#pre)* #b }); self.drop("closure parameter patterns become a let inside the closure") }
                return;
            }
            Expr::Call(c) => { if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); visit_mut::visit_expr_mut(self, e); self.note_call(n); return } visit_mut::visit_expr_mut(self, e) }
            Expr::MethodCall(c) if c.method == "contains" && c.args.len() == 1 && matches!(&*c.receiver, Expr::Paren(p) if matches!(&*p.expr, Expr::Range(r) if r.start.is_some() && r.end.is_some())) => {
                // `(a..=b).contains(x)` is a comparison
                let Expr::Paren(p) = &*c.receiver else { unreachable!() }; let Expr::Range(r) = &*p.expr else { unreachable!() };
                let (a, b, x) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap(), &c.args[0]);
                let y: Expr = match x { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote!(*#x) };
                let n: Expr = if matches!(r.limits, syn::RangeLimits::Closed(_)) { parse_quote!((#a <= #y && #y <= #b)) } else { parse_quote!((#a <= #y && #y < #b)) };
                *e = n; visit_mut::visit_expr_mut(self, e)
            }
            Expr::MethodCall(c) if self.renamed(&c.method.to_string()).is_some() => { let n = c.method.to_string(); let m = self.renamed(&n).unwrap(); self.drop("string, slice, map, iterator and conversion methods of std are read as the mirror library's method"); c.method = quote::format_ident!("{m}"); visit_mut::visit_expr_mut(self, e); self.note_call(n) }
            Expr::Path(p) if p.path.segments.len() + p.qself.iter().len() > 1 && self.renamed(&format!("@{}", p.path.segments.last().unwrap().ident)).is_some() => {
                let n = p.path.segments.last().unwrap().ident.to_string(); let m = self.renamed(&format!("@{n}")).unwrap();
                self.drop("string, slice, map, iterator and conversion methods of std are read as the mirror library's method");
                p.path.segments.last_mut().unwrap().ident = quote::format_ident!("{m}");
            }
            Expr::MethodCall(c) if self.lib(&c.method.to_string()) => { let n = c.method.to_string(); self.drop("string, slice, map and iterator methods of std are read as the mirror library's method of the same name"); c.method = quote::format_ident!("vx_{n}"); visit_mut::visit_expr_mut(self, e); self.note_call(n) }
            Expr::MethodCall(c) => { let n = c.method.to_string(); visit_mut::visit_expr_mut(self, e); self.note_call(n) }
            Expr::Reference(r) if self.lib("[..]") && matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))) => {
                let Expr::Index(i) = &*r.expr else { unreachable!() }; let Expr::Range(g) = &*i.index else { unreachable!() };
                let x = &i.expr;
                let n: Expr = match (&g.start, &g.end, matches!(g.limits, syn::RangeLimits::HalfOpen(_))) {
                    (None, Some(b), true) => parse_quote!((#x).vx_to(#b)), (Some(a), None, _) => parse_quote!((#x).vx_from(#a)), (Some(a), Some(b), true) => parse_quote!((#x).vx_range(#a, #b)), _ => { visit_mut::visit_expr_mut(self, e); return } };
                self.drop("&x[a..b] is read as the mirror library's slicing");
                *e = n; visit_mut::visit_expr_mut(self, e)
            }
            Expr::Index(i) if self.lib("[..]") && matches!(&*i.index, Expr::Range(_)) => {
                let x = e.clone(); let mut r: Expr = parse_quote!(&#x); self.visit_expr_mut(&mut r); *e = r
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `__vx_ret!(r, T)` -> `(r: T)`
pub fn ret_marker(t: &str) -> String { marker(t, "__vx_ret!(", |a, b| format!("({a}: {b})")) }
pub fn iter_marker(t: &str) -> String { marker(t, "__vx_iter!(", |a, b| format!("{a}: {b}")) }
fn marker(t: &str, m: &str, f: impl Fn(&str, &str) -> String) -> String {
    let mut s = t.to_string();
    while let Some(i) = s.find(m) {
        let mut d = 1; let mut j = i + m.len();
        let b = s.as_bytes();
        while d > 0 { match b[j] { b'(' => d += 1, b')' => d -= 1, _ => {} } j += 1 }
        let inner = s[i + m.len()..j - 1].to_string();
        let (a, r) = inner.split_once(',').unwrap();
        s = format!("{}{}{}", &s[..i], f(a.trim(), r.trim()), &s[j..]);
    }
    s
}
/// Moves the text of a contract in front of the `{` that precedes its marker.
pub fn subst_block(t: &str, m: &str, text: &str) -> String {
    let Some(i) = t.find(m) else { return t.to_string() };
    let open = t[..i].rfind('{').unwrap();
    format!("{}\n{}\n{{{}{}", t[..open].trim_end(), text.trim_end(), &t[open + 1..i], &t[i + m.len()..]).replace("__vx_vac!();", "assert(false);")
}
