//! Large instances: every list, name, number and nesting level of the format at sizes a small exhaustive
//! family does not reach (thresholds such as 16, 32, 64, 128, 256, 1000 hide in code, not in the statement).
use crate::checks::*;
use crate::cx::*;
use crate::ext::{NAMES, URLS};
use crate::model::*;

const N: [usize; 12] = [5, 8, 10, 11, 16, 17, 32, 33, 64, 65, 130, 260];
fn s(v: &str) -> Ex { Ex::Lit(Lit { v: LitV::Str(v.into()), nullable: false }) }
fn call(f: u32, args: Vec<Ex>) -> Call { Call { f, args, ty: i64t() } }
fn id(n: usize) -> Vec<i32> { (0..n as i32).collect() }

pub fn run(p: &str, c: &mut Cx) {
    let start = c.evals;
    let tb = tab(&[(1, "sum"), (2, "f")], &[(1, "pt")]);
    let one = [Opts::default()];
    let ns: Vec<usize> = N.to_vec();
    match p {
        "P01" => for n in [50usize, 100, 128, 255, 256, 257, 1000, 4097] {
            for base in ["a", "é", "\"", "'", "\\", "\n", "a'", "u{", "\u{301}", "0", "x\u{0}", "日本"] {
                let t: String = base.chars().cycle().take(n).collect();
                for v in [t.clone(), format!("a{t}"), format!("{t}z"), format!("{t}\\"), format!("{t}'\"")] {
                    c.both_with(&ex_doc(s(&v), Table::default()), &one);
                    c.both_with(&Doc { tops: vec![Top::Root(vec![v.clone(), "b".into()], node(Rel::Read { names: vec![v.clone(), "b".into()], cols: vec![(v.clone(), i64t())], map: None }, vec![]))], ..Default::default() }, &one);
                    if !c.ok() { return; }
                }
            }
        },
        "P02" => for n in &ns {
            for sg in ["", "-"] { for k in [1usize, 9] {
                // long spellings of a number (leading zeros are part of the grammar), and numbers just too long
                let z = format!("{sg}{}{k}", "0".repeat(*n));
                let v: i64 = format!("{sg}{k}").parse().unwrap();
                c.accepts(&ex_text(&z), &proto(&ex_doc(int(v), Table::default())));
                if *n > 19 { c.rejects(&ex_text(&format!("{sg}{k}{}", "0".repeat(*n)))); }
            } }
        },
        "P04" => for n in [5usize, 8, 10, 16, 17, 20, 32, 33, 40] {
            let mut t = i64t(); for k in 0..n { t = Ty::L(Box::new(t), k % 3 == 0); }
            c.both(&ty_doc(t.clone(), Table::default()));
            let mut u = Ty::U(1, vec![], true); for k in 0..n { u = Ty::U(1, vec![TP::I(k as i64), TP::T(u)], k % 2 == 0); }
            c.both(&ty_doc(u, tb.clone()));
            c.both(&ty_doc(Ty::U(1, (0..n).map(|k| if k % 2 == 0 { TP::I(-(k as i64)) } else { TP::T(i64t()) }).collect(), false), tb.clone()));
        },
        "P05" => for n in &ns {
            let w = *n;
            let mut outs = vec![id(w), id(w).into_iter().rev().collect(), id(w - 1), (1..w as i32).collect(), id(w).into_iter().chain([0]).collect::<Vec<_>>(), vec![w as i32 - 1], vec![]];
            let mut sw = id(w); sw.swap(w - 2, w - 1); outs.push(sw);
            let mut dup = id(w); dup[w - 1] = dup[w - 2]; outs.push(dup);
            for out in outs {
                c.both_with(&doc1(node(Rel::Filter { cond: boolean(true), out: out.clone() }, vec![read_n(w)])), &one);
                c.both_with(&doc1(node(Rel::Set { op: 6, out: out.clone() }, vec![read_n(w), read_n(w)])), &one);
                c.both_with(&doc1(node(Rel::Cross { out: out.clone() }, vec![read_n(w / 2), read_n(w - w / 2)])), &one);
                for jt in [1, 5, 8, 11] { let (l, r) = if jt == 5 { (w, 3) } else if jt == 8 { (3, w) } else if jt == 11 { (w - 1, 3) } else { (w / 2, w - w / 2) }; c.both_with(&doc1(node(Rel::Join { ty: jt, cond: boolean(true), post: None, out: out.clone() }, vec![read_n(l), read_n(r)])), &one); }
                if let Rel::Read { names, cols, .. } = read_n(w).rel { c.both_with(&doc1(node(Rel::Read { names, cols, map: Some(out.clone()) }, vec![])), &one); }
                c.both_with(&doc1(node(Rel::Project { items: out.iter().map(|i| PI::Ref(*i)).chain([PI::Ex(int(1))]).collect() }, vec![read_n(w)])), &one);
                if !c.ok() { return; }
            }
            let items: Vec<PI> = (0..w).flat_map(|k| [PI::Ex(int(k as i64)), PI::Ref(k as i32)]).collect();
            c.both_with(&doc1(node(Rel::Project { items }, vec![read_n(w)])), &one);
            // aggregates: groupings, then measures
            let sets = vec![(0..w as i32).map(Ex::Ref).collect::<Vec<_>>()];
            let outs: Vec<AO> = (0..w).map(AO::G).chain((0..w).map(|k| AO::M(call(1, vec![Ex::Ref(k as i32)])))).collect();
            c.both_with(&with_tab(node(Rel::Agg { sets: sets.clone(), outs: outs.clone() }, vec![read_n(w)]), tb.clone()), &one);
            c.both_with(&with_tab(node(Rel::Agg { sets, outs: outs.into_iter().rev().collect() }, vec![read_n(w)]), tb.clone()), &one);
        },
        "P06" => for n in &ns {
            for step in [1u32, 7, 1000, 16_000_000] {
                let a = |k: usize| 1 + k as u32 * step;
                let t = Table { urns: (0..*n).map(|k| (a(k), format!("urn:x:{k}"))).collect(), decls: (0..*n).flat_map(|k| [XK::Function, XK::Type, XK::Variation].map(|x| Decl { k: x, anchor: a(k), urn: a(n - 1 - k), name: format!("n{k}") })).collect() };
                c.both_with(&with_tab(read_n(1), t.clone()), &one);
                // the same declarations written in reverse, and one repeated at the end
                let tx = text(&with_tab(read_n(1), t.clone()), &Opts::default());
                let last = format!("  #{:3} @{:3}: n0", a(0), a(n - 1));
                if let Some((x, y)) = tx.split_once("Types:") { c.rejects(&format!("{x}{last}\nTypes:{y}")); }
                if let Some((x, y)) = tx.split_once("Functions:") { c.rejects(&format!("{x}  @{}: urn:x:0\nFunctions:{y}", a(0))); c.rejects(&format!("{x}  @{}: other\nFunctions:{y}", a(n - 1))); }
                if !c.ok() { return; }
            }
            let long = "n".repeat(*n);
            let t = Table { urns: vec![(1, format!("urn:{}", "u".repeat(*n)))], decls: [format!("{long}a"), format!("{long}b"), long.clone(), format!("{long}:i64"), format!("{long}:{long}")].iter().enumerate().map(|(k, s)| Decl { k: XK::Function, anchor: k as u32, urn: 1, name: s.clone() }).collect() };
            c.both(&with_tab(read_n(1), t));
        },
        "P07" => for n in &ns {
            // long names that share a prefix, many overloads, many anchors
            let long = "n".repeat(*n);
            let names: Vec<String> = vec![format!("{long}a"), format!("{long}b"), long.clone(), format!("{long}c:i64_{}", "i64_".repeat(*n).trim_end_matches('_')), format!("{long}c:i64_{}", "i64_".repeat(n + 1).trim_end_matches('_'))];
            let fs: Vec<(u32, &str)> = names.iter().enumerate().map(|(k, s)| (k as u32 + 3, s.as_str())).collect();
            let tb = tab(&fs, &[(3, &names[0]), (5, &names[1]), (9, &names[2])]);
            for (a, _) in &fs { c.both(&ex_doc(Ex::Call(call(*a, vec![])), tb.clone())); }
            for a in [3, 5, 9] { c.both(&ty_doc(Ty::U(a, vec![], false), tb.clone())); }
            let many: Vec<String> = (0..*n).map(|k| format!("g:v{k}")).collect();
            let fs: Vec<(u32, &str)> = many.iter().enumerate().map(|(k, s)| (k as u32 * 3 + 1, s.as_str())).chain([(2, "h"), (5, "g:v0")]).collect();
            let tb = tab(&fs, &[]);
            for (a, _) in fs.iter().rev().take(40) { c.both(&ex_doc(Ex::Call(call(*a, vec![])), tb.clone())); }
            if !c.ok() { return; }
        },
        "P08" => {
            for n in [8usize, 10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 80, 100, 130] {
                let mut x = read_n(1);
                for k in 0..n { x = node(Rel::Filter { cond: int(k as i64), out: vec![0] }, vec![x]); }
                c.both_with(&doc1(x.clone()), &one);
                c.both_with(&Doc { tops: vec![Top::Root(vec!["a".into()], x.clone()), Top::Rel(x.clone())], ..Default::default() }, &one);
                // right-deep and left-deep pairs with addenda at every level
                for left in [true, false] {
                    let mut y = read_n(1);
                    for k in 0..n.min(70) { let o = read_named(&format!("u{k}"), 1); let ins = if left { vec![y, o] } else { vec![o, y] }; y = Node { rel: Rel::Set { op: 6, out: vec![0] }, adds: if k % 5 == 0 { vec![Add { k: AddK::Opt, name: NAMES[0].into(), url: URLS[0].into(), args: XArgs { pos: vec![XVal::Int(k as i64)], ..Default::default() } }] } else { vec![] }, inputs: ins }; }
                    c.both_with(&doc1(y), &one);
                }
                // one level too deep at the bottom
                let t = text(&doc1(x), &Opts::default());
                let (a, b) = t.trim_end().rsplit_once('\n').unwrap();
                c.rejects(&format!("{a}\n  {b}\n"));
                c.rejects(&format!("{t}{}Read[z => c0:i64]\n", "  ".repeat(n + 2)));
                // many siblings, many top-level relations
                c.both_with(&doc1(node(Rel::Set { op: 6, out: vec![0] }, (0..n).map(|k| read_named(&format!("u{k}"), 1)).collect())), &one);
                c.both_with(&Doc { tops: (0..n).map(|k| Top::Rel(read_named(&format!("u{k}"), 1))).collect(), ..Default::default() }, &one);
                c.both_with(&doc1(Node { rel: Rel::Filter { cond: boolean(true), out: vec![0] }, adds: (0..n).map(|k| Add { k: AddK::Opt, name: NAMES[0].into(), url: URLS[0].into(), args: XArgs { pos: vec![XVal::Int(k as i64)], ..Default::default() } }).collect(), inputs: vec![read_n(1)] }), &one);
                if !c.ok() { return; }
            }
        }
        "P09" => for n in [9usize, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4096, 65535, 65536, 70000] {
            let blanks = "\n".repeat(n);
            c.accepts(&format!("{blanks}=== Plan\n{blanks}Read[t => c0:i64]\n{blanks}"), &proto(&doc1(read_n(1))));
            c.rejects_at(&format!("=== Plan\n{blanks}Read[t => c0:u32]\n"), n as i64 + 2);
            c.rejects_at(&format!("=== Extensions\n{blanks}junk\n"), n as i64 + 2);
            c.rejects_at(&format!("{blanks}junk\n"), n as i64 + 1);
            if n < 2000 {
                let rows: Vec<Vec<Ex>> = (0..n).map(|i| vec![int(i as i64)]).collect();
                let v = node(Rel::Virt { rows, filter: Some(boolean(true)), cols: vec![("a".into(), i64t())] }, vec![]);
                let d = Doc { tops: vec![Top::Rel(v), Top::Rel(read_n(1))], ..Default::default() };
                c.both_with(&d, &[Opts::default(), Opts { threshold: 5000, ..Default::default() }]);
                // an error after a multi-line relation names its own line
                let t = text(&d, &Opts::default());
                let l = t.lines().count() as i64;
                c.rejects_at(&t.replace("c0:i64", "c0:u32"), l);
                c.rejects_at(&t.replace("Read[t", "Reed[t"), l);
                c.rejects_at(&t.replace(&format!("({}),", n / 2), &format!("({}", n / 2)), 2);
            }
            let long = "p".repeat(n.min(5000));
            c.both_with(&Doc { ver: Some(Ver { n: (n as u32, 0, u32::MAX), producer: long.clone(), git: long }), ..doc1(read_n(1)) }, &one);
            if !c.ok() { return; }
        },
        "P10" => for n in &ns {
            let set = |bad: usize| doc1(node(Rel::Set { op: 5, out: vec![0] }, (0..*n).map(|k| read_n(if k == bad { 2 } else { 1 })).collect()));
            c.both_with(&set(usize::MAX), &one);
            for bad in [0, 1, n / 2, n - 1] { c.rejects(&text(&set(bad), &Opts::default())); }
            for (l, k) in [("Filter[true => $0]", 1), ("Project[$0]", 1), ("Cross[$0]", 2), ("Join[&Inner, true => $0]", 2), ("Read[t => c:i64]", 0), ("Sort[($0, &AscNullsFirst) => $0]", 1), ("Fetch[limit=1 => $0]", 1), ("Aggregate[$0 => $0]", 1)] { if *n > k { c.rejects(&format!("=== Plan\n{l}\n{}", "  Read[t => c:i64]\n".repeat(*n))); } }
            c.rejects(&format!("=== Plan\nFetch[limit=1, {} => $0]\n  Read[t => c:i64]\n", (0..*n).map(|_| "offset=2").collect::<Vec<_>>().join(", ")));
            c.rejects(&format!("=== Plan\nFetch[limit=-{}1 => $0]\n  Read[t => c:i64]\n", "0".repeat(*n)));
            // a deep malformed relation is still malformed
            let mut t = String::from("=== Plan\n");
            for k in 0..*n.min(&60) { t += &format!("{}Filter[true => $0]\n", "  ".repeat(k)); }
            c.rejects(&t);
            let k = *n.min(&60);
            c.rejects(&format!("{t}{0}Read[t => c:i64]\n{0}Read[u => c:i64]\n", "  ".repeat(k)));
            c.rejects(&format!("{t}{0}Read[t => c:i64]\n{0}  + Enh:Zed[_]\n{1}{0}  + Enh:Zed[_]\n", "  ".repeat(k), format!("{}  + Opt:Zed[_]\n", "  ".repeat(k)).repeat(*n)));
            if !c.ok() { return; }
        },
        "P11" => for n in &ns {
            let d1 = |x: Node| with_tab(x, tb.clone());
            let es: Vec<Ex> = (0..*n).map(|k| Ex::Call(call(2, vec![int(k as i64), s(&"q".repeat(k))]))).collect();
            c.both_with(&d1(node(Rel::Project { items: es.iter().cloned().map(PI::Ex).collect() }, vec![read_n(1)])), &one);
            c.both(&ex_doc(Ex::Call(call(2, es.clone())), tb.clone()));
            c.both(&ex_doc(Ex::If(es.iter().map(|e| (e.clone(), int(1))).collect(), Box::new(int(2))), tb.clone()));
            c.both_with(&d1(node(Rel::Sort { fields: es.iter().enumerate().map(|(k, e)| (e.clone(), SORT_DIRS[k % 5].0)).collect(), out: vec![0] }, vec![read_n(1)])), &one);
            c.both_with(&d1(node(Rel::Virt { rows: (0..*n).map(|k| vec![es[k].clone(), int(0)]).collect(), filter: None, cols: vec![("a".into(), i64t()), ("b".into(), i64t())] }, vec![])), &one);
            c.both_with(&d1(node(Rel::Virt { rows: vec![es.clone(), es.iter().rev().cloned().collect()], filter: Some(es[n - 1].clone()), cols: (0..*n).map(|k| (format!("c{k}"), i64t())).collect() }, vec![])), &one);
            c.both_with(&d1(node(Rel::Read { names: (0..*n).map(|k| format!("n{k}")).collect(), cols: (0..*n).map(|k| (format!("c{k}"), i64t())).collect(), map: None }, vec![])), &one);
            c.both_with(&Doc { tops: vec![Top::Root((0..*n).map(|k| format!("r{k}")).collect(), read_n(1))], ..Default::default() }, &one);
            let mut e = Ex::Ref(*n as i32);
            // nesting doubles the parser's work per level in some forms: keep it moderate
            for k in 0..(*n).min(12) { e = match k % 3 { 0 => Ex::Call(call(2, vec![e])), 1 => Ex::Cast(Box::new(e), 0, i64t()), _ => Ex::If(vec![(boolean(true), e)], Box::new(int(k as i64))) }; }
            c.both(&ex_doc(e, tb.clone()));
            if !c.ok() { return; }
        },
        "P12" => for n in &ns {
            // long grouping expressions that differ only at the end or only in the middle
            let l = "k".repeat(*n);
            let g: Vec<Ex> = vec![s(&format!("{l}a")), s(&format!("{l}b")), s(&l), Ex::Call(call(2, vec![s(&l), int(1)])), Ex::Call(call(2, vec![s(&l), int(2)])), Ex::Call(call(2, vec![s(&format!("a{l}")), int(2)])), Ex::Cast(Box::new(s(&l)), 0, i64t()), Ex::Cast(Box::new(s(&l)), 0, Ty::S(Simple::I32, false))];
            let m = |k: i32| AO::M(call(1, vec![s(&l), Ex::Ref(k)]));
            let outs: Vec<AO> = (0..g.len()).rev().map(AO::G).chain([m(0), m(1)]).collect();
            c.both_with(&with_tab(node(Rel::Agg { sets: vec![g.clone()], outs: outs.clone() }, vec![read_n(1)]), tb.clone()), &one);
            c.both_with(&with_tab(node(Rel::Agg { sets: vec![g.clone(), g.iter().rev().cloned().collect(), vec![], vec![g[4].clone(), g[1].clone()]], outs }, vec![read_n(1)]), tb.clone()), &one);
            // a measure that looks like a grouping up to its end
            let gg = vec![Ex::Call(call(2, vec![s(&l), int(1)]))];
            c.both_with(&with_tab(node(Rel::Agg { sets: vec![gg], outs: vec![AO::M(call(2, vec![s(&l), int(2)])), AO::G(0), AO::M(call(2, vec![s(&l), int(2)]))] }, vec![read_n(1)]), tb.clone()), &one);
            // many expressions, many sets
            let w = (*n).min(65);
            let sets: Vec<Vec<Ex>> = (0..w.min(40)).map(|k| (k as i32..w as i32).rev().map(Ex::Ref).collect()).chain([vec![]]).collect();
            let d = distinct(&sets).len();
            let outs: Vec<AO> = (0..d).flat_map(|k| [AO::G(k), m(k as i32)]).collect();
            c.both_with(&with_tab(node(Rel::Agg { sets, outs }, vec![read_n(w)]), tb.clone()), &one);
            if !c.ok() { return; }
        },
        "P16" => for n in &ns {
            let leaf = |a: XArgs| with_tab(node(Rel::Ext { k: ExtK::Leaf, name: NAMES[0].into(), url: URLS[0].into(), args: a }, vec![]), tb.clone());
            let pos: Vec<XVal> = (0..*n).map(|k| match k % 4 { 0 => XVal::Int(k as i64), 1 => XVal::Str("s".repeat(k)), 2 => XVal::Tuple((0..k).map(|j| XVal::Int(j as i64)).collect()), _ => XVal::Ex(Ex::Ref(k as i32)) }).collect();
            c.both(&leaf(XArgs { pos: pos.clone(), named: vec![(crate::ext::ARG_NAMES[0].into(), XVal::Tuple(pos.clone()))], cols: (0..*n).map(|k| if k % 2 == 0 { XCol::Named(format!("c{k}"), i64t()) } else { XCol::Ex(Ex::Ref(k as i32)) }).collect() }));
            let mut t = XVal::Int(1); for k in 0..(*n).min(20) { t = XVal::Tuple(if k % 2 == 0 { vec![t] } else { vec![XVal::Null, t] }); }
            c.both(&leaf(XArgs { pos: vec![t], ..Default::default() }));
            if !c.ok() { return; }
        },
        "P18" => for n in [16usize, 33, 65, 130] {
            for p in ["P05", "P08", "P11", "P12"] { let _ = p; }
            let l = "k".repeat(n);
            let mut x = read_n(2);
            for k in 0..n.min(70) { x = node(Rel::Filter { cond: s(&format!("{l}{k}")), out: vec![0, 1] }, vec![x]); }
            let x = node(Rel::Agg { sets: vec![vec![s(&format!("{l}a")), s(&format!("{l}b"))], vec![s(&format!("{l}b"))]], outs: vec![AO::G(0), AO::G(1), AO::M(call(1, vec![Ex::Ref(0)]))] }, vec![x]);
            let t = text(&with_tab(x, tb.clone()), &Opts::default());
            if !c.stable(&t) && c.ok() { let g0 = c.parse(&t); c.fail("large document must be accepted without errors", t, "accepted", g0.show()); }
        },
        _ => return,
    }
    c.family("large sizes: long names, wide lists, deep nesting, many lines", start);
}
