//! P17: the command-line front end, driven in memory and as a child process in a scratch directory.
use crate::checks::*;
use crate::cx::*;
use crate::ext;
use crate::gen_::{ALL, CORE, Focus, G};
use crate::knock;
use crate::model::*;
use prost::Message;
use std::io::{self, Read, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use substrait::proto::Plan;
use substrait_explain::cli::{Cli, Commands, Format, Outcome};
use substrait_explain::*;

const FMTS: [(&str, Format); 4] = [("text", Format::Text), ("json", Format::Json), ("yaml", Format::Yaml), ("protobuf", Format::Protobuf)];
#[derive(Debug, PartialEq, Clone)]
enum R { Ok(Vec<u8>), Issues(Vec<u8>, usize), Err(Vec<u8>), Panic }

fn run(c: &Cx, cmd: Commands, input: &[u8]) -> R {
    let cli = Cli { command: cmd };
    let mut out = vec![];
    match catch_unwind(AssertUnwindSafe(|| cli.run_with_io(input, &mut out, &c.reg))) {
        Ok(Ok(Outcome::Success)) => R::Ok(out), Ok(Ok(Outcome::HadFormattingIssues(e))) => R::Issues(out, e.len()), Ok(Err(_)) => R::Err(out), Err(_) => R::Panic,
    }
}
fn convert(from: Option<Format>, to: Option<Format>, lits: bool, i: &str, o: &str) -> Commands { Commands::Convert { input: i.into(), output: o.into(), from, to, show_literal_types: lits, verbose: false } }
fn enc(f: usize, p: &Plan, reg: &extensions::ExtensionRegistry) -> Vec<u8> {
    match f { 0 => format_with_registry(p, &OutputOptions::default(), reg).0.into_bytes(), 1 => serde_json::to_vec(p).unwrap(), 2 => serde_yaml::to_string(p).unwrap().into_bytes(), _ => p.encode_to_vec() }
}
fn dec(f: usize, b: &[u8]) -> Option<Plan> {
    match f { 1 => serde_json::from_slice(b).ok(), 2 => serde_yaml::from_slice(b).ok(), _ => Plan::decode(b).ok() }
}
/// Whether the JSON library the harness shares with the crate reads this plan's numbers back exactly.
fn json_exact(p: &Plan) -> bool { dec(1, &enc(1, p, &extensions::ExtensionRegistry::default())).is_some_and(|q| same(&q, p)) }
/// One plan through one pair of formats.
fn pair(c: &mut Cx, p: &Plan, from: usize, to: usize, lits: bool, explicit: bool) {
    if (from == 1 || to == 1) && !json_exact(p) { return; }
    let exts = ["substrait", "json", "yml", "pb"];
    let (ff, tf) = if explicit { (Some(FMTS[from].1.clone()), Some(FMTS[to].1.clone())) } else { (None, None) };
    let (i, o) = if explicit { ("-".to_string(), "x.json".to_string()) } else { (format!("a.{}", exts[from]), format!("b.{}", exts[to])) };
    let inp = enc(from, p, &c.reg);
    let r = run(c, convert(ff, tf, lits, &i, &o), &inp);
    c.note(&format!("{from}->{to} lits={lits} explicit={explicit} {:x}", hash(&p.encode_to_vec())));
    let mut opts = OutputOptions::default();
    if lits { opts.literal_types = Visibility::Always; }
    let good = match to {
        0 => { let (t, e) = format_with_registry(p, &opts, &c.reg); if e.is_empty() { r == R::Ok(t.into_bytes()) } else { r == R::Issues(t.into_bytes(), e.len()) } }
        _ => matches!(&r, R::Ok(b) if dec(to, b).is_some_and(|q| same(&q, p))),
    };
    if !good { c.fail(format!("conversion {} -> {}", FMTS[from].0, FMTS[to].0), show(p), "the same plan, or its text", diff(p, &r, to)); }
}
fn diff(p: &Plan, r: &R, to: usize) -> String {
    let R::Ok(b) = r else { return format!("{r:?}") };
    if to == 0 { return String::from_utf8_lossy(b).into_owned(); }
    match dec(to, b) {
        None => format!("output does not decode: {}", String::from_utf8_lossy(b)),
        Some(q) => { let (x, y) = (format!("{p:?}"), format!("{q:?}")); let k = x.chars().zip(y.chars()).position(|(a, b)| a != b).unwrap_or(0); let cut = |s: &str| s.chars().skip(k.saturating_sub(150)).take(300).collect::<String>(); format!("differs: {} / {}", cut(&x), cut(&y)) }
    }
}
struct Broken(usize);
impl Write for Broken { fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { return Err(io::Error::other("full")); } let n = b.len().min(self.0); self.0 -= n; Ok(n) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
struct Slow<'a>(&'a [u8]);
impl Read for Slow<'_> { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(self.0.len()).min(3); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
struct Fails;
impl Read for Fails { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::Error::other("no")) } }

pub fn p17(c: &mut Cx) {
    let s = c.evals;
    for (n, want) in [("text", Some(Format::Text)), ("json", Some(Format::Json)), ("yaml", Some(Format::Yaml)), ("protobuf", Some(Format::Protobuf)), ("proto", Some(Format::Protobuf)), ("pb", Some(Format::Protobuf)), ("", None), ("txt", None), ("yml", None), ("substrait", None), ("jsonx", None), ("xml", None), (" json", None), ("text ", None), ("p", None)] {
        for v in [n.to_string(), n.to_uppercase(), n[..n.len().min(1)].to_uppercase() + &n[n.len().min(1)..]] { let g = v.parse::<Format>().ok(); c.note(&v); if g != want { c.fail("format name", v, format!("{want:?}"), format!("{g:?}")); } }
    }
    for (e, want) in [("substrait", Some(Format::Text)), ("txt", Some(Format::Text)), ("json", Some(Format::Json)), ("yaml", Some(Format::Yaml)), ("yml", Some(Format::Yaml)), ("pb", Some(Format::Protobuf)), ("proto", Some(Format::Protobuf)), ("protobuf", Some(Format::Protobuf)), ("", None), ("text", None), ("jsn", None), ("json5", None), ("jsonl", None), ("tx", None), ("bin", None), ("yamlx", None)] {
        for e in [e.to_string(), e.to_uppercase()] { for pre in ["a.", "dir.json/a.", "/x/y.pb/z.", "a.b.", "é.", "..", "a b."] { let v = format!("{pre}{e}"); let g = Format::from_extension(&v); c.note(&v); if g != want { c.fail("format of a path", v, format!("{want:?}"), format!("{g:?}")); } } }
    }
    for v in ["-", "", "json", ".json", "a", "a/json", "a.json/", "."] { let want = if v == "a.json/" { Some(Format::Json) } else { None }; let g = Format::from_extension(v); c.note(v); if g != want { c.fail("format of a path", v, format!("{want:?}"), format!("{g:?}")); } }
    c.family("format names and file extensions", s);
    // resolution: an explicit format wins, otherwise the extension, otherwise an error and no output
    let s = c.evals;
    let p = proto(&doc1(read_n(2)));
    for (fi, f) in FMTS.iter().enumerate() { for (ti, t) in FMTS.iter().enumerate() { for (ei, ext) in ["txt", "json", "yaml", "pb"].iter().enumerate() { for (xi, xt) in ["substrait", "json", "yml", "proto", "zip"].iter().enumerate() {
        for (ef, et) in [(true, true), (true, false), (false, true), (false, false)] {
            let i = format!("in.{ext}"); let o = format!("out.{xt}");
            let inf = if ef { fi } else { ei };
            let outf = if et { ti } else { xi };
            let r = run(c, convert(ef.then(|| f.1.clone()), et.then(|| t.1.clone()), false, &i, &o), &enc(inf, &p, &c.reg));
            c.note(&format!("{ef}{et}{fi}{ti}{ei}{xi}"));
            let good = if outf == 4 { r == R::Err(vec![]) } else if outf == 0 { r == R::Ok(enc(0, &p, &c.reg)) } else { matches!(&r, R::Ok(b) if dec(outf, b).is_some_and(|q| same(&q, &p))) };
            if !good { c.fail("choice of formats", format!("convert -i {i} -o {o} from={:?} to={:?}", ef.then_some(f.0), et.then_some(t.0)), format!("input {inf}, output {outf}"), format!("{r:?}")); }
        }
    } } } }
    for (i, o, ef, et) in [("-", "a.json", false, false), ("a.json", "-", false, false), ("-", "-", true, false), ("-", "-", false, true), ("a", "b.json", false, false), ("a.zip", "b.json", false, false), ("a.json", "b", false, false)] {
        let r = run(c, convert(ef.then_some(Format::Json), et.then_some(Format::Json), false, i, o), &enc(1, &p, &c.reg));
        c.note(&format!("{i}{o}{ef}{et}")); if r != R::Err(vec![]) { c.fail("undeterminable format must be an error", format!("{i} {o}"), "error", format!("{r:?}")); }
    }
    c.family("choice of formats", s);
    // input that is not of the format: an error, nothing written
    let s = c.evals;
    for (fi, f) in FMTS.iter().enumerate() { for (oi, _) in FMTS.iter().enumerate() {
        if fi == oi || (fi == 2 && oi == 1) { continue; } // JSON is YAML
        let inp = enc(oi, &p, &c.reg);
        for t in 0..4 { let r = run(c, convert(Some(f.1.clone()), Some(FMTS[t].1.clone()), false, "-", "-"), &inp); c.note(&format!("{fi}{oi}{t}")); if r != R::Err(vec![]) { c.fail("input of another format must be an error", format!("{} given as {}", FMTS[oi].0, f.0), "error and no output", format!("{r:?}")); } }
    } }
    for bad in [&b"\xff\xfe"[..], b"=== Plan\nFilter[", b"junk", b"{", b"[]", b"\"x\"", b"12", b"- a", b"relations: 5", b"\x0a\xff"] { for f in FMTS { for t in 0..4 { let r = run(c, convert(Some(f.1.clone()), Some(FMTS[t].1.clone()), false, "-", "-"), bad); c.note(&format!("{bad:?}{}{t}", f.0)); if r != R::Err(vec![]) && !(f.0 == "protobuf" && Plan::decode(bad).is_ok()) { c.fail("malformed input must be an error", format!("{bad:?} as {}", f.0), "error and no output", format!("{r:?}")); } } } }
    for f in FMTS { let cli = Cli { command: convert(Some(f.1.clone()), Some(Format::Text), false, "-", "-") }; let r = cli.run_with_io(Fails, io::sink(), &c.reg); c.check(r.is_err(), "unreadable input must be an error", f.0, "error", "success");
        let cli = Cli { command: convert(Some(Format::Protobuf), Some(f.1.clone()), false, "-", "-") };
        let full = match run(c, convert(Some(Format::Protobuf), Some(f.1.clone()), false, "-", "-"), &p.encode_to_vec()) { R::Ok(b) => b.len(), _ => 0 };
        for n in 0..full { let r = cli.run_with_io(&p.encode_to_vec()[..], Broken(n), &c.reg); c.check(r.is_err(), "output that cannot be written must be an error", &format!("{} {n}", f.0), "error", "success"); }
        let r = cli.run_with_io(&p.encode_to_vec()[..], Broken(full), &c.reg); c.check(matches!(r, Ok(Outcome::Success)), "output that just fits", f.0, "success", "error");
        let e = enc(FMTS.iter().position(|x| x.0 == f.0).unwrap(), &p, &c.reg); let cli = Cli { command: convert(Some(f.1.clone()), Some(Format::Protobuf), false, "-", "-") }; let mut o = vec![]; let r = cli.run_with_io(Slow(&e), &mut o, &c.reg); c.check(matches!(r, Ok(Outcome::Success)) && o == p.encode_to_vec(), "input arriving in pieces", f.0, "the same plan", "something else"); }
    c.family("unreadable input, unwritable output", s);
    // validate: succeeds exactly when text parses and formats without errors; writes the formatted text
    let s = c.evals;
    let val = || Commands::Validate { input: "-".into(), output: "-".into(), verbose: false };
    let n = if c.thorough { 20000 } else { 1500 };
    let mut base = String::new();
    for i in 0..n {
        if !c.more() { break; }
        if i % 5 == 0 { let d = G::new(&mut c.r, Focus { kinds: ALL, ext: true, tops: 2, expr: 1, depth: 2, ..Default::default() }).doc(); base = text(&d, &Opts::default()); }
        let t = if i % 5 == 0 { base.clone() } else { mutate(c, &base) };
        let r = run(c, val(), t.as_bytes());
        c.note(&t);
        let want = match c.parse(&t) { P::Ok(p) => match c.fmt(&p, &OutputOptions::default()) { F::Ok(x, e) if e.is_empty() => R::Ok(x.into_bytes()), F::Ok(x, e) => R::Issues(x.into_bytes(), e.len()), _ => R::Panic }, P::Err(..) => R::Err(vec![]), _ => R::Panic };
        if r != want { c.fail("validate", t, format!("{want:?}"), format!("{r:?}")); }
    }
    for bad in [&b"\xff"[..], b"junk", b"=== Plan\nFilter[$0 => $0]\n"] { let r = run(c, val(), bad); c.check(r == R::Err(vec![]), "validate rejects", &format!("{bad:?}"), "error and no output", &format!("{r:?}")); }
    c.family("validate", s);
    // doubles read from JSON
    let s = c.evals;
    for (key, v) in [("json-fp64-8.151894536018805e40", 8.151894536018805e40f64), ("", 0.1), ("", 1e300), ("", -2.5), ("", 5e-324), ("", 123456789.125)] {
        let p = proto(&lit_doc(LitV::F64(v), false));
        let j = format!("{{\"relations\":[{{\"rel\":{{\"filter\":{{\"common\":{{\"direct\":{{}}}},\"input\":{},\"condition\":{{\"literal\":{{\"fp64\":{v:e}}}}}}}}}}}]}}", serde_json::to_string(&rel_proto(&read_n(1))).unwrap());
        let r = run(c, convert(Some(Format::Json), Some(Format::Protobuf), false, "-", "-"), j.as_bytes());
        c.note(&j);
        if r != R::Ok(p.encode_to_vec()) { if key.is_empty() { c.fail("double read from JSON", j, format!("{v:e}"), diff(&p, &r, 3)); } else { c.fail_keyed(key, "double read from JSON", &j, &format!("{v:e}"), &diff(&p, &r, 3)); } }
    }
    c.family("doubles read from JSON", s);
    // plans through every pair of formats
    let s = c.evals;
    let n = if c.thorough { 3000 } else { 100 };
    for i in 0..n {
        if !c.more() { break; }
        let d = G::new(&mut c.r, Focus { kinds: if i % 2 == 0 { CORE } else { ALL }, ext: i % 2 == 1, tops: 3, expr: 2, depth: 3, weird: true, ..Default::default() }).doc();
        let p = proto(&d);
        for f in 0..4 { for t in 0..4 { let (l, e) = (c.r.bool(), c.r.bool()); pair(c, &p, f, t, l, e); } }
        // plans with problems: text output is written but reported, other outputs are exact
        let sites = knock::count(&p);
        for _ in 0..3 { let mut q = p.clone(); let k = c.r.below(sites); knock::apply(&mut q, k); for f in 1..4 { let t = c.r.below(4); if serde_json::to_vec(&q).is_ok() && serde_yaml::to_string(&q).is_ok() && dec(f, &enc(f, &q, &c.reg)).is_some_and(|x| same(&x, &q)) { pair(c, &q, f, t, false, true); } } }
    }
    c.family("random plans through every pair of formats", s);
    // the process itself: files, standard streams, exit status
    let s = c.evals;
    process(c);
    c.family("child processes", s);
}
fn process(c: &mut Cx) {
    let dir = std::env::temp_dir().join(format!("vh-cli-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let go = |args: &[&str], stdin: &[u8]| -> (bool, Vec<u8>) {
        let mut ch = std::process::Command::new(&exe).arg("cli").args(args).current_dir(&dir).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let _ = ch.stdin.take().unwrap().write_all(stdin);
        let o = ch.wait_with_output().unwrap();
        (o.status.success(), o.stdout)
    };
    let p = proto(&doc1(node(Rel::Filter { cond: boolean(true), out: vec![0, 1] }, vec![read_n(2)])));
    let mut bad = p.clone();
    knock::apply(&mut bad, 2);
    let t = |p: &Plan, o: &OutputOptions| format_with_registry(p, o, &ext::registry()).0.into_bytes();
    let mut lit = OutputOptions::default();
    lit.literal_types = Visibility::Always;
    std::fs::write(dir.join("p.json"), enc(1, &p, &c.reg)).unwrap();
    std::fs::write(dir.join("p.txt"), enc(0, &p, &c.reg)).unwrap();
    std::fs::write(dir.join("bad.pb"), bad.encode_to_vec()).unwrap();
    let def = OutputOptions::default();
    let cases: Vec<(Vec<&str>, Vec<u8>, bool, Option<Vec<u8>>)> = vec![
        (vec!["convert", "-f", "json", "-t", "text"], enc(1, &p, &c.reg), true, Some(t(&p, &def))),
        (vec!["convert", "--from", "pb", "--to", "TEXT", "--show-literal-types"], p.encode_to_vec(), true, Some(t(&p, &lit))),
        (vec!["convert", "-f", "proto", "-t", "text"], bad.encode_to_vec(), false, Some(t(&bad, &def))),
        (vec!["convert", "-f", "text", "-t", "protobuf"], enc(0, &p, &c.reg), true, Some(p.encode_to_vec())),
        (vec!["convert", "-f", "text", "-t", "protobuf"], b"junk".to_vec(), false, Some(vec![])),
        (vec!["convert", "-f", "text"], enc(0, &p, &c.reg), false, Some(vec![])),
        (vec!["convert", "-t", "text"], enc(0, &p, &c.reg), false, Some(vec![])),
        (vec!["convert", "-f", "xml", "-t", "text"], vec![], false, Some(vec![])),
        (vec!["convert", "-i", "p.json", "-t", "text"], vec![], true, Some(t(&p, &def))),
        (vec!["convert", "-i", "p.json", "-f", "yaml", "-t", "text"], vec![], true, Some(t(&p, &def))),
        (vec!["convert", "-i", "p.json", "-f", "text", "-t", "text"], vec![], false, Some(vec![])),
        (vec!["convert", "-i", "nosuch.json", "-t", "text"], vec![], false, Some(vec![])),
        (vec!["convert", "-i", "bad.pb", "-t", "text", "-v"], vec![], false, Some(t(&bad, &def))),
        (vec!["convert", "-i", "p.txt", "-t", "pb", "-v"], vec![], true, Some(p.encode_to_vec())),
        (vec!["validate"], enc(0, &p, &c.reg), true, Some(t(&p, &def))),
        (vec!["validate", "-i", "p.txt"], vec![], true, Some(t(&p, &def))),
        (vec!["validate", "-i", "p.json"], vec![], false, Some(vec![])),
        (vec!["validate", "-v"], b"junk".to_vec(), false, Some(vec![])),
        (vec!["validate", "-i", "nosuch.txt"], vec![], false, Some(vec![])),
    ];
    for (a, i, ok, out) in cases {
        let (gok, gout) = go(&a, &i);
        c.note(&a.join(" "));
        if gok != ok || out.as_ref().is_some_and(|o| *o != gout) { c.fail("command line", a.join(" "), format!("success={ok} output={:?}", out.map(|o| String::from_utf8_lossy(&o).into_owned())), format!("success={gok} output={:?}", String::from_utf8_lossy(&gout))); }
    }
    for (i, o, f) in [("p.txt", "o.json", 1), ("p.txt", "o.yml", 2), ("p.json", "o.pb", 3), ("p.json", "o.PROTO", 3), ("p.txt", "o.yaml", 2)] {
        let (ok, so) = go(&["convert", "-i", i, "-o", o], &[]);
        let got = std::fs::read(dir.join(o)).unwrap_or_default();
        c.note(&format!("{i}{o}"));
        if !ok || !so.is_empty() || !dec(f, &got).is_some_and(|q| same(&q, &p)) { c.fail("converted file", format!("{i} -> {o}"), "the same plan", String::from_utf8_lossy(&got)); }
    }
    let (ok, so) = go(&["convert", "-i", "p.json", "-o", "o.substrait"], &[]);
    let got = std::fs::read(dir.join("o.substrait")).unwrap_or_default();
    c.check(ok && so.is_empty() && got == t(&p, &def), "converted file", "p.json -> o.substrait", "the text", &String::from_utf8_lossy(&got));
    let (ok, so) = go(&["validate", "-i", "p.txt", "-o", "v.txt"], &[]);
    let got = std::fs::read(dir.join("v.txt")).unwrap_or_default();
    c.check(ok && so.is_empty() && got == t(&p, &def), "validated file", "p.txt -> v.txt", "the text", &String::from_utf8_lossy(&got));
    let _ = std::fs::remove_dir_all(&dir);
}
