mod checks; mod cli; mod cx; mod ext; mod gen_; mod knock; mod model; mod rng; mod sizes;
use serde_json::json;
use std::process::ExitCode;

/// `vh check <property> <quick|thorough> <seed> <seconds>`: prints one JSON object.
fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("cli") { return <substrait_explain::cli::Cli as clap::Parser>::parse_from(a.iter().skip(1).cloned()).run_with_extensions(ext::registry()); }
    if a.len() < 6 || a[1] != "check" { eprintln!("usage: vh check <property> <quick|thorough> <seed> <seconds>"); std::process::exit(2); }
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let seed: u64 = a[4].parse().unwrap_or(1);
        let secs: u64 = a[5].parse().unwrap_or(60);
        let start = std::time::Instant::now();
        let mut c = cx::Cx::new(seed, a[3] == "thorough", secs);
        let known = checks::run(&a[2], &mut c);
        let o = json!({
            "property": a[2], "known": known, "evaluations": c.evals, "distinct": c.seen.len(), "secs": start.elapsed().as_secs_f64(),
            "families": c.families.iter().map(|(n, k)| json!({"family": n, "evaluations": k})).collect::<Vec<_>>(),
            "samples": c.samples, "fails": c.known.iter().chain(c.fails.iter()).map(|f| json!({"key": f.key, "what": f.what, "input": f.input, "expected": f.expected, "got": f.got})).collect::<Vec<_>>(),
        });
        println!("{o}");
        c.fails.is_empty() && known
    }).unwrap();
    match t.join() { Ok(true) => {} Ok(false) => std::process::exit(1), Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); eprintln!("harness panicked: {m}"); std::process::exit(3) } }
    ExitCode::SUCCESS
}
