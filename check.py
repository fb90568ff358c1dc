#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- decide one property of /repo's current tree.

1. proof     : vx extracts the functions named in proofs/*.vx from /repo and splices in the contracts;
               Verus must discharge every obligation (see DESIGN.md).
2. stand-in  : the bounded harness (vh) runs the real crate against an independent model; it also is the
               search for a failing input when an obligation fails.
Exit 0 = held, exit 1 + VIOLATION line = broken.  Anything the proof side cannot decide (code it cannot
extract or translate any more, solver limit) is reported as undecided and left to the bounded check.
"""
import json, os, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
t0 = time.time()

def log(*a): print(*a, flush=True)

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV["CARGO_TARGET_DIR"] = os.path.join(REPO, "target")

def build(crate):
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, crate), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def known_findings():
    """key -> text of the findings listed for each property"""
    out = {}
    for l in open(os.path.join(V, "known-findings.txt")):
        if l.startswith("finding: property="):
            head, _, what = l[len("finding: property="):].partition(" ")
            key, _, what = what.partition(" ")
            out[(head, key.removeprefix("key="))] = what.strip()
    return out

def stand_in(prop, tier, seed, secs=None, limit=None):
    main_run = limit is None
    limit = limit or (460 if tier == "quick" else 1800)
    secs = secs or {"quick": 60, "thorough": 600}[tier]
    try:
        r = subprocess.run([os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "vh"), "check", prop, tier, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, errors="replace")
    except subprocess.TimeoutExpired as e:
        if not main_run: return dict(status="ok", fails=[])
        return dict(status="stuck", detail=f"no result after {limit} s (the harness needs seconds on the unchanged tree): some input makes the code loop", fails=[])
    try:
        d = json.loads(r.stdout.strip().split('\n')[-1])
    except Exception:
        return dict(status="crash", detail=f"exit {r.returncode}\n{r.stdout[-3000:]}\n{r.stderr[-6000:]}", fails=[])
    d["status"] = "fail" if any(not f["key"] for f in d["fails"]) or r.returncode not in (0, 1) else "ok"
    return d

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)

    from runproof import run_units, units_for
    units = units_for(prop)
    # build the harness and run the proofs at the same time
    hb = subprocess.Popen(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    proof = run_units(prop, units, tier, log)
    out, _ = hb.communicate()
    if hb.returncode != 0:
        log(out[-8000:]); log("the bounded harness does not build against /repo: no answer")
        return 2
    h = stand_in(prop, tier, seed)
    if h["status"] == "ok" and any(u["failed"] for u in proof["units"]):
        # an obligation failed and the usual search found nothing: look for a failing input longer
        left = 820 - (time.time() - t0) if tier == "quick" else 600
        h2 = stand_in(prop, "thorough", seed + 1000, min(150, int(left - 60)), left) if left > 120 else h
        if h2["status"] != "ok": h = h2

    violations, findings, kf = [], [], known_findings()
    for f in h["fails"]:
        if f["key"] and (prop, f["key"]) in kf: findings.append((f["key"], kf[(prop, f["key"])]))
        else: violations.append(f)
    if h["status"] in ("stuck", "crash"):
        violations.append(dict(key="", what="the code under test ended or blocked the harness process", input="(see got)", expected="normal return", got=h["detail"]))
    failed = [o for u in proof["units"] for o in u["failed"]]

    for k, w in findings: log(f"KNOWN-FINDING: property={prop} key={k} {w}")
    rc = 0
    if violations or failed:
        rc = 1
        path = os.path.join(V, "replay", f"{prop}.json")
        json.dump(dict(property=prop, tier=tier, seed=seed,
            failing_inputs=violations,
            failed_obligations=failed,
            verifier_output=[dict(unit=u["unit"], output=u["output"][-20000:]) for u in proof["units"] if u["failed"]],
            how_to_replay=f"python3 check.py {prop} {tier}   (VERIF_SEED={seed}); each failing input is given to the public API of the crate built from /repo"), open(path, "w"), indent=1, ensure_ascii=False)
        for o in failed: log(f"failed obligation: [{o['unit']}] {o['function']}: {o['what']} ({o['where']})")
        for f in violations[:3]: log(f"failing input: {f['what']}\n  input: {f['input'][:1500]}\n  expected: {f['expected'][:800]}\n  got: {f['got'][:800]}")
        log(f"VIOLATION property={prop} replay={path}" + ("" if violations else " no-failing-input-found"))

    verified = sum(u["verified"] for u in proof["units"])
    obligations = verified + len(failed)
    funcs = [f for u in proof["units"] for f in u["functions"]]
    cov = dict(
        obligations=obligations, discharged=verified,
        checker_cmd="; ".join(u["cmd"] for u in proof["units"]) or "none",
        trusted_base=sorted({t for u in proof["units"] for t in u["trusted"]}),
        functions_under_contract=funcs,
        backend="Verus 0.2026.09.13 (Z3)", solver_ms=sum(u["solver_ms"] for u in proof["units"]),
        undecided=[dict(unit=u["unit"], why=u["undecided"]) for u in proof["units"] if u["undecided"]],
        extraction_drops=sorted({d for u in proof["units"] for d in u["drops"]}),
        vacuity_checks=sum(u["vacuity"] for u in proof["units"]),
        bounded_stand_in=dict(label="bounded, not counted as proved", evaluations=h.get("evaluations", 0), distinct_nontrivial=h.get("distinct", 0), families=h.get("families", []), samples=h.get("samples", []), secs=h.get("secs", 0)),
        evaluations=h.get("evaluations", 0), distinct_nontrivial=h.get("distinct", 0),
        rule="bounded stand-in: documents and plans generated from an independent model (exhaustive small families, then seeded random ones); distinct = different text or plan bytes",
        samples=h.get("samples", [])[:6] or ["none"],
    )
    level = "proof" if units else "exploration"
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=sorted({a for u in proof["units"] for a in u["trusted"]}) + ["the bounded stand-in covers only the inputs it generates"],
        wall_s=round(time.time() - t0, 2), violations=len(violations) + len(failed))
    json.dump(ev, open(os.path.join(V, "evidence", f"{prop}.json"), "w"), indent=1, ensure_ascii=False)
    und = [u for u in proof["units"] if u["undecided"]]
    for u in und: log(f"UNDECIDED by proof (bounded check only): [{u['unit']}] {u['undecided'][:1500]}")
    log(f"{prop} {tier} seed={seed}: {'VIOLATION' if rc else 'held'}; {verified} obligations discharged in {len(units)-len(und)}/{len(units)} units, {len(failed)} failed; bounded: {h.get('evaluations',0)} evaluations, {len(violations)} failing; {time.time()-t0:.1f} s")
    return rc

if __name__ == "__main__":
    sys.exit(main())
