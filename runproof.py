"""Extract + verify: every unit proofs/<unit>.vx that proofs/units.json lists for a property."""
import json, os, re, subprocess, time
T0 = time.time()
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
TARGET = os.path.join(REPO, "target")

def all_units(): return json.load(open(os.path.join(V, "proofs", "units.json")))
def units_for(prop): return [u for u, d in all_units().items() if prop in d["props"]]

def env(verus=False):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTUP_TOOLCHAIN", None)
    if not verus: e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"; e["CARGO_TARGET_DIR"] = TARGET
    return e

# what an obligation that fails says about a property: panics (P13) are failed preconditions, overflows and
# non-termination; a failed postcondition leaves P13 undecided, not broken.  units.json's "only" gives, per property,
# the functions whose obligations state it, where a unit serves several properties.
PANIC = re.compile("precondition|overflow|underflow|division|shift|decreases|unreachable|out of bounds|vx_unreachable")
def belongs(prop, unit, o):
    if o["function"].startswith("("): return True
    if prop == "P13" and not PANIC.search(o["what"]): return False
    only = all_units()[unit].get("only", {}).get(prop)
    return not only or re.search(only, o["function"]) is not None

def blank(unit):
    return dict(unit=unit, verified=0, failed=[], undecided="", functions=[], trusted=[], drops=[], solver_ms=0, output="", cmd="", vacuity=0)

def verus(src, extra, timeout):
    cmd = ["verus", "--edition=2024", "--crate-type=lib", "--output-json", "--time", "--num-threads", "4", "--triggers-mode", "silent"] + extra + [src]
    try:
        r = subprocess.run(cmd, cwd=BUILD, env=env(True), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return cmd, None, "timeout"
    try: j = json.loads(r.stdout)
    except Exception: j = None
    return cmd, j, r.stderr

ERR = re.compile(r"^error(?:\[[^\]]*\])?: (.*?)\n((?:.*\n)*?)(?=^error|^warning|^note:|\Z)", re.M)
def errors(stderr):
    out = []
    for m in re.finditer(r"^error(?:\[[^\]]*\])?: (.*)$", stderr, re.M):
        rest = stderr[m.end():m.end() + 4000]
        nxt = re.search(r"^(error|warning)", rest, re.M)
        blk = rest[:nxt.start()] if nxt else rest
        lines = [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", blk)]
        # further marked lines inside the block
        marked = [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", blk, re.M)]
        out.append((m.group(1), lines[:1], marked, blk))
    return out

def fn_at(meta, line):
    for f in meta["functions"]:
        if f["start"] <= line <= f["end"]: return f
    return None

def classify(unit, meta, src, err):
    real, limit_hit = [], []
    for what, ln, marked, blk in errors(err):
        if "aborting due to" in what: continue
        line = ln[0] if ln else 0
        f = fn_at(meta, line)
        if f is None:
            for x in marked:
                f = fn_at(meta, x)
                if f: break
        name = f"{f['file']}: {f['name']}" if f else "(lemma or specification)"
        o = dict(unit=unit, function=name, what=what, where=f"{os.path.basename(src)}:{line}")
        if "rlimit" in what or "Resource limit" in what or "rlimit" in blk: limit_hit.append(o)
        else: real.append(o)
    return real, limit_hit

def run_unit(unit, tier):
    u = blank(unit); os.makedirs(BUILD, exist_ok=True)
    tpl = os.path.join(V, "proofs", unit + ".vx"); src = os.path.join(BUILD, unit + ".rs"); mj = os.path.join(BUILD, unit + ".json")
    vx = os.path.join(TARGET, "debug", "vx")
    for f in (src, mj):
        if os.path.exists(f): os.unlink(f)
    r = subprocess.run([vx, REPO, tpl, src, mj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        u["undecided"] = "extraction: " + r.stdout.strip()[-800:]; return u
    meta = json.load(open(mj))
    u["functions"] = [f"{f['file']}: {f['name']}" for f in meta["functions"] if not f["trusted"]]
    u["trusted"] = meta["trusted"]; u["drops"] = meta["drops"]
    opts = all_units()[unit].get("verus", [])
    limit = 300 if tier == "quick" else 900
    # vacuity: with `assert(false)` at the start of every function under contract, all of them must fail
    vsrc = os.path.join(BUILD, unit + "_vac.rs"); vmj = os.path.join(BUILD, unit + "_vac.json")
    rv = subprocess.run([vx, REPO, tpl, vsrc, vmj, "--vacuity"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(verus, src, opts, limit); b = ex.submit(verus, vsrc, opts + ["--rlimit", "3"], limit)
        cmd, j, err = a.result(); _, vj, verr = b.result()
    u["cmd"] = " ".join(cmd).replace(V + "/", ""); u["output"] = err
    if j is None:
        u["undecided"] = "verifier: no result (" + err[-600:] + ")"; return u
    vr = j.get("verification-results", {})
    try: u["solver_ms"] = int(j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)) or int(j.get("times-ms", {}).get("total", 0))
    except Exception: pass
    if vr.get("encountered-vir-error") or ("verified" not in vr):
        u["undecided"] = "the verifier does not accept the extracted code: " + (errors(err)[0][0] if errors(err) else err[-500:]) ; return u
    u["verified"] = vr["verified"]
    if vr["verified"] == 0: u["undecided"] = "no obligations were generated"; return u
    real, limit_hit = classify(unit, meta, src, err)
    if real or limit_hit:
        # A proof search that fails is tried again with other solver seeds: an obligation counts as failed only when no run discharges its function.
        tries = [["--rlimit", "40", "--smt-option", "smt.random_seed=%d" % k] for k in (7, 23)]
        with ThreadPoolExecutor(2) as ex: more = list(ex.map(lambda t: verus(src, opts + t, limit if tier != 'quick' else max(30, min(limit, 560 - (time.time() - T0)))), tries))
        for _, j2, err2 in more:
            if j2 is None or "verified" not in j2.get("verification-results", {}): continue
            r2, l2 = classify(unit, meta, src, err2)
            if j2["verification-results"].get("errors", 0) and not r2 and not l2: continue
            bad = {o["function"] for o in r2 + l2}
            real = [o for o in real if o["function"] in bad]; limit_hit = [o for o in limit_hit if o["function"] in bad]
            u["retries"] = u.get("retries", 0) + 1
        if not real and not limit_hit: vr = dict(vr, errors=0)
    if vr.get("errors", 0) and not real and not limit_hit: u["undecided"] = "unclassified verifier errors: " + err[-600:]; return u
    u["failed"] = real
    if limit_hit and not real: u["undecided"] = "solver limit: " + "; ".join(o["function"] for o in limit_hit)
    if not real and not u["undecided"]:
        # vacuity
        if vj is None or "verified" not in vj.get("verification-results", {}): u["undecided"] = "vacuity run gave no result"; return u
        vmeta = json.load(open(vmj)); hit = set()
        for what, ln, marked, blk in errors(verr):
            for x in ln + marked:
                f = fn_at(vmeta, x)
                if f: hit.add((f["file"], f["name"], f["start"]))
        want = [f for f in vmeta["functions"] if not f.get("trusted")]
        miss = [f["name"] for f in want if (f["file"], f["name"], f["start"]) not in hit]
        u["vacuity"] = len(want) - len(miss)
        if miss: u["undecided"] = "vacuous contract (assert(false) is provable): " + ", ".join(miss); u["verified"] = 0
    return u

def build_vx():
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "vx"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

def run_units(prop, units, tier, log):
    if not units: return dict(units=[])
    ok, out = build_vx()
    if not ok:
        log(out[-3000:])
        res = []
        for u in units: b = blank(u); b["undecided"] = "the extractor does not build"; res.append(b)
        return dict(units=res)
    with ThreadPoolExecutor(3) as ex: res = list(ex.map(lambda u: run_unit(u, tier), units))
    for r in res:
        other = [o for o in r["failed"] if not belongs(prop, r["unit"], o)]
        r["failed"] = [o for o in r["failed"] if belongs(prop, r["unit"], o)]
        if other and not r["undecided"]: r["undecided"] = "obligations that state other properties failed: " + "; ".join(f"{o['function']}: {o['what']}" for o in other)
    return dict(units=res)

if __name__ == "__main__":
    import sys
    build_vx()
    us = sys.argv[1:] or list(all_units())
    with ThreadPoolExecutor(3) as ex:
        for u in ex.map(lambda u: run_unit(u, "quick"), us):
            print(f"{u['unit']}: verified {u['verified']}, failed {len(u['failed'])}, vacuity {u['vacuity']}/{len(u['functions'])}, {u['solver_ms']} ms {u['undecided'][:3000]}")
            if u["failed"] or (u["undecided"] and "extraction" not in u["undecided"]): print("\n".join("error: " + w + b[:1800] for w, _, _, b in errors(u["output"])[:12] if "aborting" not in w))
