#!/usr/bin/env python3
"""Driver: check.py PROPERTY quick|thorough

Rebuilds the encoding from /repo's working tree, runs the symbolic engine,
replays counterexamples on the real code, writes evidence/PROPERTY.json.
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SYM = os.path.join(BUILD, "sym")
NAT = os.path.join(BUILD, "nat")
GUARD = "miniboosts_verif"


class Inconclusive(Exception):
    pass


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, cwd, extra=None, timeout=1500):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def sync(src, dst):
    """copy a tree, leaving unchanged files alone; drop stale files"""
    seen = set()
    for d, _, fs in os.walk(src):
        rel = os.path.relpath(d, src)
        for f in fs:
            s = os.path.join(d, f)
            t = os.path.normpath(os.path.join(dst, rel, f))
            seen.add(t)
            write(t, open(s, errors="surrogateescape").read())
    for d, _, fs in os.walk(dst):
        for f in fs:
            t = os.path.normpath(os.path.join(d, f))
            if t not in seen:
                os.remove(t)


def features():
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "harness/src/props")) if f.endswith(".rs"))
    return mods


def harness_manifest(deps, patch):
    feats = "".join(f'{m} = []\n' for m in features())
    return f"""[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{deps}
[features]
{feats}
[profile.dev]
opt-level = 1
debug = 0
incremental = false
debug-assertions = true
overflow-checks = true
{patch}
"""


REG_DEPS = """serde = { version = "1.0.206", features = ["rc", "derive"] }
serde_json = { version = "1.0.124", default-features = false, features = ["alloc", "std"] }
"""


def build_transformer():
    rc, out = run(["cargo", "build", "--offline", "-q"], os.path.join(VERIF, "transform"),
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "xform")})
    if rc:
        raise Inconclusive("the source transformer does not build:\n" + out[-4000:])
    return os.path.join(BUILD, "xform/debug/symxform")


def xform(tool, src, dst):
    # drop outputs whose source is gone
    if os.path.isdir(dst):
        for d, _, fs in os.walk(dst):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), dst)
                if not os.path.exists(os.path.join(src, rel)):
                    os.remove(os.path.join(d, f))
    rc, out = run([tool, src, dst], VERIF)
    if rc:
        raise Inconclusive("source transformation failed:\n" + out[-4000:])
    return out.strip().splitlines()[-1]


def build_symbolic(mod):
    tool = build_transformer()
    v = VERIF
    stats = xform(tool, os.path.join(REPO, "src"), os.path.join(SYM, "miniboosts/src"))
    for s in ("polars", "rand", "rand_distr", "clarabel"):
        xform(tool, os.path.join(v, "shims", s, "src"), os.path.join(SYM, s, "src"))
    xform(tool, os.path.join(v, "harness/src"), os.path.join(SYM, "harness/src"))
    symrt = f'symrt = {{ path = "{v}/symrt" }}\n'
    vapi = f'vapi = {{ path = "{v}/shims/vapi_sym" }}\n'

    def mf(name, version, deps):
        write(os.path.join(SYM, name, "Cargo.toml"),
              f'[package]\nname = "{name}"\nversion = "{version}"\nedition = "2021"\n[workspace]\n[dependencies]\n{deps}')
    mf("polars", "0.41.3", symrt)
    mf("clarabel", "0.9.0", symrt + vapi)
    mf("rand", "0.8.5", symrt + vapi)
    mf("rand_distr", "0.4.3", symrt + vapi + 'rand = { path = "../rand" }\n')
    mf("miniboosts", "0.4.0", symrt + vapi + f"""
polars = {{ path = "../polars" }}
clarabel = {{ path = "../clarabel" }}
rand = {{ path = "../rand" }}
rand_distr = {{ path = "../rand_distr" }}
rayon = {{ path = "{v}/shims/rayon" }}
fixedbitset = "0.5.7"
colored = "2.1.0"
[features]
gurobi = []
[lints.rust]
unexpected_cfgs = "allow"
""".replace("\n[features]", "\n" + REG_DEPS + "\n[features]"))
    h = os.path.join(SYM, "harness")
    write(os.path.join(h, "Cargo.toml"), harness_manifest(
        symrt + vapi + 'miniboosts = { path = "../miniboosts" }\npolars = { path = "../polars" }\n'
        + 'rand = { path = "../rand" }\n' + REG_DEPS, "[profile.dev.package.symrt]\nopt-level = 3\n"))
    lock = os.path.join(v, "harness/sym.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(h, "Cargo.lock")):
        shutil.copy(lock, os.path.join(h, "Cargo.lock"))
    feats = ",".join(features()) if mod == "all" else mod
    rc, out = run(["cargo", "build", "--offline", "-q", "--features", feats], h,
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "symtarget"),
                   "RUSTFLAGS": f"--cfg {GUARD} -Awarnings"})
    if rc:
        raise Inconclusive("the symbolic build failed:\n" + out[-6000:])
    return os.path.join(BUILD, "symtarget/debug/harness"), stats


def build_native(mod):
    v = VERIF
    h = os.path.join(NAT, "harness")
    sync(os.path.join(v, "harness/src"), os.path.join(h, "src"))
    write(os.path.join(h, "Cargo.toml"), harness_manifest(
        f'miniboosts = {{ path = "{REPO}" }}\nvapi = {{ path = "{v}/shims/vapi_native" }}\n'
        'polars = "0.41.3"\nrand = "0.8.5"\n' + REG_DEPS,
        f"""[patch.crates-io]
polars = {{ path = "{v}/shims/polars" }}
rand = {{ path = "{v}/shims/rand" }}
rand_distr = {{ path = "{v}/shims/rand_distr" }}
"""))
    lock = os.path.join(v, "harness/nat.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(h, "Cargo.lock")):
        shutil.copy(lock, os.path.join(h, "Cargo.lock"))
    feats = ",".join(features()) if mod == "all" else mod
    rc, out = run(["cargo", "build", "--offline", "-q", "--features", feats], h,
                  {"CARGO_TARGET_DIR": os.path.join(BUILD, "nattarget"),
                   "RUSTFLAGS": f"--cfg {GUARD} -Awarnings"})
    if rc:
        raise Inconclusive("the native replay build failed:\n" + out[-6000:])
    return os.path.join(BUILD, "nattarget/debug/harness")



def load_props():
    out = {}
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        if line.strip():
            d = json.loads(line)
            out[d["id"]] = d
    return out


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


def replay(binary, prop, tier, cands, scratch, timeout=60):
    """native outcome of every candidate (one process each, in parallel)"""
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        src = os.path.join(scratch, f"in{k}.json")
        dst = os.path.join(scratch, f"out{k}.json")
        with open(src, "w") as f:
            json.dump(cands[k], f)
        e = env()
        e["VERIF_SCRATCH"] = scratch
        e["RAYON_NUM_THREADS"] = "2"
        try:
            p = subprocess.run([binary, prop, tier, src, dst], env=e, timeout=timeout,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired:
            return {"failed": [], "reached": [], "panicked": None, "timeout": True, "obs": [], "stop": None}
        if p.returncode or not os.path.exists(dst):
            return {"failed": [], "reached": [], "panicked": f"process died with {p.returncode}: "
                    + p.stderr.decode(errors="replace")[-300:], "obs": [], "stop": None}
        return json.load(open(dst))[0]

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(cands))))


def reproduces(c, r):
    if r.get("error"):
        return False
    if r.get("timeout"):
        return c["label"].endswith("/terminates")
    if r.get("panicked"):
        return True
    return bool(r.get("failed"))


def native_label(c, r):
    """the label of the violation as the real code shows it"""
    if r.get("timeout"):
        return c["job"] + "/terminates"
    if r.get("failed"):
        return c["label"] if c["label"] in r["failed"] else r["failed"][0]
    return c["job"] + "/no-panic"


def finding_of(findings, c, label, r):
    import re
    for f in findings:
        if not re.fullmatch(f.get("job", ".*"), c["job"]):
            continue
        if not re.fullmatch(f["label"], label):
            continue
        if f.get("panic") and f["panic"] not in (r.get("panicked") or ""):
            continue
        return f
    return None


def compare_obs(t, r):
    a = [(n, float(v)) for n, v in t["obs"]]
    b = [(n, float(v)) for n, v in r["obs"]]
    if len(a) != len(b):
        return False
    for (n, x), (m, y) in zip(a, b):
        if n != m:
            return False
        if x != x or y != y:
            if (x != x) != (y != y):
                return False
            continue
        if abs(x) == float("inf") or abs(y) == float("inf"):
            if x != y:
                return False
            continue
        if abs(x - y) > 1e-5 * max(1.0, abs(x), abs(y)):
            return False
    return True


def check(prop, tier):
    import tempfile, threading
    t0 = time.time()
    mod = prop.lower()
    props = load_props()
    os.makedirs(BUILD, exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        return check_in(prop, tier, mod, props[prop], ev_path, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, mod, spec, ev_path, scratch, t0):
    import threading
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    nat = {}

    def nat_build():
        try:
            nat["bin"] = build_native(mod)
        except Exception as ex:  # reported below if it is needed
            nat["err"] = ex
    th = threading.Thread(target=nat_build)
    th.start()
    try:
        binary, stats = build_symbolic(mod)
    except BaseException:
        th.join()
        raise
    t_build = time.time() - t0
    out = os.path.join(scratch, "sym.json")
    e = env()
    e["VERIF_SCRATCH"] = scratch
    quick = tier == "quick"
    deadline = int(os.environ.get("SYM_DEADLINE_S", 420 if quick else 7200))
    e["SYM_DEADLINE_S"] = str(deadline)
    try:
        p = subprocess.run([binary, prop, tier, out], env=e, timeout=deadline + 240,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        th.join()
        raise Inconclusive("the symbolic engine did not finish")
    th.join()
    if p.returncode or not os.path.exists(out):
        raise Inconclusive(f"the symbolic engine failed ({p.returncode}):\n" + p.stderr.decode(errors="replace")[-3000:])
    if "err" in nat:
        raise nat["err"]
    d = json.load(open(out))
    cands, traces = d["cands"], d["traces"]
    rs = replay(nat["bin"], prop, tier, cands, scratch)
    findings = known_findings(prop)
    viol, spurious, hit = [], [], {}
    for c, r in zip(cands, rs):
        if not reproduces(c, r):
            spurious.append((c, r))
            continue
        label = native_label(c, r)
        f = finding_of(findings, c, label, r)
        if f:
            hit.setdefault(f["id"], (f, c, r))
        else:
            viol.append((c, r, label))
    ts = replay(nat["bin"], prop, tier, traces, scratch)
    agree = [compare_obs(t, r) and not r.get("panicked") and not r.get("failed") for t, r in zip(traces, ts)]
    bad_tr = [(t, r) for t, r, ok in zip(traces, ts, agree) if not ok]
    tot = lambda k: sum(j[k] for j in d["jobs"].values())
    reached = {k: v for k, v in d["labels"].items() if v["reached"]}
    proved = sum(v["proved"] for v in d["labels"].values())
    undecided = sum(v["undecided"] for v in d["labels"].values())
    samples = []
    for t in traces[:3]:
        samples.append({"kind": "path replayed on the real code", "job": t["job"], "inputs": t["inputs"],
                        "choices": t["choices"], "outputs": t["obs"][:12]})
    for k, v in list(reached.items())[:12]:
        samples.append({"kind": "claim", "label": k, **v})
    cov = {
        "states": tot("paths"),
        "transitions": tot("decisions"),
        "traces_validated_against_impl": sum(agree),
        "traces_disagreeing_with_impl": len(bad_tr),
        "samples": samples,
        "exhaustive": tot("unexplored") == 0,
        "functions_encoded": d["fns"],
        "functions_encoded_count": len(d["fns"]),
        "transformation": stats,
        "jobs": d["jobs"],
        "claims": d["labels"],
        "witnesses_reached": d["covers"],
        "outside_bounds": d["prunes"],
        "unsupported_paths": d["unsupported"],
        "environment_models": d["models"],
        "claims_checked": tot("checks"),
        "claims_discharged": proved,
        "claims_discharged_by_normal_form": tot("trivial"),
        "claims_undecided": undecided,
        "paths_unexplored": tot("unexplored"),
        "queries": d["queries"], "queries_sat": d["sat"], "queries_unsat": d["unsat"],
        "queries_unknown": d["unknown"], "queries_cvc5": d["cvc5"], "solver_s": round(d["solver_s"], 2),
        "candidates": len(cands), "candidates_not_reproduced": len(spurious),
        "known_findings_seen": sorted(hit), "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "model_checking", "coverage": cov,
          "assumptions": [
              "f64 arithmetic is interpreted over the extended reals (rounding is outside the claim)",
              "sizes and numbers of rounds are those of the job names; " + spec["quantifier"]["text"],
              "stubs: rayon runs sequentially, rand draws are arbitrary, clarabel answers any exact optimum "
              "or infeasibility certificate, polars is a table of named columns",
          ],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for k, (f, c, r) in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop} {tier}: {tot('paths')} paths, {tot('decisions')} decisions, {tot('checks')} claims "
          f"({proved} discharged, {undecided} undecided), {d['queries']} queries in {d['solver_s']:.1f} s solver time, "
          f"{tot('unexplored')} unexplored, {len(spurious)} spurious, {sum(agree)}/{len(agree)} traces agree, "
          f"{time.time() - t0:.0f} s")
    for t, r in bad_tr[:3]:
        print("note: trace disagrees with the real code:", t["job"], t["choices"], t["inputs"], r.get("panicked"), r.get("failed"))
    for c, r in spurious[:3]:
        print("note: not reproduced:", c["job"], c["label"], c["note"][:200], "| native:", r.get("stop"), r.get("timeout"))
    if viol:
        c, r, label = viol[0]
        rp = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
        with open(rp, "w") as f:
            json.dump({**c, "native": r}, f, indent=1)
        seen = []
        for c, r, label in viol:
            key = (c["job"], label)
            if key in seen:
                continue
            seen.append(key)
            print(f"violated: {c['job']} {label} note={c['note'][:300]!r} panicked={r.get('panicked')} "
                  f"choices={c['choices']} inputs={c['inputs']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    dead = [k for k, j in d["jobs"].items() if j["done"] == 0 and not any(c["job"] == k for c in cands)]
    if d["njobs"] == 0 or not d["labels"] or len(dead) == len(d["jobs"]):
        raise Inconclusive(f"vacuous: no path of {dead} ran to its end")
    if dead:
        print("note: jobs without a completed path:", dead)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "build":
        t = time.time()
        print(build_symbolic(sys.argv[2] if len(sys.argv) > 2 else "all"), time.time() - t)
    elif sys.argv[1] == "setup":
        build_transformer()
        for tool in ("z3-new", "cvc5"):
            if not shutil.which(tool):
                sys.exit(f"{tool} is missing")
        print("ready")
    elif sys.argv[1] == "build-native":
        t = time.time()
        print(build_native(sys.argv[2] if len(sys.argv) > 2 else "all"), time.time() - t)
    else:
        try:
            sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"))
        except Inconclusive as ex:
            print("inconclusive:", ex)
            sys.exit(2)
