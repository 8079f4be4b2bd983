#!/usr/bin/env python3
"""Makes and confirms a planted change: mkseed.py SPEC.py
SPEC.py defines: id, property, needs, breaks, edits=[(file, old, new)], demo (Rust source).
Works in /tmp/seedrepo (a scratch copy of /repo, refreshed on every call)."""
import json, os, runpy, subprocess, sys
R = "/tmp/seedrepo"
sp = runpy.run_path(sys.argv[1])
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
env = ". /opt/vp/env.sh; cd %s; " % R
if not os.path.exists(R):
    sh("cp -a /repo " + R)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh(f"git -C {R} fetch -q /repo HEAD; git -C {R} reset -q --hard {head}")
out = f"/verif/seeded/{sp['id']}"
os.makedirs(out, exist_ok=True)
open(out + "/demo.rs", "w").write(sp["demo"])
open(out + "/demo.sh", "w").write('''#!/bin/bash
# compiles demo.rs against the library that build.sh made in the current directory and runs it
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 "$here/demo.rs" --extern miniboosts="$PWD/target/debug/libminiboosts.rlib" \\
    -L dependency="$PWD/target/debug/deps" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
''')
os.chmod(out + "/demo.sh", 0o755)
def build():
    r = sh(env + "cargo build --lib --offline 2>&1")
    return r.returncode == 0, r.stdout
def demo():
    r = sh(f"cd {R} && bash {out}/demo.sh")
    return r.returncode, (r.stdout + r.stderr)[-600:]
ok, log = build()
assert ok, log
rc, log = demo()
print("clean:", rc, log if rc else "")
good = rc == 0
for f, old, new in sp["edits"]:
    p = f"{R}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
d = sh(f"git -C {R} diff").stdout
open(out + "/patch.diff", "w").write(d)
ok, log = build()
if not ok:
    print(log[-3000:]); sys.exit("does not build")
rc, log = demo()
print("patched:", rc, log)
good = good and rc not in (0, 3)
t = sh(env + "cargo test --offline --test nbayes 2>&1 | tail -5")
print("tests:", "test result: ok" in t.stdout)
good = good and "test result: ok" in t.stdout
json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]},
          open(out + "/meta.json", "w"), indent=1)
sh(f"git -C {R} checkout -- .")
# lines of the original repository only
base = sh("git -C /repo log --format=%h --grep='^base' | tail -1").stdout.strip()
print("KEEP" if good else "REJECTED", sp["id"])
