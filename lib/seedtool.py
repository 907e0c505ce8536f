#!/usr/bin/env python3
"""Make and confirm planted changes.  usage: seedtool.py SPEC.py [id ...]
SPEC.py defines SEEDS = {id: dict(prop, edits=[(file, old, new)], needs, breaks, main=rust source, features)}.
Works in a scratch copy of /repo (SEEDW, default /tmp/seedw); writes seeded/<id>/ only when the change builds,
the 157 stable tests pass, and the demonstration passes without and fails with the change."""
import json, os, re, subprocess, sys, shutil
W = os.environ.get("SEEDW", "/tmp/seedw")
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
mkdir -p "$t/src" "$t/scratch"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
figment = { path = "$repo", features = ["json", "toml", "yaml", "env", "test"] }
serde = { version = "1", features = ["derive"] }
[workspace]
EOF
cd "$t" || exit 3
CARGO_TARGET_DIR="$t/target" cargo build -q --offline || exit 4
cd "$t/scratch" || exit 3
TMPDIR="$t/scratch" "$t/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(["bash", "-c", c], capture_output=True, text=True, **k)
def demo(d, repo):
    os.makedirs(W + "/tmp", exist_ok=True)
    r = sh(f"cd {repo} && TMPDIR={W}/tmp bash {d}/demo.sh", timeout=300)
    for e in os.listdir(W + "/tmp"): shutil.rmtree(W + "/tmp/" + e, ignore_errors=True)
    return r
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:] or list(ns["SEEDS"])
    base = {x for x in json.load(open("/opt/vp/BASELINE.json")).get("passed", [])} if os.path.exists("/opt/vp/BASELINE.json") else set()
    repo = W + "/repo"
    os.makedirs(W, exist_ok=True)
    if os.path.exists(repo): shutil.rmtree(repo)
    sh(f"cp -a /repo {repo}")
    for i in want:
        s = ns["SEEDS"][i]
        d = W + "/d/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(s["main"]); open(d + "/demo.sh", "w").write(DEMO)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = demo(d, repo)
        if r.returncode != 0: print(i, "DEMO FAILS ON BASE", r.returncode, r.stderr[-1500:], r.stdout[-500:]); continue
        ok = True
        for f, old, new in s["edits"]:
            p = repo + "/" + f; t = open(p).read()
            if t.count(old) != 1: print(i, "ANCHOR", f, t.count(old), repr(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if ok:
            df = sh(f"git -C {repo} diff").stdout
            open(d + "/patch.diff", "w").write(df)
            r = sh(f". /opt/vp/env.sh; cd {repo} && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", timeout=900)
            failed = sorted(set(re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M)))
            n = len(re.findall(r"^test .*? \.\.\. ok", r.stdout, re.M))
            if "error: could not compile" in r.stdout or "error[" in r.stdout: print(i, "NO BUILD", r.stdout[-1500:])
            elif failed: print(i, "TESTS CATCH IT:", failed)
            else:
                r = demo(d, repo)
                if r.returncode == 0: print(i, "DEMO PASSES WITH PATCH")
                elif r.returncode == 4: print(i, "DEMO DOES NOT BUILD", r.stderr[-800:])
                else:
                    print(i, "OK", n, "tests pass; demo:", r.returncode, r.stderr.strip().splitlines()[-2:] if r.stderr else "")
                    t = OUT + "/" + i
                    os.makedirs(t, exist_ok=True)
                    for x in ("main.rs", "demo.sh", "meta.json", "patch.diff"): shutil.copy(d + "/" + x, t + "/" + x)
        sh(f"git -C {repo} checkout -q -- .")
        sys.stdout.flush()
main()
