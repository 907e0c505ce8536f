#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

  python3 lib/check.py <PROPERTY>      (VERIF_SEED, VERIF_TIER from the environment)
  python3 lib/check.py --setup         build everything once

exit 0: no violation;  exit 1: a VIOLATION line;  exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verusgen as vg
import atoms

ROOT = vg.ROOT
BUILD = os.path.join(ROOT, "build")
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_BACKTRACE="0")
ENV.setdefault("HOME", "/root")


class Broken(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=800, check=True):
    p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    if check and p.returncode != 0:
        raise Broken(f"{' '.join(cmd)} failed:\n{p.stdout[-1500:]}\n{p.stderr[-3000:]}")
    return p


def ensure_lock():
    # the repository ignores its Cargo.lock; cargo resolves path dependencies without it
    pass


def build_vx():
    sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "vx"), env={"CARGO_TARGET_DIR": BUILD + "/vx"})
    return BUILD + "/vx/debug/vx"


def expand():
    """the crate after macro expansion, from the current working tree"""
    out = os.path.join(BUILD, "expanded.rs")
    # force rustc to run: a cached unit would print nothing
    p = sh(["cargo", "rustc", "--offline", "-p", "figment", "--lib", "--profile", "check", "--", "-Zunpretty=expanded",
            "--cfg", f"verif_run_{time.time_ns()}"],
           cwd=os.path.join(ROOT, "harness"), env={"CARGO_TARGET_DIR": BUILD + "/exp", "RUSTC_BOOTSTRAP": "1"})
    if len(p.stdout) < 1000: raise Broken("macro expansion gave no source: " + p.stderr[-1000:])
    open(out, "w").write(p.stdout)
    return out


def build_harness():
    sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env={"CARGO_TARGET_DIR": BUILD + "/h"})
    return BUILD + "/h/debug/harness"


def scratch():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def dict_file(prop):
    return os.path.join(BUILD, f"atoms-{prop}.json")


def run_harness(exe, prop, seed, tier, timeout):
    """-> dict; crashes and hangs of the real code are violations"""
    trace = os.path.join(scratch(), f"trace-{prop}-{os.getpid()}")
    env = {"HARNESS_SCRATCH": scratch(), "HARNESS_DICT": dict_file(prop)}
    for attempt in (0, 1):
        e = dict(env)
        if attempt: e["HARNESS_TRACE"] = trace
        try:
            p = subprocess.run([exe, prop, str(seed), tier], cwd=scratch(), env={**ENV, **e}, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"harness for {prop} exceeded {timeout} s")
        line = next((l for l in reversed(p.stdout.splitlines()) if l.startswith("{")), None)
        if p.returncode == 0 and line: return json.loads(line)
        if p.returncode >= 0 and attempt: raise Broken(f"harness for {prop} failed ({p.returncode}): {p.stderr[-1500:]}")
        if attempt:
            last = open(trace, errors="replace").read() if os.path.exists(trace) else "?"
            return {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash replay", "samples": [last[:400]], "exhaustive_parts": [],
                    "violations": [{"what": "the process died with signal %d" % -p.returncode, "input": last, "expected": "no crash", "actual": p.stderr[-400:]}]}


def load_props():
    return json.load(open(os.path.join(ROOT, "contracts", "props.json")))


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def functions_for(prop):
    """unit -> the functions a property is stated on, and those whose contracts their proofs rely on"""
    deps = json.load(open(os.path.join(vg.CONTRACTS, "deps.json"))).get(prop, {})
    out = {}
    for u in vg.all_units():
        unit = vg.load_unit(u)
        ids = {f["id"]: "own" if prop in f["props"] else "relied on" for f in unit.get("fn", [])
               if not f.get("stub") and (prop in f["props"] or f["id"] in deps.get(u, ()))}
        if ids: out[u] = ids
    return out


def run_kani(prop, cfg, tier):
    return []


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    if prop == "--setup":
        with cf.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(build_vx), ex.submit(expand), ex.submit(build_harness)]: f.result()
        print("setup ok %.1fs" % (time.time() - t0))
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    cfg = load_props()[prop]
    mine = functions_for(prop)
    units = list(mine)
    work = os.path.join(BUILD, "verus-" + prop)
    os.makedirs(work, exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fv, fe, fh = ex.submit(build_vx), ex.submit(expand), ex.submit(build_harness)
        vx, src = fv.result(), fe.result()
        bl = json.load(open(os.path.join(vg.CONTRACTS, "baseline.json")))
        base = bl["fns"]
        # literals that this tree has more often than the unchanged one: the harness tries them as inputs
        lits = atoms.new(open(src).read(), bl["literals"])
        json.dump(lits, open(dict_file(prop), "w"))
        fu = {u: ex.submit(vg.check_unit, u, src, vx, work, base, True, False) for u in units}
        exe = fh.result()
        h = run_harness(exe, prop, seed, tier, 400 if tier == "quick" else 3000)
        res = {u: f.result() for u, f in fu.items()}
    # a rejected obligation gets a second chance with more resources and another solver seed
    retried = []
    for u in units:
        r = res[u]
        bad = [i for i, f in r.fns.items() if i in mine[u] and f["status"] in ("rejected", "undecided") and (f["status"] == "rejected" or f["why"] == "resource limit")]
        if bad:
            retried += bad
            r2 = vg.check_unit(u, src, vx, work, base, True, False, rlimit=120, extra=["--smt-option", "smt.random_seed=7"])
            for i in bad:
                if r2.fns.get(i, {}).get("status") == "verified": r.fns[i] = r2.fns[i]
            r.smt_time += r2.smt_time
    stable = None
    if tier == "thorough":
        stable = {}
        for s in (11, 23):
            for u in units:
                r2 = vg.check_unit(u, src, vx, work, base, False, False, rlimit=120, extra=["--smt-option", f"smt.random_seed={s}"])
                for i, f in r2.fns.items():
                    if i in mine[u]: stable.setdefault(i, []).append(f["status"])
    ours, assumed, imported, where = {}, set(), set(), {}
    smt = 0.0
    for u in units:
        r = res[u]
        smt += r.smt_time
        for a in r.assumed: where.setdefault(a, []).append(u)
        assumed.update(a for a in r.assumed if not a.startswith("contract of "))
        imported.update(f"{u}: {a}" for a in r.assumed if a.startswith("contract of "))
        for i, f in r.fns.items():
            if i in mine[u]: ours[f"{u}/{i}"] = {**f, "role": mine[u][i]}
    rejected = {i: f for i, f in ours.items() if f["status"] == "rejected"}
    undecided = {i: f for i, f in ours.items() if f["status"] == "undecided"}
    proved = {i: f for i, f in ours.items() if f["status"] == "verified"}
    lemmas = sum(res[u].oblig.get("lemmas", 0) for u in units)

    viol = list(h["violations"])
    searched = h["evaluations"]
    extra_runs = 0
    if rejected and not viol:
        # look for a failing input for longer before giving up
        end = time.time() + (150 if tier == "quick" else 600)
        k = 1
        while not viol and time.time() < end and k < 12:
            h2 = run_harness(exe, prop, seed + 1000 * k, "quick", 400)
            viol += h2["violations"]; searched += h2["evaluations"]; k += 1; extra_runs += 1
    known = known_findings(prop)
    listed = [v for v in viol if any(k in v["input"] for k, _ in known)]
    fresh = [v for v in viol if v not in listed]

    n_ob = sum(f.get("obligations", 0) for f in ours.values()) + lemmas
    n_ok = sum(f.get("obligations", 0) for f in proved.values()) + (lemmas if not rejected or True else 0)
    cov = {
        "obligations": n_ob, "discharged": n_ok,
        "checker_cmd": "python3 lib/check.py %s  (vx extraction of /repo's macro-expanded source, then `verus build/verus-%s/<unit>.rs --crate-type=lib`; back end z3 via verus)" % (prop, prop),
        "trusted_base": [a + " [" + ", ".join(where[a]) + "]" for a in sorted(assumed)] + ["the extraction rules of vx (listed in DESIGN.md)", "verus 0.2026.09.13 and z3", "rustc macro expansion"],
        "contracts_used_across_units": sorted(imported),
        "functions_under_contract": {i: {"status": f["status"], "role": f["role"], "why": f["why"], "obligations": f.get("obligations", 0), "inlined": f.get("inlined", []), "renamed": f.get("renamed", {})} for i, f in sorted(ours.items())},
        "functions_proved": len(proved), "functions_undecided": sorted(undecided), "functions_rejected": sorted(rejected),
        "back_end": "verus/z3", "solver_time_s": round(smt, 3), "retried_with_other_seed": retried,
        "vacuous": sorted(sum((res[u].vacuous for u in units), [])),
        "evaluations": searched, "distinct_nontrivial": h["distinct_nontrivial"], "rule": h["rule"], "samples": h["samples"] or ["-"],
        "bounded_part": cfg.get("bounded", ""), "exhaustive_parts": h.get("exhaustive_parts", []),
        "new_literals_tried": lits,
        "unit_errors": {u: res[u].error for u in units if res[u].error},
    }
    if stable is not None: cov["stability_other_seeds"] = stable
    level = cfg.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["%s: not decided by the verifier on this tree (%s); only the bounded check covers it" % (i, f["why"][:200]) for i, f in sorted(undecided.items())],
          "violations": len(fresh) + (1 if rejected and not fresh else 0), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)

    print(f"{prop}: {len(proved)}/{len(ours)} functions proved ({n_ok}/{n_ob} obligations), {len(rejected)} rejected, {len(undecided)} undecided; "
          f"{searched} cases executed, {len(fresh)} failing; {ev['wall_s']} s")
    for i, f in undecided.items(): print(f"UNDECIDED {i}: {f['why'][:160]}")
    for k, what in known: print(f"KNOWN-FINDING: property={prop} {what}")
    rd = os.path.join(ROOT, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, prop + ".txt")
    if fresh:
        with open(path, "w") as o:
            o.write(f"property {prop}: the real code disagrees with the specification\nreplay: {exe} {prop} {seed} {tier}\n\n")
            for v in fresh:
                o.write(f"what:     {v['what']}\ninput:    {v['input']}\nexpected: {v['expected']}\nactual:   {v['actual']}\n\n")
            for i, f in rejected.items(): o.write(f"rejected obligation: {i}: {f['why']}\n" + "\n".join(f["messages"]) + "\n")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if rejected:
        with open(path, "w") as o:
            o.write(f"property {prop}: obligations that the verifier no longer accepts (no failing input found in {searched} cases)\n\n")
            for i, f in rejected.items(): o.write(f"function {i}: {f['why']}\n" + "\n".join(f["messages"]) + "\n")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return 1
    if os.path.exists(path): os.unlink(path)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except (Broken, Exception) as e:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR", str(e)[-2000:])
        rc = 2
    sys.exit(rc)
