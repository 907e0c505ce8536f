#!/usr/bin/env python3
"""(re)write contracts/baseline.json from an expanded source: the functions that exist (newer ones are
inlined into their callers) and the locals of every function under contract (renamed ones are matched up).
Run by hand on the unchanged tree only: python3 lib/mkbaseline.py EXPANDED.rs VX"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verusgen as vg
import atoms
src, vx = sys.argv[1], sys.argv[2]
fns, loc = set(), {}
os.makedirs("/tmp/work", exist_ok=True)
for u in vg.all_units():
    unit = vg.load_unit(u)
    old = vg.run_vx(vx, vg.vx_job(unit, src, []), "/tmp/work", u)
    fns |= {f"{i['self_ty'] or ''}|{i['name']}" for i in old["inventory"]}
fns = sorted(fns)
for u in vg.all_units():
    unit = vg.load_unit(u)
    ex = vg.run_vx(vx, vg.vx_job(unit, src, fns), "/tmp/work", u)
    loc[u] = {k: v["locals"] for k, v in ex["fns"].items() if v.get("ok") and v.get("locals")}
json.dump({"fns": fns, "locals": loc, "literals": atoms.count(open(src).read())}, open(os.path.join(vg.CONTRACTS, "baseline.json"), "w"), indent=0, sort_keys=True)
print(len(fns), "functions")
