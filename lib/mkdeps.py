#!/usr/bin/env python3
"""(re)write contracts/deps.json: for every property, the functions whose contracts its own functions'
proofs rely on (callees, transitively, across units).  The check of a property discharges these too.
Over-approximated by name.  Run by hand on the unchanged tree only: python3 lib/mkdeps.py EXPANDED.rs VX"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verusgen as vg

src, vx = sys.argv[1], sys.argv[2]
base = json.load(open(os.path.join(vg.CONTRACTS, "baseline.json")))["fns"]
os.makedirs("/tmp/work", exist_ok=True)
CALL = re.compile(r"(?<!fn )\b([A-Za-z_]\w*)\s*(?:::<[^()]*>)?\(")


def calls(text):
    out = set(CALL.findall(text))
    if re.search(r"[^=!<>]==[^=>]|!=", text): out.add("eq")
    return out


deps, nodes = {}, {}
for u in vg.all_units():
    unit = vg.load_unit(u)
    ex = vg.run_vx(vx, vg.vx_job(unit, src, base), "/tmp/work", u)
    glue = {}
    text = "".join(open(os.path.join(vg.CONTRACTS, "prelude", p + ".rs")).read() for p in vg.preludes(unit)) + unit.get("mid", "") + unit.get("post", "")
    for m in re.finditer(r"\bfn (\w+)[^{};]*?(?:ensures[^{}]*?)?\{([^{}]*)\}", text):
        if "unimplemented!" not in m.group(2): glue.setdefault(m.group(1), set()).update(calls(m.group(2)))
    names = {}
    for f in unit["fn"]:
        if f.get("stub") and not f.get("imported"): continue
        tgt = tuple(f["imported"].split(":", 1)) if f.get("imported") else (u, f["id"])
        names.setdefault(f.get("as", f["src"].get("name", "?")), set()).add(tgt)
    for f in unit["fn"]:
        if f.get("stub"): continue
        nodes[(u, f["id"])] = set(f["props"])
        e = ex["fns"].get(f["id"], {})
        todo, seen = list(calls(e.get("body") or "")), set()
        while todo:
            n = todo.pop()
            if n in seen: continue
            seen.add(n)
            todo += list(glue.get(n, ()))
        deps[(u, f["id"])] = {t for n in seen for t in names.get(n, ())} - {(u, f["id"])}
props = sorted(set().union(*nodes.values()))
out = {}
for p in props:
    own = {n for n, ps in nodes.items() if p in ps}
    todo, seen = list(own), set(own)
    while todo:
        for t in deps.get(todo.pop(), ()):
            if t not in seen: seen.add(t); todo.append(t)
    by = {}
    for u, i in sorted(seen - own): by.setdefault(u, []).append(i)
    out[p] = by
json.dump(out, open(os.path.join(vg.CONTRACTS, "deps.json"), "w"), indent=0, sort_keys=True)
for p in props: print(p, sum(p in ps for ps in nodes.values()), "own,", sum(map(len, out[p].values())), "relied on:", {u: len(x) for u, x in out[p].items()})
