#!/usr/bin/env python3
"""(re)write MANIFEST.json from contracts/props.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(R + "/contracts/props.json"))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl") if l.strip()]
T = "contract-based deductive verification (Verus) of mechanically extracted /repo functions; counterexample search on the real code"
checks, na = [], []
for i in ids:
    c = props.get(i)
    if c and not c.get("not_applicable"):
        checks.append({"property": i, "quick_cmd": f"python3 lib/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 lib/check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", T), "level": c.get("level", "proof"),
                       "level_note": c.get("note", "Contracts on the extracted functions discharged by Verus/z3 on every run; functions outside the verifier's reach are covered by a bounded execution of the real code.")})
    else:
        na.append({"property": i, "reason": (c or {}).get("not_applicable", "machinery for this property is still being built")})
m = {"version": 1, "setup_cmd": "python3 lib/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Level 'proof' covers the functions listed as verified in the evidence file; each evidence file separately lists what is only bounded or assumed."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")

# the functions under contract, property by property
import tomllib, glob, collections
d = collections.defaultdict(lambda: collections.defaultdict(list))
for p in sorted(glob.glob(R + "/contracts/*.toml")):
    u = os.path.basename(p)[:-5]
    t = tomllib.load(open(p, "rb"))
    for f in t.get("fn", []):
        if f.get("from") or f.get("stub"): continue
        for pr in f.get("props", t.get("props", [])): d[pr][u].append(f["id"])
with open(R + "/contracts/INDEX.md", "w") as o:
    o.write("# Functions under contract, by property (generated by lib/mkmanifest.py)\n")
    for pr in sorted(d):
        o.write(f"\n## {pr} ({sum(map(len, d[pr].values()))} functions)\n\n")
        for u, l in d[pr].items(): o.write(f"- `{u}`: " + ", ".join(l) + "\n")
