"""Generate, run and judge the Verus units.

A unit (contracts/<unit>.toml) holds contracts for functions of /repo.  Each run
  1. asks vx for the mechanically extracted body of every function (from the
     macro-expanded current source),
  2. splices the contracts, loop invariants and proof hints in at markers,
  3. runs verus, and classifies every function as verified / rejected /
     undecided (anchor lost, construct not supported, resource limit),
  4. repeats with `assert(false)` at the start of every verified body (vacuity).
"""
import copy, json, os, re, subprocess, sys, threading, tomllib, hashlib, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
CONTRACTS = os.path.join(ROOT, "contracts")

HEADER = """#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_upper_case_globals, unused_assignments, unreachable_code, unreachable_patterns, path_statements, unused_must_use)]
use vstd::prelude::*;
fn main() {}
verus! {
"""
FOOTER = "\n} // verus!\n"


VERUS_WORDS = {"int", "nat", "tracked", "ghost", "proof", "spec", "exec", "invariant", "requires", "ensures", "decreases", "open", "closed", "recommends", "is", "has", "old", "forall", "exists", "choose", "assume", "admit", "matches", "opens_invariants", "returns", "via", "when", "real"}


_UNITS, _UNITS_LOCK = {}, threading.RLock()


def load_unit(name):
    """the unit's contracts (each caller gets its own copy)"""
    with _UNITS_LOCK:
        if name not in _UNITS: _UNITS[name] = _load_unit(name)
        return copy.deepcopy(_UNITS[name])


def _load_unit(name):
    with open(os.path.join(CONTRACTS, name + ".toml"), "rb") as f:
        u = tomllib.load(f)
    u["name"] = name
    # contracts proved in another unit, used here at call sites only
    fns = []
    # one contract for several functions: $x in the texts is the member's name
    full = []
    for f in u.get("fn", []):
        if "each" in f:
            for x in f["each"]:
                t = json.dumps({k: v for k, v in f.items() if k != "each"})
                for i, y in enumerate(x if isinstance(x, list) else []): t = t.replace("$x%d" % i, y)
                full.append(json.loads(t if isinstance(x, list) else t.replace("$x", x)))
        else: full.append(f)
    for f in full:
        if "from" in f:
            un, fid = f["from"].split(":", 1)
            o = next((g for g in (_peek(un) if un != name else u)["fn"] if g["id"] == fid), None)
            if o is None: raise RuntimeError(f"{name}: no contract {f['from']}")
            g = {k: o[k] for k in ("src", "cfg", "impl", "as", "params", "requires", "ensures", "ret", "generics", "where", "sig", "attrs", "extra") if k in o}
            g.update({k: v for k, v in f.items() if k != "from"})
            g.update(id=fid, imported=f["from"], stub=True)
            f = g
        fns.append(f)
    u["fn"] = fns
    for f in u.get("fn", []):
        f.setdefault("props", u.get("props", []))
        f["unit"] = name
        if "proof" in f:
            flat = {}
            for k, v in f["proof"].items():
                if isinstance(v, dict):
                    for k2, v2 in v.items(): flat[f"{k}.{k2}"] = v2
                else: flat[k] = v
            f["proof"] = flat
    return u


def _peek(name):
    if name not in _UNITS: _UNITS[name] = _load_unit(name)
    return _UNITS[name]


def all_units():
    return sorted(p[:-5] for p in os.listdir(CONTRACTS) if p.endswith(".toml"))


def load_common():
    p = os.path.join(CONTRACTS, "common.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if k in out and isinstance(out[k], dict): out[k] = {**out[k], **v}
        elif k in out and isinstance(out[k], list): out[k] = v + [x for x in out[k] if x not in v]
        else: out[k] = v
    return out


# std functions that every unit over text and values takes from prelude/common.rs, unless it has its own
COMMON = ("trim trim_start trim_end contains starts_with ends_with strip_prefix strip_suffix trim_matches trim_start_matches "
          "trim_end_matches split_once rsplit_once replace replacen repeat to_lowercase to_uppercase eq_ignore_ascii_case is_empty len "
          "is_ascii_digit is_ascii_alphabetic is_ascii_uppercase is_ascii_lowercase is_ascii_whitespace is_ascii_punctuation "
          "is_whitespace is_alphanumeric is_alphabetic is_numeric is_control is_uppercase is_lowercase unwrap_or_default").split()


def has_common(unit):
    return "tree" in unit.get("prelude", []) and "strs" in unit.get("prelude", [])


def preludes(unit):
    ps = list(unit.get("prelude", []))
    if has_common(unit):
        if "text" not in ps: ps.append("text")
        ps.append("common")
    return ps


def vx_job(unit, source, baseline):
    job = merge(load_common(), unit.get("job", {}))
    if has_common(unit):
        own = set(unit.get("own_methods", []))
        job["methods"] = {**{m: "c_" + m for m in COMMON if m not in own}, **job.get("methods", {})}
    job["source"] = source
    job["types"] = unit.get("types", [])
    job["baseline"] = baseline
    fns = []
    for f in unit.get("fn", []):
        if f.get("stub") and not f.get("imported"): continue
        j = dict(f["src"])
        j.update(f.get("cfg", {}))
        j["id"] = f["id"]
        if f.get("proof", {}).get("end") is not None: j["bind_tail"] = True
        fns.append(j)
    job["fns"] = fns
    return job


def run_vx(vx, job, workdir, name):
    jp = os.path.join(workdir, name + ".job.json")
    json.dump(job, open(jp, "w"))
    p = subprocess.run([vx, jp], capture_output=True, text=True)
    if p.returncode != 0:
        raise RuntimeError("vx failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def rustfmt(body):
    src = "fn __f() " + body + "\n"
    p = subprocess.run(["rustfmt", "--edition", "2021", "--config", "max_width=110"], input=src,
                       capture_output=True, text=True)
    out = p.stdout if p.returncode == 0 and p.stdout.strip() else src
    i = out.index("{")
    return out[i:].rstrip()


def subst_words(text, ren):
    if not ren or not text: return text
    pat = re.compile(r"(?<![A-Za-z0-9_.])(" + "|".join(map(re.escape, ren)) + r")(?![A-Za-z0-9_(])")
    return pat.sub(lambda m: ren[m.group(1)], text)


def clause(kw, text):
    text = (text or "").strip().rstrip(",")
    return f"    {kw}\n        {text},\n" if text else ""


class Fn:
    """one function of a unit, ready to be printed"""
    def __init__(self, spec, ex):
        self.spec, self.ex = spec, ex
        self.id = spec["id"]
        self.status, self.why = None, ""
        self.messages = []
        self.ren = {}
        self.guess = None
        if not spec.get("stub"):
            if ex is None or not ex.get("ok"):
                self.status, self.why = "undecided", (ex or {}).get("error", "not extracted")

    def prepare(self):
        s, ex = self.spec, self.ex
        if s.get("stub") or self.status: return
        if [n for n in ex["notes"] if n.startswith("lower:")]:
            self.status, self.why = "undecided", "; ".join(ex["notes"])
            return
        names = [p["name"] for p in ex["params"]]
        want = s.get("params")
        if want:
            if len(want) != len(names):
                self.status, self.why = "undecided", "parameter list changed"
                return
            self.ren.update({a: b for a, b in zip(want, names) if a != b and re.fullmatch(r"\w+", b)})
        nl = len(s.get("loop", []))
        if ex["loops"] != nl:
            self.status, self.why = "undecided", f"{ex['loops']} loops in the source, {nl} under contract"
            return
        self.body = rustfmt(ex["body"])
        # locals whose names mean something else in the verifier's language
        for w in VERUS_WORDS & set(ex["locals"]):
            self.body = re.sub(r"(?<![\w.:])%s\b(?!\s*[!(]|::)" % w, w + "_l", self.body)
        # closures the lowering inlined need no contract
        n = [0]
        def renum(m):
            n[0] += 1
            return f"|{m.group(1)}| {{ __VC__({n[0] - 1});"
        b = re.sub(r"\|([^|]*)\|\s*\{\s*__vclosure!\((\d+)\);", renum, self.body)
        b = re.sub(r"__vclosure!\(\d+\);", "", b)
        self.body = b.replace("__VC__(", "__vclosure!(")
        ex["closures"] = n[0]
        if ex["closures"] != s.get("closures", len(s.get("closure", []))):
            self.status, self.why = "undecided", f"{ex['closures']} closures in the source, {s.get('closures', len(s.get('closure', [])))} under contract"
            return
        # locals the contract talks about
        wanted = s.get("locals", [])
        have = ex["locals"]
        missing = [w for w in wanted if w not in have]
        if missing:
            base = s.get("_base_locals") or wanted
            fresh = [h for h in have if h not in base]
            if len(fresh) < len(missing):
                # a local that became the collector of an iterator chain
                used = set(re.findall(r"\$acc(\d+)", json.dumps({k: s[k] for k in ("loop", "proof", "closure") if k in s})))
                accs = [v for k, v in self.temps().items() if k.startswith("acc") and k[3:] not in used]
                if len(missing) == 1 and len(accs) == 1 and not fresh: fresh = accs; self.guess = f"`{missing[0]}` taken to be the collector of a chain"
            if len(fresh) < len(missing):
                self.status, self.why = "undecided", f"locals {missing} named by the invariants are gone"
                return
            if len(fresh) > 1: self.guess = f"{missing} taken to be among {fresh}"
            self.ren.update({m: f for m, f in zip(missing, fresh)})
        # a collector that became a local filled by a loop
        temps = self.temps()
        lost = sorted({m for m in re.findall(r"\$(acc\d+)", json.dumps({k: s[k] for k in ("loop", "proof", "closure") if k in s})) if m not in temps})
        if lost:
            known = set(wanted) | set(self.ren.values())
            inside = self.body[self.body.find("__vloop!("):]
            cand = [n for n in dict.fromkeys(re.findall(r"let mut (\w+)", self.body)) if not n.startswith("__") and n not in known
                    and re.search(r"\b%s(\s*=[^=]|\.(v_)?(push|insert|extend|append)\w*\()" % re.escape(n), inside)]
            if len(lost) == 1 and len(cand) == 1:
                self.lost_acc = {lost[0]: cand[0]}
                self.guess = f"`{cand[0]}` taken for the collector of the chain under contract"

    def signature(self):
        s, ex = self.spec, self.ex
        if "sig" in s: return subst_words(s["sig"], self.ren)
        name = s.get("as", s["src"]["name"])
        params = ", ".join([p["text"] for p in ex["params"]] + s.get("extra", []))
        ret = s.get("ret")
        if ret is None and ex["ret"]: ret = ex["ret"]
        r = f" -> (r: {ret})" if ret else ""
        g = s.get("generics", ex["generics"])
        w = s.get("where", ex["where"])
        w = "\n    " + w if w else ""
        return f"pub fn {name}{g}({params}){r}{w}"

    def spec_clauses(self):
        s = self.spec
        R = lambda t: subst_words(t, self.ren)
        return (clause("requires", R(s.get("requires"))) + clause("ensures", R(s.get("ensures"))))

    def temps(self):
        """names the lowering chose: $itK the iterator of loop K, $kK/$vK the key and value it drains, $accN the N-th collector"""
        d = {}
        b = getattr(self, "body", "")
        for m in re.finditer(r"__vloop!\((\d+)\);\s*match (\w+)\.next\(\) \{\s*Some\(([^=]*?)\) =>", b):
            k, it, pat = m.groups()
            d["it" + k] = it
            q = re.fullmatch(r"\((\w+), mut (\w+)\)", pat.strip())
            if q: d["k" + k], d["v" + k] = q.groups()
            q = re.fullmatch(r"mut (\w+)", pat.strip())
            if q: d["v" + k] = q.group(1)
        for m in re.finditer(r"__vloop!\((\d+)\);\s*if !\((__i\d+) <=? (\w+)\)", b): d["i" + m.group(1)], d["end" + m.group(1)] = m.group(2), m.group(3)
        for m in re.finditer(r"let mut (\w+) = ([\w.]+)\.v_drain\(\);\s*__vloopbefore!\((\d+)\)", b): d["coll" + m.group(3)] = m.group(2)
        for n, m in enumerate(re.finditer(r"let mut (__n\d+): usize = 0;", b)): d["cnt%d" % n] = m.group(1)
        for n, m in enumerate(re.finditer(r"let mut (__sum\d+)", b)): d["sum%d" % n] = m.group(1)
        for n, m in enumerate(re.finditer(r"let mut (__b\d+) = [^;]*into_iter\(\);", b)): d["zip%d" % n] = m.group(1)
        for n, m in enumerate(re.finditer(r"let mut (__acc\w*|__fold\w*) =", b)): d["acc%d" % n] = m.group(1)
        for n, m in enumerate(re.finditer(r"let mut (__any\w*|__all\w*) =", b)): d["any%d" % n] = m.group(1)
        d.update(getattr(self, "lost_acc", {}))
        return d

    def text(self, stub=False, vacuity=False):
        s = self.spec
        temps = self.temps()
        def R(t):
            if not t: return t
            t = re.sub(r"\$([a-z]+\d+)", lambda m: temps.get(m.group(1), "__lost_" + m.group(1)), t)
            return subst_words(t, self.ren)
        attrs = s.get("attrs", "")
        if stub or s.get("stub"):
            imp = f" // imported: proved in unit {s['imported'].split(':')[0]}" if s.get("imported") else ""
            return (f"#[verifier::external_body]{imp}\n{self.signature_stub()}\n{self.spec_clauses()}{{ unimplemented!() }}\n")
        body = self.body
        pr = s.get("proof", {})
        def hint(key):
            t = R(pr.get(key, ""))
            return t if t.strip() else ""
        start = hint("start")
        if vacuity: start = start + "\n    assert(false); // VACUITY\n"
        body = "{\n" + start + body[1:]
        for k, l in enumerate(s.get("loop", [])):
            dec = l.get("dec")
            inv = "\n" + clause("invariant", R(l.get("inv"))) + clause("invariant_except_break", R(l.get("xinv"))) + clause("ensures", R(l.get("ens"))) + (clause("decreases", R(dec)) if dec else "")
            inner = ""
            if vacuity and l.get("reach", True): inner = ""
            body = re.sub(r"loop\s*\{\s*__vloop!\(%d\);" % k, lambda m: "loop" + inv + "    {" + hint(f"loop{k}.start"), body)
            body = re.sub(r"__vloopbefore!\(%d\);" % k, lambda m: hint(f"loop{k}.before"), body)
            body = re.sub(r"__vloopafter!\(%d\);" % k, lambda m: hint(f"loop{k}.after"), body)
            body = re.sub(r"__vloopbody!\(%d\);" % k, lambda m: hint(f"loop{k}.body"), body)
            body = re.sub(r"__vloopend!\(%d\);" % k, lambda m: hint(f"loop{k}.end"), body)
        cls = s.get("closure", [])
        nth = [-1]
        def cl(m):
            nth[0] += 1
            k = nth[0]  # closures that are left after lowering, in order of appearance
            if k < len(cls) and cls[k]:
                c = cls[k]
                params = c.get("params", m.group(1))
                r = f" -> ({c['ret']})" if c.get("ret") else ""
                if "$turbo" in r:
                    # the type argument the closure itself names; `I` where it names none
                    q = re.match(r"(?:(?!__vclosure!).){0,300}?\w+::<(?:'\w+,\s*)?([\w:]+)>::", m.string[m.end():], re.S)
                    r = r.replace("$turbo", q.group(1) if q else "I")
                ce = clause("requires", R(c.get("requires"))) + clause("ensures", R(c.get("ensures")))
                return f"|{params}|{r}\n{ce} {{ {R(c.get('start',''))}"
            return f"|{m.group(1)}| {{"
        body = re.sub(r"\|([^|]*)\|\s*\{\s*__vclosure!\((\d+)\);", cl, body)
        body = re.sub(r"__vclosure!\(\d+\);", "", body)
        body = re.sub(r"__vret!\(\);", lambda m: hint("ret"), body)
        body = re.sub(r"__vend!\(\);", lambda m: hint("end"), body)
        for old, new in s.get("replace", []):
            body = body.replace(old, new)
        if "wrap_body" in s: body = s["wrap_body"].replace("$BODY", body)
        dec = clause("decreases", R(s.get("decreases")))
        iso = "" if s.get("isolate") else "#[verifier::loop_isolation(false)]\n"
        return f"{iso}{attrs}\n{self.signature()}\n{self.spec_clauses()}{dec}{body}\n"

    def signature_stub(self):
        s = self.spec
        if "sig" in s: return s["sig"]
        if s.get("imported"): self.ren = {a: b for a, b in zip(s.get("params", []), [p["name"] for p in (self.ex or {}).get("params", [])]) if a != b}
        if self.ex is None or not self.ex.get("ok"): return None
        sig = self.signature()
        return re.sub(r"\bmut (\w+\s*:)", r"\1", sig).replace("(mut self", "(self")


def gen_unit(unit, ex, stubbed, vacuity=False, only=None):
    """returns text, {fn id: (first line, last line)}"""
    parts = [HEADER]
    line = HEADER.count("\n")
    ranges = {}
    def add(t):
        nonlocal line
        parts.append(t)
        line += t.count("\n")
    for p in preludes(unit):
        t = open(os.path.join(CONTRACTS, "prelude", p + ".rs")).read()
        if not t.endswith("\n"): t += "\n"
        start = line + 1
        add(t)
        ranges["prelude:" + p] = (start, line)
    for t in unit.get("types", []):
        e = ex["types"][t]
        if not e["ok"]: raise RuntimeError(f"type {t}: {e['error']}")
        d = unit.get("derive", {}).get(t, "")
        txt = e["text"]
        for a, b in unit.get("retext", {}).get(t, []): txt = re.sub(a, b, txt)
        add((d + "\n" if d else "") + rustfmt_item(txt) + "\n")
    if unit.get("mid"):
        start = line + 1
        add(unit["mid"].rstrip() + "\n")
        ranges["prelude:mid"] = (start, line)
    opened = None
    for f in unit["_fns"]:
        stub = f.id in stubbed or f.spec.get("stub")
        if stub and f.signature_stub() is None:
            continue
        imp = f.spec.get("impl", "")
        if imp: add(f"{imp} {{\n")
        start = line + 1
        add(f.text(stub=bool(stub), vacuity=vacuity and not stub))
        ranges[f.id] = (start, line)
        if imp: add("}\n")
    if unit.get("post"):
        start = line + 1
        add(unit["post"].rstrip() + "\n")
        ranges["prelude:post"] = (start, line)
    add(FOOTER)
    return "".join(parts), ranges


def rustfmt_item(t):
    p = subprocess.run(["rustfmt", "--edition", "2021"], input=t, capture_output=True, text=True)
    return p.stdout.rstrip() if p.returncode == 0 else t


def run_verus(path, extra=(), timeout=600, logdir=None):
    if logdir: extra = [*extra, "--log", "air", "--log-dir", logdir]
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time", "--multiple-errors", "4", *extra, "--", "--error-format=json"]
    # keep cargo/rustup selection as verus expects it
    env = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN"}
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path), env=env)
    except subprocess.TimeoutExpired:
        return {"timeout": True, "errors": [], "json": None, "wall": time.time() - t0, "raw": "timeout"}
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith("{"): continue
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("level") != "error" or not m.get("spans"): 
            if m.get("level") == "error" and not m["message"].startswith("aborting"): errs.append({"msg": m["message"], "spans": [], "text": m.get("rendered", ""), "code": (m.get("code") or {}).get("code") if m.get("code") else None})
            continue
        sp = [(s["line_start"], s["line_end"], s["is_primary"], s.get("label")) for s in m["spans"]]
        for c in m.get("children", []):
            for s in c.get("spans", []): sp.append((s["line_start"], s["line_end"], False, c.get("message")))
        errs.append({"msg": m["message"], "spans": sp, "text": m.get("rendered", ""), "code": (m.get("code") or {}).get("code") if m.get("code") else None})
    try: j = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError: j = None
    return {"timeout": False, "errors": errs, "json": j, "wall": time.time() - t0, "raw": p.stderr, "rc": p.returncode}


SMT_ERRORS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied",
              "assertion failed", "possible arithmetic", "possible division", "decreases not satisfied",
              "unable to prove", "could not prove", "failed", "possible bit shift", "recommendation not met",
              "loop invariant", "not satisfied", "cannot show", "might not")
RLIMIT = ("resource limit", "rlimit", "could not complete", "timed out", "Resource limit")


def owner(err, ranges):
    cands = []
    for a, b, prim, label in err["spans"]:
        for fid, (s, e) in ranges.items():
            if s <= a <= e: cands.append((0 if prim else 1, fid))
    cands.sort(key=lambda c: c[0])
    return [c[1] for c in cands]


def count_obligations(logdir, ranges):
    """labelled proof obligations (assertions in verus's AIR queries), per function"""
    out = {}
    for r, _, fs in os.walk(logdir):
        for f in fs:
            if not f.endswith(".air"): continue
            cur, want = None, False
            with open(os.path.join(r, f), errors="replace") as fh:
                for l in fh:
                    if l.startswith(";;"):
                        if want:
                            m = re.search(r":(\d+):\d+: \d+:\d+", l)
                            ln = int(m.group(1)) if m else -1
                            cur = next((i for i, (a, b) in ranges.items() if a <= ln <= b), "lemmas")
                            if cur.startswith("prelude:"): cur = "lemmas"
                            want = False
                        elif l.startswith(";; Function-Def") or l.startswith(";; Function-Termination"): want = True; cur = None
                        else: cur = None
                    elif cur and l.lstrip().startswith("(assert") :
                        out[cur] = out.get(cur, 0) + 1
    return out


class UnitResult:
    pass


def check_unit(name, source, vx, workdir, baseline, vacuity=True, verbose=False, rlimit=None, timeout=400, extra=None):
    unit = load_unit(name)
    t0 = time.time()
    res = UnitResult()
    res.name, res.fns, res.error = name, {}, None
    res.smt_time, res.rounds, res.oblig, res.assumed, res.vacuous, res.stubbed = 0.0, 0, {}, [], [], []
    try:
        job = vx_job(unit, source, baseline)
        ex = run_vx(vx, job, workdir, name)
        bl = load_baseline_locals()
        fns = []
        for f in unit.get("fn", []):
            f["_base_locals"] = bl.get(name, {}).get(f["id"])
            fn = Fn(f, ex["fns"].get(f["id"]))
            fn.prepare()
            fns.append(fn)
        unit["_fns"] = fns
        for t in unit.get("types", []):
            if not ex["types"][t]["ok"]: raise RuntimeError(f"type {t}: " + ex["types"][t]["error"])
    except Exception as e:
        res.error = str(e)
        for f in unit.get("fn", []):
            if not f.get("stub"): res.fns[f["id"]] = {"status": "undecided", "why": "unit: " + str(e)[:500], "props": f["props"]}
        res.wall = time.time() - t0
        return res
    stubbed = {f.id for f in fns if f.status == "undecided"}
    extra = ["--rlimit", str(rlimit or unit.get("rlimit", 30)), *(extra or [])]
    final = None
    for rnd in range(6):
        text, ranges = gen_unit(unit, ex, stubbed)
        path = os.path.join(workdir, name + ".rs")
        open(path, "w").write(text)
        logdir = os.path.join(workdir, name + "_air")
        subprocess.run(["rm", "-rf", logdir])
        r = run_verus(path, extra, timeout, logdir)
        res.rounds += 1
        if r["json"] and "times-ms" in r["json"]:
            try: res.smt_time += r["json"]["times-ms"].get("smt", {}).get("total", 0) / 1000.0
            except Exception: pass
        if verbose:
            for e in r["errors"]: print(e["text"])
        vr = (r["json"] or {}).get("verification-results", {})
        # compile-level problems: errors which are not proof failures
        comp = [e for e in r["errors"] if not any(k in e["msg"] for k in SMT_ERRORS) and not any(k in e["msg"] for k in RLIMIT)]
        comp += [e for e in r["errors"] if e["code"] and e not in comp]
        if r["timeout"]:
            for f in fns:
                if not f.status and not f.spec.get("stub"): f.status, f.why = "undecided", "verifier timed out"
            final = r
            break
        if comp or vr.get("encountered-vir-error") or (r["json"] is None):
            bad = set()
            for e in comp:
                for fid in owner(e, ranges):
                    if not fid.startswith("prelude:"): bad.add((fid, e["msg"]))
            newbad = {b for b, _ in bad if b not in stubbed and not b.startswith("prelude:")}
            if not newbad:
                # cannot localise: the whole unit is undecided
                msg = (comp[0]["msg"] if comp else "verus gave no result: " + r["raw"][-300:])
                for f in fns:
                    if not f.status and not f.spec.get("stub"): f.status, f.why = "undecided", "unit does not translate: " + msg[:300]
                res.error = msg
                final = r
                break
            for b, m in bad:
                f = next(f for f in fns if f.id == b)
                if not f.status: f.status, f.why = "undecided", "not in the verifier's subset: " + m[:300]
            stubbed |= newbad
            continue
        final = r
        for e in r["errors"]:
            own = [o for o in owner(e, ranges)]
            fids = [o for o in own if not o.startswith("prelude:")]
            pick = next((o for o in fids if o not in stubbed), None)
            if pick is None:
                res.error = "error outside the functions under contract: " + e["msg"]
                res.fns.setdefault("lemmas", {"status": "undecided", "why": e["msg"], "props": [], "messages": []})
                continue
            f = next(f for f in fns if f.id == pick)
            if any(k in e["msg"] for k in RLIMIT):
                if f.status != "rejected": f.status, f.why = "undecided", "resource limit"
            elif f.guess:
                f.status, f.why = "undecided", f"{e['msg']} ({f.guess})"
            else:
                f.status, f.why = "rejected", e["msg"]
            f.messages.append(e["text"])
        for f in fns:
            if not f.status and not f.spec.get("stub"): f.status = "verified"
        res.verified = vr.get("verified", 0)
        res.errors = vr.get("errors", 0)
        break
    res.stubbed = sorted(stubbed)
    res.oblig = count_obligations(logdir, ranges)
    subprocess.run(["rm", "-rf", logdir])
    # vacuity
    res.vacuous = []
    ver = [f for f in fns if f.status == "verified"]
    if vacuity and ver and not res.error:
        vs = stubbed | {f.id for f in fns if f.status != "verified" and not f.spec.get("stub") and f.status != "rejected"}
        text, ranges = gen_unit(unit, ex, vs, vacuity=True)
        path = os.path.join(workdir, name + "_vac.rs")
        open(path, "w").write(text)
        r = run_verus(path, extra, timeout)
        hit = set()
        for e in r["errors"]:
            for o in owner(e, ranges): hit.add(o)
        if r["json"] is not None and r["json"].get("verification-results", {}).get("errors", 0) > 0:
            for f in ver:
                if f.id not in hit and not f.spec.get("novac"):
                    f.status, f.why = "undecided", "vacuous: assert(false) accepted at the start of the body"
                    res.vacuous.append(f.id)
    for f in fns:
        if f.spec.get("stub"): continue
        res.fns[f.id] = {"status": f.status, "why": f.why, "props": f.spec["props"], "messages": f.messages, "obligations": res.oblig.get(f.id, 0),
                         "renamed": f.ren, "src": f.spec["src"], "inlined": (f.ex or {}).get("inlined", []),
                         "locals": (f.ex or {}).get("locals", [])}
    res.assumed = scan_assumptions(text if final is None else open(os.path.join(workdir, name + ".rs")).read())
    res.wall = time.time() - t0
    return res


def load_baseline_locals():
    p = os.path.join(CONTRACTS, "baseline.json")
    return json.load(open(p)).get("locals", {}) if os.path.exists(p) else {}


def scan_assumptions(text):
    out = []
    lines = text.splitlines()
    impl = ""
    # an assumed function that nothing calls is no assumption
    used = set(re.findall(r"(?<!fn )\b(\w+)\s*(?:::<[^()]*?>)?\(", text)) | {"eq", "cmp", "partial_cmp", "next", "drop"}
    for i, l in enumerate(lines):
        m = re.match(r"\s*impl\b.*?(?:for )?(\w+)(<[^{]*>)?\s*\{", l)
        if m: impl = m.group(1)
        if re.match(r"^\}", l): impl = ""
        if "external_body" in l:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r"\b(fn|struct|enum)\s+(\w+)", lines[k])
                if m and "// imported" in l:
                    out.append("contract of " + m.group(2) + " (" + l.split("// imported: ")[1].strip() + ")"); break
                if m and m.group(1) == "fn" and m.group(2) not in used: break
                if m:
                    out.append(("opaque type " if m.group(1) != "fn" else "assumed contract ") + (impl + "::" if impl and m.group(1) == "fn" else "") + m.group(2))
                    break
        elif re.search(r"\bassume_specification\b", l): out.append("assume_specification " + l.strip()[:100])
        elif re.search(r"\b(assume|admit)\s*\(", l): out.append("assume: " + l.strip()[:100])
        elif re.search(r"\baxiom fn\b|broadcast axiom", l): out.append("axiom " + l.strip()[:100])
        elif re.search(r"\buninterp spec fn\s+(\w+)", l): out.append("uninterpreted " + re.search(r"uninterp spec fn\s+(\w+)", l).group(1))
    return sorted(set(out))


if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("unit"); a.add_argument("--source", default="/tmp/exp.rs"); a.add_argument("--vx", default=ROOT + "/vx/target/debug/vx")
    a.add_argument("--work", default="/tmp/work"); a.add_argument("--novac", action="store_true"); a.add_argument("-q", action="store_true"); a.add_argument("--dump")
    a = a.parse_args()
    os.makedirs(a.work, exist_ok=True)
    bp = os.path.join(CONTRACTS, "baseline.json")
    if a.dump is not None:
        u = load_unit(a.unit)
        ex = run_vx(a.vx, vx_job(u, a.source, json.load(open(bp))["fns"]), a.work, a.unit)
        for k, v in ex["fns"].items():
            if a.dump in k:
                print("//", k, v.get("error"), [(p["name"], p["text"]) for p in v.get("params", [])], v.get("ret"), v.get("locals"), v.get("notes"))
                if v.get("ok"): print(rustfmt(v["body"]))
        sys.exit()
    base = json.load(open(bp))["fns"] if os.path.exists(bp) else []
    r = check_unit(a.unit, a.source, a.vx, a.work, base, vacuity=not a.novac, verbose=not a.q)
    for k, v in r.fns.items(): print(f"{v['status']:10} {k} [{v.get('obligations')}]  {v['why']}")
    print("error", r.error, "wall %.1f" % r.wall, "smt %.2f" % r.smt_time)
