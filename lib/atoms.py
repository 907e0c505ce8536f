"""Literals of a Rust source text (comments and attributes left out), with how often each occurs."""
import collections, re
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|\#!?\[doc[^\n]*|b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?'(?P<c>[^'\\]|\\(?:[nrt0\\'"]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))'|'[A-Za-z_]\w*|[A-Za-z_]\w*|(?P<n>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)''', re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    def f(m):
        e = m.group(1)
        if e[0] == "x": return chr(int(e[1:], 16))
        if e[0] == "u": return chr(int(e[2:-1].replace("_", ""), 16))
        if e[0] == "\n": return ""
        return ESC.get(e, e)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", f, s, flags=re.S)


def count(text):
    c = {"strs": collections.Counter(), "chars": collections.Counter(), "ints": collections.Counter()}
    for m in TOK.finditer(text):
        if m.group("raw") is not None: c["strs"][m.group("raw")] += 1
        elif m.group("s") is not None: c["strs"][unescape(m.group("s"))] += 1
        elif m.group("c") is not None: c["chars"][unescape(m.group("c"))] += 1
        elif m.group("n") is not None:
            try: c["ints"][str(int(m.group("n").rstrip("_"), 0))] += 1
            except ValueError:
                t = m.group("n").replace("_", "").lstrip("0") or "0"
                c["ints"][t] += 1
    return c


def new(text, base):
    """literals that occur more often than in the baseline; strings are also offered in their parts"""
    c = count(text)
    out = {k: sorted(x for x, n in c[k].items() if n > base.get(k, {}).get(x, 0)) for k in c}
    parts = []
    for s in out["strs"]:
        if len(s) > 60: continue
        parts += [p for p in [s] + re.split(r"\{[^}]*\}", s) if p and p not in parts]
    out["strs"] = parts
    return out
