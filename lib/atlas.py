"""The small specifications of XdrAtlas, packed for generation and compilation."""
import json

from common import *
from xdrgen import *

_CACHE = {}


def specimens(level):
    """[(level, declarations as XdrAtlas prints them)], TLC's result"""
    if level not in _CACHE:
        res = tlc("XdrAtlas", env={"XDR_LEVEL": str(level)}, prefixes=("D|",), workers=4)
        seen = {}
        for _, v in res.lines:      # (TLC may evaluate a step more than once)
            seen.setdefault(json.dumps(v, sort_keys=True), v)
        _CACHE[level] = [seen[k] for k in sorted(seen)], res
    return _CACHE[level]


def renamed(ds, suffix):
    """The declarations in the form of xdrgen, every name with a suffix."""
    def nm(n):
        return n + suffix

    def val(w):
        return int.from_bytes(bytes(w), "big")

    def ty(t):
        return T(t["k"], nm(t["r"]) if t["r"] else "")

    def bd(b):
        return lit(val(b["w"])) if b["k"] == "lit" else cst(nm(b["r"])) if b["k"] == "const" else dict(NOBOUND)

    def lb(l):
        return dict(l, s=nm(l["s"])) if l["k"] == "id" and l["s"] not in ("TRUE", "FALSE") else l
    out = []
    for d in ds:
        n = nm(d["n"])
        if d["k"] == "const":
            out.append({"k": "const", "n": n, "w": d["w"], "v": val(d["w"]), "lit": d["s"]})
        elif d["k"] == "enum":
            out.append({"k": "enum", "n": n, "m": [{"n": nm(m["n"]), "w": m["w"], "v": val(m["w"]), "lit": m["s"]} for m in d["m"]]})
        elif d["k"] == "struct":
            out.append({"k": "struct", "n": n, "f": [{"n": f["n"], "t": ty(f["t"]), "a": f["a"], "b": bd(f["b"]), "o": f["o"]} for f in d["f"]]})
        elif d["k"] == "union":
            out.append({"k": "union", "n": n, "sn": d["sn"], "st": ty(d["st"]),
                        "arms": [{"l": [lb(l) for l in a["l"]], "void": a["void"], "n": a["n"], "t": ty(a["t"])} for a in d["arms"]]})
        else:
            out.append({"k": "typedef", "n": n, "t": ty(d["t"]), "a": d["a"], "b": bd(d["b"])})
    return out


def kind_of(v):
    """The class a specimen belongs to, for sampling evenly."""
    d = v[1][-1]
    if d["k"] == "struct":
        f = d["f"][min(1, len(d["f"]) - 1)]
        return (v[0], "struct", f["t"]["k"], f["a"], f["o"])
    if d["k"] == "typedef":
        return (v[0], "typedef", d["t"]["k"], d["a"])
    if d["k"] == "union":
        return (v[0], "union", d["st"]["k"], d["st"]["r"], tuple((a["void"], len(a["l"]), a["l"][-1]["k"] == "default") for a in d["arms"]))
    return (v[0], d["k"])


def sample(vs, n, r):
    by = {}
    for v in vs:
        by.setdefault(kind_of(v), []).append(v)
    for k in by:
        r.shuffle(by[k])
    ks = sorted(by, key=str)
    out = []
    while ks and len(out) < n:
        for k in list(ks):
            if len(out) < n:
                out.append(by[k].pop())
            if not by[k]:
                ks.remove(k)
    return out


def packs(r, n1, n2, n3, size=30, shuffled=True):
    """Envs of the specimens of each level, and TLC's result; e.only are the
    types the specimens are about."""
    vs, res = specimens(3)
    chosen = []
    for level, n in ((1, n1), (2, n2), (3, n3)):
        chosen += sample([v for v in vs if v[0] == level], n, r)
    r.shuffle(chosen)
    # those with an inline `opaque x;` apart, for the recorded finding bears on all of their specification
    chosen.sort(key=lambda v: any(a["t"]["k"] == "opaque" and not a["void"] for d in v[1] if d["k"] == "union" for a in d["arms"]))
    out = []
    for k in range(0, len(chosen), size):
        decls, only = [], []
        for i, v in enumerate(chosen[k:k + size]):
            ds = renamed(v[1], "_%d" % i)
            only.append(ds[-1]["n"])
            decls += ds
        if shuffled:
            r.shuffle(decls)
        e = Env(decls, "", r.choice(["pretty", "plain", "wild"]))
        e.only = only
        e.atlas = True
        out.append(e)
    return out, res
