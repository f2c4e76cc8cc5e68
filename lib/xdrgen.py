"""Test inputs: specifications (as declaration lists), their text, values' encodings.

Nothing in here decides anything: what a specification means and what a decoder
has to do with an input is decided by the TLA+ specification in ../spec.  The
encoder below only has to produce interesting byte strings; the machine says
which of them are encodings.
"""
import random
import struct as pystruct

PRIMS = ["u32", "i32", "u64", "i64", "f32", "f64", "bool"]
SPELL = {
    "u32": ["unsigned int", "unsigned", "uint32_t", "u32"],
    "i32": ["int", "int32_t", "i32"],
    "u64": ["unsigned hyper", "uint64_t", "u64"],
    "i64": ["hyper", "int64_t", "i64"],
    "f32": ["float"], "f64": ["double"], "bool": ["bool"],
    "string": ["string"], "opaque": ["opaque"],
}
RESERVED_FIELDS = ["type", "match", "fn", "self", "ref", "async", "use", "while", "Self", "box",
                   "yield", "try", "final", "abstract", "in", "move", "where", "mod", "loop"]
NOBOUND = {"k": "none", "w": [], "r": ""}


def word(n):
    return list(pystruct.pack(">I", n & 0xffffffff))


def T(k, r="", sp=None):
    d = {"k": k, "r": r}
    if sp:
        d["sp"] = sp
    return d


def ref(n):
    return T("ref", n)


def lit(n):
    return {"k": "lit", "w": word(n), "r": "", "v": n}


def cst(name):
    return {"k": "const", "w": [], "r": name}


def field(n, t, a="none", b=None, o=False):
    return {"n": n, "t": t, "a": a, "b": b or dict(NOBOUND), "o": o}


def const(n, v, hexa=False):
    return {"k": "const", "n": n, "w": word(v), "v": v,
            "lit": hexa if isinstance(hexa, str) else ("0x%X" % v) if hexa == 2 else ("0x%08x" % v) if hexa else str(v)}


def enum(n, members):
    out = []
    for m in members:
        name, v = m[0], m[1]
        l = m[2] if len(m) > 2 else str(v)
        out.append({"n": name, "w": word(v), "v": v, "lit": l})
    return {"k": "enum", "n": n, "m": out}


def struct(n, fields):
    return {"k": "struct", "n": n, "f": fields}


def lab(x):
    """5 -> numeric label, 'default', 'NAME'.  (Labels that only 8 bytes hold have 8.)"""
    if x == "default":
        return {"k": "default", "s": "default", "w": []}
    if isinstance(x, int):
        return {"k": "num", "s": str(x), "w": word(x) if x < 1 << 32 else word(x >> 32) + word(x)}
    return {"k": "id", "s": x, "w": []}


def arm(labels, n=None, t=None):
    return {"l": [lab(x) for x in labels], "void": t is None, "n": n or "", "t": t or T("u32")}


def union(n, st, arms, sn="which"):
    return {"k": "union", "n": n, "sn": sn, "st": st, "arms": arms}


def typedef(n, t, a="none", b=None):
    return {"k": "typedef", "n": n, "t": t, "a": a, "b": b or dict(NOBOUND)}


# ---------------------------------------------------------------------------
# Text.  A specification is printed as a list of tokens; layout joins them.

def type_tokens(t, rng):
    if t["k"] == "ref":
        return [t["r"]]
    sp = t.get("sp") or rng.choice(SPELL[t["k"]])
    return sp.split(" ")


def bound_tokens(a, b):
    if a == "none":
        return []
    o, c = ("<", ">") if a == "var" else ("[", "]")
    if b["k"] == "none":
        return [o, c]
    return [o, str(b["v"]) if b["k"] == "lit" else b["r"], c]


def decl_tokens(d, rng):
    k = d["k"]
    if k == "const":
        return ["const", d["n"], "=", d["lit"], ";"]
    if k == "enum":
        out = ["enum", d["n"], "{"]
        for i, m in enumerate(d["m"]):
            if i:
                out.append(",")
            out += [m["n"], "=", m["lit"]]
        return out + ["}", ";"]
    if k == "struct":
        out = ["struct", d["n"], "{"]
        for f in d["f"]:
            out += type_tokens(f["t"], rng)
            if f["o"]:
                out.append("*")
            out.append(f["n"])
            out += bound_tokens(f["a"], f["b"])
            out.append(";")
        return out + ["}", ";"]
    if k == "union":
        out = ["union", d["n"], "switch", "("] + type_tokens(d["st"], rng) + [d["sn"], ")", "{"]
        for a in d["arms"]:
            for l in a["l"]:
                out += ["default", ":"] if l["k"] == "default" else ["case", l["s"], ":"]
            if a["void"]:
                out += ["void", ";"]
            else:
                out += type_tokens(a["t"], rng) + [a["n"], ";"]
        return out + ["}", ";"]
    if k == "typedef":
        return ["typedef"] + type_tokens(d["t"], rng) + [d["n"]] + bound_tokens(d["a"], d["b"]) + [";"]
    raise ValueError(k)


def isword(s):
    return s[0].isalnum() or s[0] == "_"


COMMENTS = ["/* c */", "/**/", "/* * / ** // x; } */", "/* multi\n line\n * star */", "// line ; } {\n",
            "//\n", "/* unicode \u00e9\u4e16\U0001f600 */", "// struct x { int y; };\n", "/***/", "/* // */",
            "/* \"quoted ' */", "// /* not open\n", "/*/ tricky */", "// */ stray\n", "/*\t*/", "/* const A = 1; */", "// mac\r", "// dos {\r\n"]
SPACES = [" ", "  ", "\t", "\n", "\r\n", "\r", " \n\t", "\t\t", "\n\n", " \r\n "]


def layout(tokens, style, rng):
    """style: plain | pretty | minimal | wild (random whitespace, comments)."""
    if style == "plain":
        return " ".join(tokens) + "\n"
    out = []
    depth = 0
    for i, t in enumerate(tokens):
        prev = tokens[i - 1] if i else ""
        need = bool(prev) and isword(prev) and isword(t)
        # `unsigned int*x` is not a sentence of the grammar
        need = need or (prev in ("int", "hyper") and i > 1 and tokens[i - 2] == "unsigned")
        if style == "minimal":
            # the grammar wants whitespace between a built-in type and what follows it
            need = need or prev in ("int", "hyper", "float", "double", "string", "opaque", "unsigned")
            out.append((" " if need else "") + t)
        elif style == "pretty":
            if t == "}":
                depth -= 1
            if prev in ("{", ";", "}") and t != ";":
                out.append("\n" + "\t" * depth)
            elif need or prev in ("=", ",", ":") or t in ("{", "=", "(", "*"):
                out.append(" " if rng.random() < .8 else "\t\t")
            out.append(t)
            if t == "{":
                depth += 1
        else:
            sep = ""
            if i == 0:
                sep = rng.choice(["", "\n", "/* head */\n", "// head\n", " \t\n"])
            else:
                if need or rng.random() < .5:
                    sep += rng.choice(SPACES)
                while rng.random() < .25:
                    sep += rng.choice(SPACES) + rng.choice(COMMENTS) + rng.choice(SPACES)
            out.append(sep + t)
    text = "".join(out)
    if style == "wild":
        text += rng.choice(["", "\n", "\r\n", " ", "\n// end", "\n/* end */", "\n\n\n", " // eof comment\n"])
    if style in ("wild", "pretty"):
        # the line ends of other systems, throughout
        e = rng.choice(["\n"] * 8 + ["\r\n", "\r"])
        if e != "\n":
            text = text.replace("\r\n", "\n").replace("\r", "\n").replace("\n", e)
    return text


def tokens_of(decls, rng):
    out = []
    for d in decls:
        out += decl_tokens(d, rng)
    return out


def text_of(decls, rng, style="pretty"):
    return layout(tokens_of(decls, rng), style, rng)


# ---------------------------------------------------------------------------
# Static helpers

class Env:
    def __init__(self, decls, name="", style="pretty", tags=()):
        self.decls = decls
        self.name = name
        self.style = style
        self.tags = set(tags)
        self.by = {d["n"]: d for d in decls}
        self.members = {m["n"]: (d, m) for d in decls if d["k"] == "enum" for m in d["m"]}

    def types(self):
        return [d["n"] for d in self.decls if d["k"] != "const" and not is_self(d)]

    def bound(self, b):
        if b["k"] == "none":
            return 0xffffffff
        if b["k"] == "lit":
            return b["v"]
        return self.by[b["r"]]["v"]

    def resolve(self, t):
        n = 0
        while t["k"] == "ref" and self.by[t["r"]]["k"] == "typedef" and self.by[t["r"]]["a"] == "none" and n < 99:
            t = self.by[t["r"]]["t"]
            n += 1
        return t

    def reach(self, ty):
        """The types a value of ty is made of"""
        seen, todo = [], [ty]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.append(n)
            d = self.by[n]
            if d["k"] == "struct":
                ts = [f["t"] for f in d["f"]]
            elif d["k"] == "union":
                ts = [a["t"] for a in d["arms"] if not a["void"]]
            elif d["k"] == "typedef":
                ts = [d["t"]]
            else:
                ts = []
            todo += [t["r"] for t in ts if t["k"] == "ref"]
        return seen

    def label_value(self, l):
        if l["k"] == "num":
            return int(l["s"])
        s = l["s"]
        if s == "TRUE":
            return 1
        if s == "FALSE":
            return 0
        if s in self.by:
            return self.by[s]["v"]
        return self.members[s][1]["v"]

    def json(self):
        """The form the TLA+ modules read."""
        def tt(t):
            return {"k": t["k"], "r": t["r"]}

        def bb(b):
            return {"k": b["k"], "w": b["w"], "r": b["r"]}
        out = []
        for d in self.decls:
            k = d["k"]
            if k == "const":
                out.append({"k": k, "n": d["n"], "w": d["w"], "s": d["lit"]})
            elif k == "enum":
                out.append({"k": k, "n": d["n"], "m": [{"n": m["n"], "w": m["w"], "s": m["lit"]} for m in d["m"]]})
            elif k == "struct":
                out.append({"k": k, "n": d["n"], "f": [
                    {"n": f["n"], "t": tt(f["t"]), "a": f["a"], "b": bb(f["b"]), "o": f["o"]} for f in d["f"]]})
            elif k == "union":
                out.append({"k": k, "n": d["n"], "sn": d["sn"], "st": tt(d["st"]), "arms": [
                    {"l": a["l"], "void": a["void"], "n": a["n"], "t": tt(a["t"])} for a in d["arms"]]})
            else:
                out.append({"k": k, "n": d["n"], "t": tt(d["t"]), "a": d["a"], "b": bb(d["b"])})
        return out


SELF = {"uint32_t": "u32", "u32": "u32", "int32_t": "i32", "i32": "i32", "uint64_t": "u64", "u64": "u64",
        "int64_t": "i64", "i64": "i64"}


def is_self(d):
    return d["k"] == "typedef" and SELF.get(d["n"]) == d["t"]["k"]


# ---------------------------------------------------------------------------
# Encodings.  Enc writes a random value of a type; marks records where the
# fields that steer a decoder are: (offset, kind, info).

class Enc:
    def __init__(self, env, rng, size=12, maxlen=4096, prefer=None, pin=None):
        self.env, self.rng, self.size, self.maxlen = env, rng, size, maxlen
        self.out = bytearray()
        self.marks = []
        self.prefer = prefer          # {"count": "max"|"zero"|"one"|int}
        self.pin = pin or {}          # union/enum name -> label/member index to select first time
        self.depth = 0

    def w32(self, n):
        self.out += pystruct.pack(">I", n & 0xffffffff)

    def mark(self, kind, info=None):
        self.marks.append((len(self.out), kind, info))

    def budget(self):
        return max(0, self.maxlen - len(self.out))

    def pick_count(self, bound, unit=4, payload=False):
        r = self.rng
        room = self.budget() // max(1, unit)
        cap = min(bound, room)
        if self.depth > 6:
            cap = min(cap, 1 if self.depth < 9 else 0)
        mode = self.prefer or r.choice(["any", "any", "any", "zero", "one", "max"])
        if isinstance(mode, int):
            return min(mode, bound)
        if mode == "zero":
            return 0
        if mode == "one":
            return min(1, cap)
        if mode == "max" and bound <= (self.size * 4 if not payload else self.size * 16):
            return cap
        hi = self.size * 3 if payload else self.size // (1 + self.depth)
        return min(cap, r.randint(0, max(0, hi)))

    def prim(self, k):
        r = self.rng
        if k == "bool":
            self.mark("bool")
            self.w32(r.randint(0, 1))
        elif k in ("u32", "i32", "f32"):
            self.mark("prim")
            self.w32(r.choice([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x7fa00001, 0xff800001, 0x01020304, r.getrandbits(32), r.getrandbits(32)]))
        else:
            self.mark("prim")
            self.w32(r.choice([0, 1, 0xffffffff, 0x80000000, 0x7ff00000, 0x7ff40000, r.getrandbits(32)]))
            self.w32(r.choice([0, 1, 0xffffffff, 0x80000000, r.getrandbits(32)]))

    def pad(self):
        while len(self.out) % 4:
            self.out.append(0)

    def text(self, n):
        r = self.rng
        pool = ["a", "Z", "0", " ", "\u00e9", "\u20ac", "\U0001f600", "\u0000", "\u007f", "\ud7ff", "\ufffd", "\uffff", "\ufeff", "\r\n", "e\u0301", "\u202e", "\u2028"]
        s = b""
        if r.random() < .3:
            # what comes first or last matters to those who trim
            c = r.choice(["\ufeff", " ", "\t", "\n", "\u00a0", "\u0000", "\"", "-", "%", "\\"]).encode()
            if r.random() < .5:
                s = c if len(c) <= n else s
            elif len(c) <= n:
                return self.text(n - len(c)) + c
        while len(s) < n:
            c = r.choice(pool).encode("utf-8", "replace") if r.random() < .4 else b"x"
            if len(s) + len(c) <= n:
                s += c
            else:
                s += b"y" * (n - len(s))
        return s

    def payload(self, n):
        r = self.rng
        return bytes(r.getrandbits(8) for _ in range(n)) if n < 4096 else r.randbytes(n)

    def item(self, t, a, b, o):
        env, r = self.env, self.rng
        k = t["k"]
        if o:
            self.mark("marker")
            more = self.depth < 5 and self.budget() > 64 and r.random() < .6
            if self.pin.get("*chain", 0) > 0:
                self.pin["*chain"] -= 1
                more = True
            elif "*chain" in self.pin:
                more = False
            self.w32(1 if more else 0)
            if more:
                self.item(t, "none", NOBOUND, False)
            return
        if k == "string":
            bnd = env.bound(b)
            n = self.pick_count(bnd, 1, True)
            self.mark("strlen", bnd)
            self.w32(n)
            if n:
                self.mark("str", n)
            self.out += self.text(n)
            self.pad()
            return
        if k == "opaque":
            if a == "fix":
                self.out += self.payload(env.bound(b))
                self.pad()
                return
            bnd = env.bound(b)
            n = self.pick_count(bnd, 1, True)
            self.mark("oplen", bnd)
            self.w32(n)
            self.out += self.payload(n)
            self.pad()
            return
        if a == "fix":
            for _ in range(env.bound(b)):
                self.item(t, "none", NOBOUND, False)
            return
        if a == "var":
            bnd = env.bound(b)
            n = self.pick_count(bnd)
            self.mark("count", bnd)
            self.w32(n)
            self.depth += 1
            for _ in range(n):
                self.item(t, "none", NOBOUND, False)
            self.depth -= 1
            return
        if k != "ref":
            self.prim(k)
            return
        self.decl(env.by[t["r"]])

    def decl(self, d):
        env, r = self.env, self.rng
        k = d["k"]
        self.depth += 1
        if k == "struct":
            for f in d["f"]:
                self.item(f["t"], f["a"], f["b"], f["o"])
        elif k == "typedef":
            self.item(d["t"], d["a"], d["b"], False)
        elif k == "enum":
            self.mark("enum", [m["v"] for m in d["m"]])
            i = self.pin.pop(d["n"], None)
            m = d["m"][i] if i is not None else r.choice(d["m"])
            self.w32(m["v"])
        elif k == "union":
            self.union(d)
        self.depth -= 1

    def union(self, d):
        env, r = self.env, self.rng
        st = env.resolve(d["st"])
        labels = [(a, l) for a in d["arms"] for l in a["l"]]
        i = self.pin.pop(d["n"], None)
        a, l = labels[i] if i is not None else r.choice(labels)
        if self.depth > 7 and i is None:
            voids = [x for x in labels if x[0]["void"]]
            if voids:
                a, l = r.choice(voids)
        used = [env.label_value(x[1]) for x in labels if x[1]["k"] != "default"]
        if l["k"] == "default":
            if st["k"] == "bool":
                cand = [x for x in (0, 1) if x not in used]
            elif st["k"] == "ref":
                cand = [m["v"] for m in env.by[st["r"]]["m"] if m["v"] not in used]
            else:
                cand = [x for x in (0, 1, 2, 3, 7, 100, 0xffffffff, 0x80000000, max(used or [0]) + 1) if x not in used]
                if st["k"] in ("u64", "i64"):
                    cand += [x for x in [1 << 32, 1 << 63, (1 << 64) - 1, r.getrandbits(64)] + [u ^ (1 << 32) for u in used] if x not in used]
            if not cand:
                cand = used
                v = r.choice(cand)
                a = next(x for x, y in labels if y["k"] != "default" and env.label_value(y) == v)
            else:
                v = r.choice(cand)
        else:
            v = env.label_value(l)
        if st["k"] in ("u64", "i64"):
            self.mark("disc", [u >> 32 for u in used])
            self.w32(v >> 32)
        self.mark("disc", [u & 0xffffffff for u in used])
        self.w32(v)
        if not a["void"]:
            self.item(a["t"], "none", NOBOUND, False)


def encode(env, ty, rng, **kw):
    e = Enc(env, rng, **kw)
    e.decl(env.by[ty])
    return bytes(e.out), e.marks
