"""Specifications to exercise: a catalog of small ones, and random ones."""
import random
from xdrgen import *

TRICKY = ["constant_t", "int_x", "voidish", "defaults_t", "structure", "enumish", "unionize", "switcher",
          "typedefd", "caseless", "string_t", "opaque_t", "hyperlink", "floaty", "double_t", "unsignedish",
          "boolean", "nfs_fh4", "Zed", "_under", "x9_y", "UPPER_T", "camelCase", "selfish", "typed", "self_t", "u32x", "uint32_tt", "Bytesy", "voidptr", "case_t", "structs", "unions", "in_t"]
FIELDS = ["a", "b", "id", "len", "data", "count", "value", "next", "kind", "status", "void_x", "case_no", "default_v",
          "int_y", "strings", "opaque_data", "hyper_z", "x1", "field_name", "camelCase", "UPPER", "_lead", "d", "c",
          "v", "n", "Data", "DATA", "iD", "data_", "sum", "out", "inner", "buf", "self_x", "unsigned_v", "float_z"] + RESERVED_FIELDS


def U32(): return T("u32")


class Gen:
    def __init__(self, rng, n=9, bare=True, big=False):
        self.r, self.n, self.bare, self.big = rng, n, bare, big
        self.decls, self.used = [], set()
        self.types = []      # names usable by value, in dependency order
        self.consts = []     # (name, v)
        self.enums = []
        self.k = 0

    def name(self, pre):
        r = self.r
        while True:
            self.k += 1
            n = r.choice(TRICKY) if r.random() < .25 else "%s%d" % (r.choice([pre, pre + "_", pre.upper()]), self.k)
            x = r.random()
            if x < .04:
                # alike up to far behind the start
                n = "long_%s_%s%d" % ("name_" * 13, pre, self.k)
            elif x < .08 and self.used:
                # alike but for the case, or a suffix
                o = r.choice(sorted(self.used))
                n = r.choice([o.swapcase(), o + "_v", o + "_t", o + "0", o[:1].upper() + o[1:]])
            if n not in self.used:
                self.used.add(n)
                return n

    def fname(self, seen):
        r = self.r
        while True:
            n = r.choice(FIELDS) if r.random() < .7 else "f%d" % r.randint(0, 99)
            # one generated name per field
            if n not in seen and n not in [c[0] for c in self.consts]:
                seen.add(n)
                return n

    def bound(self, allow_none=True, small=False, forfix=False):
        r = self.r
        if forfix:
            cs = [c for c in self.consts if 1 <= c[1] <= 8]
            if cs and r.random() < .4:
                return cst(r.choice(cs)[0])
            return lit(r.choice([1, 1, 2, 3, 4, 5, 7, 8]))
        x = r.random()
        if allow_none and x < .3:
            return dict(NOBOUND)
        cs = [c for c in self.consts if c[1] >= 1]
        if cs and x < .6:
            return cst(r.choice(cs)[0])
        return lit(r.choice([1, 2, 3, 4, 5, 7, 8, 16, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff,
                             r.randint(1, 30)]))

    def plain_types(self):
        return self.types

    def field_type(self):
        """(t, a, b, o) of a struct field"""
        r = self.r
        x = r.random()
        if x < .25 or not self.types and x < .55:
            return T(r.choice(PRIMS)), "none", None, False
        if x < .55:
            return ref(r.choice(self.types)), "none", None, False
        if x < .63:
            return ref_or_prim(self), "fix", self.bound(forfix=True), False
        if x < .73 and self.types:
            return ref(r.choice(self.types)), "var", self.bound(), False
        if x < .80:
            return (ref(r.choice(self.types)) if self.types and r.random() < .7 else T(r.choice(PRIMS))), "none", None, True
        if x < .87:
            form = r.choice(["none", "var"])
            return T("string"), form, self.bound() if form == "var" else None, False
        form = r.choice(["var", "var", "fix", "none" if self.bare else "var"])
        if form == "fix":
            b = cst(r.choice([c for c in self.consts if c[1] <= 64])[0]) \
                if r.random() < .3 and [c for c in self.consts if c[1] <= 64] else lit(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 33]))
            return T("opaque"), "fix", b, False
        return T("opaque"), form, self.bound() if form == "var" else None, False

    def g_const(self):
        r = self.r
        n = self.name("C")
        v = r.choice([1, 2, 3, 4, 5, 8, 16, 255, 1000, 65536, 0x7fffffff, 0xffffffff, r.randint(6, 40)])
        self.decls.append(const(n, v, r.choice([False, False, True, 2])))
        self.consts.append((n, v))

    def g_enum(self):
        r = self.r
        n = self.name("en")
        vals = r.sample([0, 1, 2, 3, 4, 5, 9, 10, 63, 255, 65535, 0x7fffffff, r.randint(70, 9999)], r.randint(1, 6))
        if r.random() < .25:
            # dense, out of order more often than not
            vals = list(range(r.choice([0, 0, 1, 2]), r.randint(3, 7)))
            r.shuffle(vals)
        elif r.random() < .5:
            vals.sort()
        ms = []
        for v in vals:
            m = self.name("M")
            ms.append((m, v, r.choice([str(v), str(v), "0x%x" % v, "0x%04X" % v])))
        d = enum(n, ms)
        self.decls.append(d)
        self.enums.append(d)
        self.types.append(n)

    def g_struct(self):
        r = self.r
        n = self.name("st")
        seen, fs = set(), []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5, 7])):
            t, a, b, o = self.field_type()
            fs.append(field(self.fname(seen), t, a, b, o))
        if all(f["a"] == "fix" and f["t"]["k"] == "opaque" for f in fs):
            fs.append(field(self.fname(seen), T("u32")))
        if r.random() < .2:
            # recursion
            if r.random() < .6:
                fs.append(field(self.fname(seen), ref(n), o=True))
            else:
                fs.append(field(self.fname(seen), ref(n), "var", self.bound()))
        self.decls.append(struct(n, fs))
        self.types.append(n)

    def arm_body(self, seen):
        r = self.r
        if r.random() < .2:
            seen = set()     # the names of arms mean nothing, and may be the same
        x = r.random()
        if x < .25:
            return None, None
        if x < .45:
            return self.fname(seen), T(r.choice(PRIMS))
        if x < .55:
            return self.fname(seen), T("string")
        if x < .62 and self.bare:
            return self.fname(seen), T("opaque")
        if self.types:
            return self.fname(seen), ref(r.choice(self.types))
        return self.fname(seen), T("u32")

    def switch(self):
        r = self.r
        opts = ["u32", "i32", "u32", "bool", "u64", "i64"]
        if self.enums:
            opts += ["enum"] * 4
        k = r.choice(opts)
        t = ref(r.choice(self.enums)["n"]) if k == "enum" else T(k)
        base = t
        # behind typedefs
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            n = self.name("sw")
            self.decls.append(typedef(n, t))
            self.types.append(n)
            t = ref(n)
        return t, base

    def g_union(self):
        r = self.r
        t, base = self.switch()
        n = self.name("un")
        cand = []      # (value, [labels])
        if base["k"] == "bool":
            cand = [(v, r.choice([w, w, v] + [c[0] for c in self.consts if c[1] == v])) for v, w in ((1, "TRUE"), (0, "FALSE"))]
        elif base["k"] == "ref":
            e = next(d for d in self.enums if d["n"] == base["r"])
            for m in e["m"]:
                opts = [m["n"], m["n"], m["v"]] + [c[0] for c in self.consts if c[1] == m["v"]]
                cand.append((m["v"], r.choice(opts)))
        else:
            hi = {"i32": 0x7fffffff}.get(base["k"], 0xffffffff)
            for v in r.sample([0, 1, 2, 3, 4, 7, 10, 42, 1000, 0x7fffffff, 0xffffffff, 0x80000000], 6):
                if v <= hi:
                    cand.append((v, v))
            if base["k"] in ("i64", "u64"):
                wide = [1 << 32, (1 << 32) + 1, (1 << 63) - 1, 7 << 32, 0x0102030405060708] + ([1 << 63, (1 << 64) - 1] if base["k"] == "u64" else [])
                cand += [(v, v) for v in r.sample(wide, 2)]
            for c in self.consts:
                if c[1] <= hi and c[1] not in [x[0] for x in cand] and r.random() < .5:
                    cand.append((c[1], c[0]))
            for e in self.enums:
                for m in e["m"]:
                    if m["v"] not in [x[0] for x in cand] and r.random() < .3:
                        cand.append((m["v"], m["n"]))
        r.shuffle(cand)
        labels = [c[1] for c in cand[:r.randint(1, len(cand))]]
        dflt = r.random() < .5
        if base["k"] == "bool" and len(labels) == 2:
            dflt = dflt and r.random() < .3
        if dflt:
            labels.insert(r.choice([len(labels), len(labels), r.randint(0, len(labels))]), "default")
        seen = set()
        arms = []
        i = 0
        while i < len(labels):
            g = r.choice([1, 1, 1, 2, 3])
            group = labels[i:i + g]
            if "default" in group and group[-1] != "default":
                group = group[:group.index("default") + 1]   # default is last of its group
            i += len(group)
            fn, ft = self.arm_body(seen)
            arms.append(arm(group, fn, ft))
        sn = self.r.choice(["which", "status", "type", "kind", "d", "v", "c", "set_it", n if r.random() < .1 else "s",
                            (self.consts[0][0] if self.consts and r.random() < .2 else "tag")])
        self.decls.append(union(n, t, arms, sn))
        self.types.append(n)

    def g_typedef(self):
        r = self.r
        n = self.name("ty")
        x = r.random()
        if x < .2:
            d = typedef(n, T(r.choice(PRIMS)))
        elif x < .35:
            form = r.choice(["none", "var", "var"])
            d = typedef(n, T("string"), form, self.bound() if form == "var" else None)
        elif x < .6:
            form = r.choice(["none", "var", "var", "fix"])
            b = None
            if form == "var":
                b = self.bound()
            elif form == "fix":
                b = lit(r.choice([1, 2, 3, 4, 8, 13]))
                if r.random() < .4 and [c for c in self.consts if c[1] <= 64]:
                    b = cst(r.choice([c for c in self.consts if c[1] <= 64])[0])
            d = typedef(n, T("opaque"), form, b)
        elif x < .7 or not self.types:
            d = typedef(n, T(r.choice(PRIMS)), "fix", self.bound(forfix=True))
        else:
            form = r.choice(["none", "none", "var", "var", "fix"])
            b = self.bound() if form == "var" else self.bound(forfix=True) if form == "fix" else None
            d = typedef(n, ref(r.choice(self.types)), form, b)
        self.decls.append(d)
        self.types.append(n)

    def build(self):
        r = self.r
        for _ in range(r.choice([0, 1, 2, 3])):
            self.g_const()
        if r.random() < .15:
            self.decls.append(typedef("uint32_t", T("u32", sp="unsigned int")))
        if r.random() < .1:
            self.decls.append(typedef("int64_t", T("i64", sp="hyper")))
        for _ in range(self.n):
            r.choice([self.g_enum, self.g_struct, self.g_struct, self.g_struct, self.g_union, self.g_union,
                      self.g_typedef, self.g_typedef])()
        # mutual recursion through links
        structs = [d for d in self.decls if d["k"] == "struct"]
        if len(structs) >= 2 and r.random() < .4:
            a, b = r.sample(structs, 2)
            a["f"].append(field("back_%d" % r.randint(0, 99), ref(b["n"]), *(("none", None, True) if r.random() < .6 else ("var", self.bound(), False))))
        if r.random() < .8:
            r.shuffle(self.decls)
        return self.decls


def ref_or_prim(g):
    r = g.r
    if g.types and r.random() < .6:
        return ref(r.choice(g.types))
    return T(r.choice(PRIMS))


def min_size_ok(env):
    """No element type of a counted array may be empty on the wire."""
    memo = {}

    def item(t, a, b, o):
        if o or a == "var" or t["k"] in ("string",):
            return 4
        if t["k"] == "opaque":
            return env.bound(b) if a == "fix" else 4
        one = size(t["r"]) if t["k"] == "ref" else 4
        return env.bound(b) * one if a == "fix" else one

    def size(n):
        if n in memo:
            return memo[n]
        memo[n] = 0
        d = env.by[n]
        if d["k"] in ("enum", "union"):
            v = 4
        elif d["k"] == "struct":
            v = sum(item(f["t"], f["a"], f["b"], f["o"]) for f in d["f"])
        else:
            v = item(d["t"], d["a"], d["b"], False)
        memo[n] = v
        return v
    total = 0
    for n in env.types():
        if size(n) == 0:
            return False
        if size(n) > 3000:
            return False
    return True


def twins(decls, r, times=1):
    """The declarations and, somewhere among them, copies of some under names
    that differ in case, in the last or in the first character only."""
    out = list(decls)
    names = {d["n"] for d in out} | {m["n"] for d in out for m in d.get("m", [])} | set(FIELDS) | {x["n"] for d in out for x in d.get("f", []) + d.get("arms", [])}
    for _ in range(times):
        d = r.choice(out)
        change = r.choice([str.swapcase, str.upper, str.lower, lambda s: s + "_", lambda s: s + "2", lambda s: "x" + s, lambda s: "_" + s,
                           lambda s: s[:-1] + ("q" if s[-1] != "q" else "z")])
        new = [change(d["n"])]
        for m in d.get("m", []):
            # a member must not have the name of another
            new.append(next((n for n in [f(m["n"]) for f in [change, str.swapcase, str.lower, str.upper, lambda s: s + "_"]] if n not in names and n not in new), m["n"]))
        if len(set(new)) < len(new) or any(n in names or n in TRICKY or n in KEYWORDS or is_self({"k": "typedef", "n": n, "t": d.get("t", {"k": ""})}) or n.rstrip("0123456789") in ("u", "i") for n in new):
            continue
        names |= set(new)
        c = dict(d, n=new[0])
        if d["k"] == "enum":
            c["m"] = [dict(m, n=n) for m, n in zip(d["m"], new[1:])]
        out.insert(r.randint(0, len(out)), c)
    return out


KEYWORDS = set(RESERVED_FIELDS) | {"const", "enum", "struct", "union", "switch", "case", "default", "typedef", "void", "int", "unsigned", "hyper",
                                   "float", "double", "string", "opaque", "bool", "true", "false", "self", "Self", "super", "crate"}


def random_env(rng, n=None, bare=None, style=None):
    while True:
        g = Gen(rng, n if n is not None else rng.choice([3, 5, 7, 9, 11]), bare if bare is not None else rng.random() < .25)
        ds = g.build()
        if rng.random() < .35:
            ds = twins(ds, rng, rng.choice([1, 1, 2]))
        e = Env(ds, style=style or rng.choice(["pretty", "wild", "wild", "minimal", "plain"]))
        if min_size_ok(e):
            return e


# ---------------------------------------------------------------------------

def catalog():
    """Named small specifications covering each construct by itself and in pairs."""
    out = []

    def add(name, decls, style="pretty", tags=()):
        out.append(Env(decls, name, style, tags))
    P = PRIMS
    add("prims", [struct("all_prims", [field("f_" + k, T(k)) for k in P]),
                  struct("spellings", [field("s%d" % i, T(k, sp=sp)) for i, (k, sp) in
                                       enumerate((k, sp) for k in P for sp in SPELL[k])]),
                  typedef("my_bool", T("bool")), typedef("my_f64", T("f64")), typedef("my_i64", T("i64")),
                  struct("holder", [field("b", ref("my_bool")), field("d", ref("my_f64")), field("h", ref("my_i64"))])])
    add("optprims", [struct("opts", [field("o_" + k, T(k), o=True) for k in P])])
    add("fixprims", [const("THREE", 3)] +
        [struct("fix", [field("a_" + k, T(k), "fix", lit(2)) for k in P] + [field("c", T("u32"), "fix", cst("THREE"))]),
         typedef("quad", T("u32"), "fix", lit(4)), typedef("tri", T("bool"), "fix", cst("THREE")),
         struct("uses", [field("q", ref("quad"), "fix", lit(2)), field("t", ref("tri")), field("o", ref("quad"), o=True)]),
         typedef("quads", ref("quad"), "var", lit(3))])
    add("strings", [const("MAXS", 5), const("HEXS", 6, True),
                    struct("strs", [field("s0", T("string")), field("s1", T("string"), "var"),
                                    field("s2", T("string"), "var", lit(4)), field("s3", T("string"), "var", cst("MAXS")),
                                    field("s4", T("string"), "var", cst("HEXS")), field("tail", T("u32"))]),
                    typedef("str0", T("string")), typedef("str1", T("string"), "var"),
                    typedef("str2", T("string"), "var", lit(3)), typedef("str3", T("string"), "var", cst("MAXS")),
                    typedef("chain1", ref("str2")), typedef("chain2", ref("chain1")),
                    struct("arrs", [field("x", ref("str2"), "var", lit(3)), field("y", ref("chain2"), "fix", lit(2)),
                                    field("z", ref("str3"), o=True)])])
    add("opaques", [const("N7", 7), const("HX", 9, True),
                    struct("ops", [field("a", T("opaque"), "var"), field("b", T("opaque"), "var", lit(3)),
                                   field("c", T("opaque"), "var", cst("N7")), field("d", T("opaque"), "fix", lit(5)),
                                   field("e", T("opaque"), "fix", cst("N7")), field("f", T("opaque"), "fix", cst("HX")),
                                   field("z", T("opaque"), "fix", lit(0)), field("tail", T("u64"))]),
                    typedef("op0", T("opaque")), typedef("op1", T("opaque"), "var"),
                    typedef("op2", T("opaque"), "var", lit(6)), typedef("op3", T("opaque"), "var", cst("N7")),
                    typedef("fx1", T("opaque"), "fix", lit(1)), typedef("fx2", T("opaque"), "fix", cst("N7")),
                    typedef("och1", ref("op2")), typedef("och2", ref("och1")), typedef("fch", ref("fx2")),
                    struct("uses", [field("p", ref("op0"), "var"), field("q", ref("op2"), "fix", lit(2)),
                                    field("r", ref("och2"), "var", lit(2)), field("s", ref("fx1"), "var", cst("N7")),
                                    field("t", ref("fch"), o=True), field("u", ref("op3"), o=True),
                                    field("w", ref("fx2"), "fix", lit(3))]),
                    typedef("list_of_ops", ref("ops"), "var", lit(3)), typedef("fxs", ref("fx1"), "fix", lit(3)),
                    typedef("opl", ref("op2"), "var", cst("N7"))])
    add("bare", [struct("one", [field("x", T("opaque"))]),
                 struct("mix", [field("n", T("u32")), field("x", T("opaque")), field("m", T("u32"))]),
                 typedef("ones", ref("one"), "var"), struct("arr", [field("l", ref("mix"), "var", lit(3)), field("t", T("u32"))]),
                 union("bu", T("u32"), [arm([1], "x", T("opaque")), arm([2], "y", T("u32")), arm(["default"], "z", T("opaque"))]),
                 struct("barr", [field("l", ref("bu"), "var")]), struct("opt", [field("o", ref("one"), o=True)]),
                 enum("be_c", [("BE_A", 0), ("BE_B", 1)]), struct("be", [field("x", T("opaque")), field("c", ref("be_c"))]), typedef("bes", ref("be"), "var")])
    add("enums", [enum("color", [("RED", 0), ("GREEN", 1, "0x1"), ("BLUE", 16, "0x10"), ("MAXV", 0x7fffffff, "0x7FFFFFFF")]),
                  enum("solo", [("ONLY", 5)]), typedef("hue", ref("color")),
                  struct("palette", [field("a", ref("color")), field("b", ref("color"), "fix", lit(2)),
                                     field("c", ref("color"), "var", lit(3)), field("d", ref("color"), o=True),
                                     field("e", ref("hue"), "var"), field("s", ref("solo"))])])
    # unions over every kind of switch
    add("union_ints", [const("KC", 77), const("KH", 0x50, True), enum("en", [("EA", 3), ("EB", 400)]),
                       typedef("disc_t", T("u32")), typedef("disc_u", ref("disc_t")),
                       union("uu", T("u32"), [arm([1], "a", T("u32")), arm(["KC", 2], "b", T("string")), arm(["EA", "KH"]),
                                              arm([4294967295], "m", T("u64"))]),
                       union("ui", T("i32"), [arm([0], "a", T("bool")), arm(["EB"], "b", ref("uu")), arm([2147483647]),
                                              arm(["default"], "rest", T("i64"))]),
                       union("ud", ref("disc_u"), [arm([5, 6, 7], "x", T("f32")), arm([8, "default"])]),
                       union("ue", T("u32"), [arm([5], "x", T("u32")), arm([6, "default"], "y", ref("en"))]),
                       struct("all", [field("a", ref("uu")), field("b", ref("ui"), "var", lit(4)), field("c", ref("ud"), "fix", lit(2)),
                                      field("d", ref("ue"), o=True)])])
    add("union_bool", [typedef("flag", T("bool")),
                       union("ub", T("bool"), [arm(["TRUE"], "x", T("u32")), arm(["FALSE"])]),
                       union("ub2", ref("flag"), [arm(["FALSE"], "y", T("string")), arm(["TRUE"])]),
                       union("ub3", T("bool"), [arm(["TRUE"], "x", ref("ub"))]),
                       union("ub4", T("bool"), [arm(["TRUE"], "x", ref("ub2")), arm(["default"])]),
                       union("ub5", T("bool"), [arm(["TRUE", "FALSE"], "x", T("u64"))]),
                       const("CON", 1), const("HON", 1, True), const("HOFF", 0, 2),
                       union("ub6", T("bool"), [arm(["HON"], "x", T("u64")), arm([0])]),
                       union("ub7", ref("flag"), [arm(["HOFF"], "x", T("opaque")), arm(["CON"], "y", ref("ub6"))]),
                       union("ub8", ref("flag"), [arm([1], "x", ref("ub7")), arm(["default"], "z", T("u32"))]),
                       typedef("bools", ref("ub4"), "var")])
    add("union_enum", [enum("st", [("OK_V", 0), ("BAD", 1), ("WORSE", 2, "0x02"), ("LAST", 99)]), typedef("st_t", ref("st")),
                       typedef("st_tt", ref("st_t")), const("CW", 2),
                       union("u1", ref("st"), [arm(["OK_V"], "v_ok", T("u32")), arm(["BAD", "WORSE"], "e", T("string")), arm(["LAST"])]),
                       union("u2", ref("st_tt"), [arm(["WORSE"], "w", ref("u1")), arm(["OK_V", "LAST"]), ]),
                       union("u3", ref("st"), [arm([0], "z", T("bool")), arm(["CW"], "w", T("i32")), arm(["default"])]),
                       const("HW", 2, 2), const("HL", 99, 2), const("HB", 1, True),
                       union("u5", ref("st_t"), [arm(["HL", "HW"], "w", T("bool")), arm(["HB"])]),
                       union("u4", ref("st_t"), [arm(["default"], "w", T("opaque")) if False else arm(["default"], "w", T("u64")), arm(["BAD"])]),
                       struct("s", [field("l", ref("u1"), "var"), field("m", ref("u2"), "fix", lit(2)), field("n", ref("u3"), o=True),
                                    field("p", ref("u4"), "var", lit(2))])])
    add("union_hyper", [typedef("big", T("u64")), const("ANS", 42), enum("be", [("B1", 7)]),
                        union("uh", T("u64"), [arm([1], "a", T("u32")), arm(["ANS"], "b", T("string")), arm(["B1"])]),
                        union("uh2", ref("big"), [arm([3, 4], "a", ref("uh")), arm(["default"])]),
                        union("uh3", T("i64"), [arm([9]), arm(["default"], "r", T("u32"))]),
                        union("uh4", ref("big"), [arm([(1 << 64) - 1, 0]), arm([1 << 32, 1 << 63], "a", T("u64")), arm([1, (1 << 32) + 1], "b", T("opaque"))]),
                        union("uh5", T("i64"), [arm([(1 << 63) - 1], "a", ref("uh4")), arm(["ANS", 42 << 32]), arm(["default"], "c", T("bool"))]),
                        struct("sh", [field("l", ref("uh"), "var"), field("m", ref("uh2"), "var", lit(3)), field("k", ref("uh3"), "fix", lit(2))]),
                        struct("si", [field("l", ref("uh4"), "fix", lit(2)), field("m", ref("uh5"), "var")])])
    add("lists", [struct("entry", [field("id", T("u32")), field("name", T("string"), "var", lit(8)), field("next", ref("entry"), o=True)]),
                  struct("tree", [field("v", T("u32")), field("kids", ref("tree"), "var", lit(3))]),
                  struct("gtree", [field("d", T("opaque"), "var", lit(4)), field("kids", ref("gtree"), "var"), field("up", ref("gtree"), o=True)]),
                  union("ulist", T("u32"), [arm([0]), arm([1], "rest", ref("ucons"))]),
                  struct("ucons", [field("head", T("u32")), field("tail", ref("ulist"), o=True)]),
                  struct("dir", [field("entries", ref("entry"), o=True), field("eof", T("bool"))])])
    add("chains", [typedef("c0", T("u32"))] + [typedef("c%d" % i, ref("c%d" % (i - 1))) for i in range(1, 14)] +
        [typedef("g0", T("opaque"), "var", lit(9))] + [typedef("g%d" % i, ref("g%d" % (i - 1))) for i in range(1, 13)] +
        [struct("deep", [field("a", ref("c13")), field("b", ref("g12")), field("c", ref("g12"), "var"), field("d", ref("c13"), "fix", lit(2))])])
    add("nest", [struct("s0", [field("n", T("string")), field("x", T("opaque"), "var")]),
                 typedef("l0", ref("s0"), "var"), struct("s1", [field("l", ref("l0"), "var", lit(3)), field("t", T("u32"))]),
                 typedef("l1", ref("s1"), "var"), union("nu", T("u32"), [arm([1], "l", ref("l1")), arm([2], "s", ref("s1")), arm([3])]),
                 struct("s2", [field("us", ref("nu"), "var"), field("fx", ref("l0"), "fix", lit(2)), field("end", T("u64"))]),
                 typedef("l2", ref("s2"), "var", lit(2))])
    add("reserved", [struct("kw", [field(n, T("u32")) for n in RESERVED_FIELDS]),
                     struct("kw2", [field("type", T("opaque"), "var"), field("match", T("string")), field("fn", ref("kw"), o=True),
                                    field("impl", ref("kw"), "var"), field("crate", T("u32"), "fix", lit(2))]),
                     union("swkw", T("u32"), [arm([1], "type", T("u32"))], "type"),
                     union("swv", T("u32"), [arm([1], "x", T("string")), arm([2])], "v"),
                     typedef("status", T("u32")), union("swt", ref("status"), [arm([1], "x", ref("kw2")), arm(["default"])], "status"),
                     const("LIMIT", 3), union("swc", T("i32"), [arm(["LIMIT"], "x", T("u32"))], "LIMIT")])
    # names one of which could be taken for another
    add("alike", [const("limit_c", 3), const("LIMIT_C", 5), const("Limit_C", 6), const("limit_c2", 9), const("limitc", 1),
                  enum("hue_e", [("red_m", 0), ("Red_m", 1), ("RED_M", 2), ("red_m1", 3), ("redm", 4)]),
                  enum("Hue_e", [("RED_m", 7), ("red_M", 8)]), enum("HUE_E", [("reD_m", 1), ("red__m", 0)]), enum("hue", [("re_dm", 2), ("hue_red", 3)]),
                  struct("pt", [field("x", T("u32")), field("X", T("string"))]), struct("Pt", [field("x", T("u64")), field("x_", T("bool")), field("x_v", T("u32"))]),
                  struct("PT", [field("x", T("opaque"), "var"), field("xx", ref("pt"), o=True), field("y", ref("Pt"), "fix", lit(2))]),
                  struct("pt_v", [field("p", ref("Pt")), field("P", ref("pt"))]), struct("pt_", [field("p", ref("PT")), field("q", ref("PT"), "var", cst("limit_c"))]),
                  typedef("pts", ref("pt"), "var", cst("LIMIT_C")), typedef("Pts", ref("PT"), "var", cst("Limit_C")), typedef("pTs", T("u32")),
                  typedef("ptsv", ref("pTs")), typedef("Opaque", T("u32")), typedef("opaque_", T("opaque"), "var", cst("limitc")), typedef("strings_t", T("string"), "var", cst("limit_c")),
                  typedef("Strings_t", T("opaque"), "fix", cst("limit_c2")), typedef("uint_", T("u64")), typedef("Uint_", T("bool")),
                  union("ch", ref("hue_e"), [arm(["red_m"], "a", ref("pt")), arm(["RED_M", "Red_m"], "A", ref("Pts")), arm(["redm"])]),
                  union("Ch", ref("Hue_e"), [arm(["red_M"], "a", ref("PT")), arm(["RED_m"], "a_", ref("Uint_"))]),
                  union("cH", T("u32"), [arm(["limit_c"], "a", ref("uint_")), arm(["LIMIT_C"], "b", ref("pTs")), arm(["red_M", "Limit_C"], "c", ref("Opaque")), arm(["default"])]),
                  union("CH", ref("pTs"), [arm(["reD_m"], "a", ref("Ch")), arm(["red__m"], "b", ref("ch")), arm(["re_dm"], "c", ref("cH"))]),
                  struct("ch_all", [field("a", ref("ch")), field("A", ref("Ch"), "var", cst("limitc")), field("b", ref("cH"), "fix", cst("limit_c")), field("B", ref("CH"), o=True),
                                    field("c", ref("opaque_")), field("C", ref("Strings_t")), field("d", ref("strings_t"), "var"), field("e", ref("HUE_E")), field("f", ref("hue"), "fix", lit(2))])])
    add("selftypedef", [typedef("uint32_t", T("u32", sp="unsigned int")), typedef("int64_t", T("i64", sp="hyper")),
                        struct("st", [field("a", T("u32", sp="uint32_t")), field("b", T("i64", sp="int64_t"))]),
                        typedef("uuid", T("u32", sp="uint32_t"), "fix", lit(4))])
    add("bounds", [const("B16", 65536), const("B31", 0x7fffffff), const("BM", 0xffffffff), const("B0", 0),
                   struct("bo", [field("a", T("opaque"), "var", cst("B16")), field("b", T("opaque"), "var", cst("B31")),
                                 field("c", T("opaque"), "var", cst("BM")), field("d", T("string"), "var", lit(255)),
                                 field("e", T("string"), "var", lit(0x80000000))]),
                   typedef("el", T("u32")), struct("ar", [field("a", ref("el"), "var", cst("BM")), field("b", ref("el"), "var", lit(256)),
                                                           field("c", ref("el"), "var", cst("B31"))]),
                   struct("zero", [field("n", T("u32")), field("o", T("opaque"), "var", lit(0)), field("s", T("string"), "var", cst("B0")),
                                   field("l", ref("el"), "var", lit(0))])])
    add("nfsish", [const("NFS4_FHSIZE", 128), const("NFS4_VERIFIER_SIZE", 8), typedef("uint64_t", T("u64", sp="unsigned hyper")),
                   typedef("nfs_fh4", T("opaque"), "var", cst("NFS4_FHSIZE")), typedef("verifier4", T("opaque"), "fix", cst("NFS4_VERIFIER_SIZE")),
                   typedef("utf8string", T("opaque"), "var"), typedef("utf8str_cs", ref("utf8string")), typedef("component4", ref("utf8str_cs")),
                   typedef("pathname4", ref("component4"), "var"), typedef("attrlist4", T("opaque"), "var"),
                   enum("nfsstat4", [("NFS4_OK", 0), ("NFS4ERR_PERM", 1), ("NFS4ERR_IO", 5), ("NFS4ERR_STALE", 70)]),
                   struct("fattr4", [field("attrmask", T("u32"), "fix", lit(3)), field("attr_vals", ref("attrlist4"))]),
                   struct("entry4", [field("cookie", T("u64", sp="uint64_t")), field("name", ref("component4")), field("attrs", ref("fattr4")),
                                     field("nextentry", ref("entry4"), o=True)]),
                   struct("dirlist4", [field("entries", ref("entry4"), o=True), field("eof", T("bool"))]),
                   struct("READDIR4resok", [field("cookieverf", ref("verifier4")), field("reply", ref("dirlist4"))]),
                   union("READDIR4res", ref("nfsstat4"), [arm(["NFS4_OK"], "resok4", ref("READDIR4resok")), arm(["default"])], "status"),
                   union("op", ref("nfsstat4"), [arm(["NFS4_OK"], "r", ref("READDIR4res")), arm(["NFS4ERR_PERM", "NFS4ERR_IO"], "p", ref("pathname4")),
                                                 arm(["default"], "fh", ref("nfs_fh4"))], "argop"),
                   struct("COMPOUND4args", [field("tag", ref("utf8str_cs")), field("minorversion", T("u32")), field("argarray", ref("op"), "var")])])
    add("big", [const("WIDE", 0x20, True),
                enum("many", [("MB_%d" % i, i * 3 + 1) for i in range(140)]),
                enum("sparse", [("SP_%d" % i, (i * 0x1357924) % 0x7fffffff) for i in range(33)]),
                struct("fat", [field("m%d" % i, *[(T("u32"), "none", None, False), (T("u64"), "none", None, False), (T("bool"), "none", None, False),
                                                  (T("string"), "var", lit(9), False), (T("opaque"), "var", lit(300), False),
                                                  (ref("many"), "none", None, False), (T("f64"), "none", None, True),
                                                  (ref("sparse"), "var", lit(4), False), (T("opaque"), "fix", lit(i), False)][i % 9])
                               for i in range(44)]),
                union("hub", T("u32"), [arm(list(range(0, 12)), "lo", T("u32")), arm(["MB_9", "MB_10", "MB_11"], "mm", T("string")),
                                        arm(list(range(100, 130)), "mid", ref("fat")), arm([1000, 1001, 1002]), arm([65535, 65536, 16777216], "b", ref("sparse")),
                                        arm([0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe], "hi", T("u64")), arm(["default"])]),
                union("hub2", ref("many"), [arm(["MB_%d" % i for i in range(0, 70)], "a", T("u64")), arm(["MB_%d" % i for i in range(70, 139)]),
                                            arm(["MB_139"], "z", T("string"))]),
                struct("row", [field("c", T("u32"), "fix", cst("WIDE")), field("f", T("u64"), "fix", lit(40))]),
                typedef("rows", ref("row"), "fix", lit(3)), typedef("hubs", ref("hub"), "var"),
                typedef("manys", ref("many"), "var", lit(200))])
    # more than 256 of a declaration's parts
    add("many", [const("KM_%d" % i, i * 5 + 1) for i in range(60)] +
        [typedef("td_%d" % i, T(["u32", "u64", "bool", "i32"][i % 4])) for i in range(60)] +
        [enum("lots", [("LM_%d" % i, i * 2) for i in range(260)]),
         struct("wide_s", [field("f%d" % i, *([(T("u32"),), (T("bool"),), (T("string"), "var", cst("KM_%d" % (i % 60)))][i % 3])) for i in range(260)]),
         union("arms_u", T("u32"), [arm([i]) if i % 2 else arm([i], "a%d" % i, T("u32") if i % 4 else T("bool")) for i in range(260)]),
         union("labels_u", T("u32"), [arm(list(range(0, 258)), "x", T("u64")), arm(["LM_%d" % i for i in range(257, 260)])]),
         union("const_u", T("i64"), [arm(["KM_%d" % i], "x%d" % i, ref("td_%d" % i)) for i in range(0, 60, 3)] + [arm(["default"])]),
         struct("long_a", [field("a", T("u32"), "fix", lit(129)), field("b", T("u64"), "fix", lit(65)), field("c", T("bool"), "fix", cst("KM_52")),
                           field("d", ref("td_59"), "fix", lit(70))])], style="minimal")
    out[-1].only = ["wide_s", "arms_u", "labels_u", "const_u", "long_a", "td_7"]
    # the ways to write numbers
    nums = ["0", "1", "9", "10", "99", "100", "255", "256", "1000", "65535", "65536", "99999", "1000000", "16777216", "123456789", "2147483647",
            "0x2", "0x03", "0x004", "0x0005", "0x00006", "0x000007", "0x0000008", "0x0000000b", "0x0aa", "0xC", "0x1f", "0x2F", "0xdead", "0xBEEF", "0xCaFe",
            "0x1000", "0x20000", "0xABCDE", "0x100000", "0x1000001", "0xF00000", "0xabcdef", "0x2000000", "0x10000000", "0x7f000000", "0x7FffFFfe", "0x70000000",
            "0x00000000000d", "0x00000000000000000e"]
    val = lambda x: int(x, 0)
    assert len(set(map(val, nums))) == len(nums)
    add("numerals", [enum("nm", [("NM_%d" % i, val(x), x) for i, x in enumerate(nums)])] +
        [const("NC_%d" % i, val(x), x) for i, x in enumerate(nums)] +
        [const("NC_far", 0xffffffff, "4294967295"), const("NC_hi", 0xffffffff, "0xFFFFFFFF"), const("NC_top", 0x80000000, "0x80000000"), const("NC_ten", 2147483648, "2147483648"),
         union("by_const", T("u32"), [arm(["NC_%d" % i], "x%d" % i, T("u32")) if i % 2 else arm(["NC_%d" % i]) for i in range(len(nums))] + [arm(["NC_far", "NC_top"], "y", T("bool"))]),
         union("by_member", ref("nm"), [arm(["NM_%d" % i], "x%d" % i, T("u32")) if i % 2 else arm(["NM_%d" % i]) for i in range(len(nums))]),
         union("by_value", ref("nm"), [arm(["NC_%d" % i], "x%d" % i, T("u32")) if i % 4 else arm([val(nums[i])]) for i in range(0, len(nums), 2)] + [arm(["default"], "d", T("u64"))]),
         union("by_int", T("i32"), [arm(["NM_%d" % i], "x%d" % i, T("bool")) for i in range(len(nums))]),
         struct("num_b", [field("b%d" % i, T(["opaque", "string"][i % 2]), "var", cst("NC_%d" % i)) for i in range(len(nums))] +
                [field("f%d" % i, T("opaque"), "fix", cst("NC_%d" % i)) for i in range(len(nums)) if 0 < val(nums[i]) < 300] +
                [field("a%d" % i, T("bool"), "fix", cst("NC_%d" % i)) for i in range(len(nums)) if 0 < val(nums[i]) < 20])], style="minimal")
    out[-1].only = ["nm", "by_const", "by_member", "by_value", "by_int", "num_b"]
    # one after the other, all the sizes
    def sizes(n, t, form, ks):
        return struct(n, [field("z%d" % k, t, form, lit(k)) for k in ks])
    some = [63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257]
    far = [511, 512, 513, 1000, 1023, 1024, 1025, 2048]
    add("sizes", [sizes("of_a", T("opaque"), "fix", range(1, 25)), sizes("of_b", T("opaque"), "fix", range(25, 49)),
                  sizes("of_c", T("opaque"), "fix", some), sizes("of_d", T("opaque"), "fix", far),
                  sizes("ov_a", T("opaque"), "var", range(0, 25)), sizes("ov_b", T("opaque"), "var", range(25, 49)),
                  sizes("ov_c", T("opaque"), "var", some + far),
                  sizes("sv_a", T("string"), "var", range(0, 25)), sizes("sv_b", T("string"), "var", range(25, 49)),
                  sizes("sv_c", T("string"), "var", some + far),
                  struct("el", [field("e", T("bool"))]),
                  sizes("au_a", T("u32"), "fix", range(1, 20)), sizes("ah_a", T("u64"), "fix", range(1, 20)), sizes("ab_a", T("bool"), "fix", range(1, 20)),
                  sizes("ae_a", ref("el"), "fix", range(1, 20)), sizes("ae_v", ref("el"), "var", range(0, 20)),
                  sizes("au_b", T("u32"), "fix", [31, 32, 33, 63, 64, 65]), sizes("ae_b", ref("el"), "fix", [31, 32, 33, 63, 64, 65]),
                  sizes("ae_w", ref("el"), "var", [31, 32, 33, 63, 64, 65, 255, 256, 257])] +
                 [typedef("to_%d" % k, T("opaque"), "fix", lit(k)) for k in (8, 12, 16, 20, 24, 32, 48, 64, 128)] +
                 [typedef("tv_%d" % k, T("opaque"), "var", lit(k)) for k in (8, 16, 32, 64, 128, 255, 256)] +
                 [typedef("ts_%d" % k, T("string"), "var", lit(k)) for k in (8, 16, 32, 64, 128, 255, 256)], style="minimal")
    out[-1].only = [d["n"] for d in out[-1].decls if d["n"] != "el"]
    add("tower", [struct("tw0", [field("x", T("u32")), field("s", T("string"), "var", lit(8))])] +
        [struct("tw%d" % i, [field("p", ref("tw%d" % (i - 1))), field("n", T("u32"))]) if i % 4 == 0 else
         typedef("tw%d" % i, ref("tw%d" % (i - 1)), "var", lit(2)) if i % 4 == 1 else
         union("tw%d" % i, T("u32"), [arm([i], "p", ref("tw%d" % (i - 1))), arm(["default"])]) if i % 4 == 2 else
         typedef("tw%d" % i, ref("tw%d" % (i - 1))) for i in range(1, 25)])
    add("scale", [typedef("word_t", T("u32")), typedef("words", ref("word_t"), "var"), typedef("names", ref("name_t"), "var"), typedef("name_t", T("string")),
                  typedef("blobs", ref("blob"), "var"), typedef("blob", T("opaque"), "var"), typedef("blob16", T("opaque"), "var", lit(0x10000)),
                  typedef("str16", T("string"), "var", lit(0x10001)), typedef("fixblob", T("opaque"), "fix", lit(1027)),
                  struct("pair", [field("k", T("string")), field("v", T("opaque"), "var")]), typedef("pairs", ref("pair"), "var"),
                  struct("link", [field("n", T("u32")), field("next", ref("link"), o=True)]),
                  struct("glink", [field("d", T("opaque"), "var", lit(16)), field("next", ref("glink"), o=True)]),
                  enum("sw_e", [("SW_A", 5), ("SW_B", 260)]), typedef("sws", ref("sw_e"), "var"), typedef("bighdr", T("u32"), "fix", lit(300)),
                  struct("tail_t", [field("w", ref("words")), field("b", ref("blob")), field("end", T("u32"))])])
    # the same shapes under other declaration orders
    add("opaques_rev", list(reversed(out[4].decls)))
    add("lists_rev", list(reversed(next(e for e in out if e.name == "lists").decls)), "wild")
    add("nfs_rev", list(reversed(next(e for e in out if e.name == "nfsish").decls)), "minimal")
    return out


def by_name():
    return {e.name: e for e in catalog()}
