"""C12, C14: what the library makes of texts, judged by the grammar machine."""
import collections

import atlas
from common import *
from envs import catalog, random_env
from texts import *


def judge_texts(cases):
    """cases: dicts id, text, sup, decls + gen, ast, dump.  -> {id: verdict}, states"""
    n = max(1, min(4 if len(cases) > 200 else 1, len(cases)))
    parts = [[] for _ in range(n)]
    load = [0] * n
    for c in sorted(cases, key=lambda c: -len(c["text"])):
        j = load.index(min(load))
        parts[j].append(c)
        load[j] += len(c["text"]) + 40

    def go(part):
        path = os.path.join(os.environ.get("XDR_KEEP") or scratch(), "texts-%d.ndjson" % part[0]["id"])
        with open(path, "w") as f:
            for c in part:
                f.write(json.dumps(c, separators=(",", ":"), ensure_ascii=False) + "\n")
        r = tlc("XdrText", env={"XDR_CASES": path}, prefixes=("X|",), workers=2 if n > 1 else CORES)
        os.environ.get("XDR_KEEP") or os.unlink(path)
        return r
    out, states = {}, 0
    for r in pmap(go, parts, 4):
        states += r.distinct
        for _, (i, v) in r.lines:
            out[i] = v
    if len(out) != len(cases):
        raise ToolError("%d verdicts for %d texts" % (len(out), len(cases)))
    return out, states


def observe(texts):
    """texts: [(text, sup, decls)] -> cases with what the library did"""
    recs = run_gen([{"id": i, "text": t, "ast": True} for i, (t, s, d) in enumerate(texts)])
    cases = []
    for i, (t, s, d) in enumerate(texts):
        r = recs[i]
        cases.append({"id": i, "text": t, "sup": s, "decls": d, "gen": r["gen"], "ast": r["ast"],
                      "dump": r.get("dump", {"types": [], "byname": [], "consts": []})})
        if "dump" in r:
            for k in ("gens", "contains"):
                cases[-1]["dump"].pop(k, None)
    return cases


def printed(r, nrand, salt, styles, small=(0, 0, 0)):
    out = []
    for e in catalog() + [random_env(rng("env", salt, i)) for i in range(nrand)]:
        for st in styles if e.name not in ("many", "sizes", "numerals") else styles[:1] + ["shuffled"]:
            d = e.decls
            if st == "shuffled":
                d = list(d)
                r.shuffle(d)
            ee = Env(d, e.name, e.style)
            out.append((text_of(d, r, "wild" if st == "shuffled" else st), True, ee.json()))
    for e in atlas.packs(rng("atlas", salt), *small)[0] if any(small) else []:
        out.append((text_of(e.decls, r, r.choice(["wild", "plain", "minimal"])), True, e.json()))
    return out


# Constructs outside the supported subset that the grammar accepts, and near
# misses that it does not.
CORNERS = [
    "", " ", "\n", "// only a comment", "/* only */", "/* open", "/*/", "/**", "//", "/", "struct", ";", "const A = 1", "const A = 1;;",
    "const A = 1; const A = 2;", "enum e { A = 1 }; enum f { A = 2 };", "enum e { A = 1, A = 2 };", "const A = 1; enum e { A = 2 };",
    "enum e { A = 0xFFFFFFFF };", "enum e { A = 2147483648 };", "enum e { A = 0xZZ };", "enum e { A = 0x };", "enum e { A = -1 };",
    "enum e { A = B };", "enum e { };", "enum e { A };", "enum e { A = 1, };", "enum e { A = 1 B = 2 };", "enum e { A = 1 B = 2, C = 3 };",
    "enum e { A = 1, B = 2 C = 3 };", "struct s { };", "struct s { int };", "struct s { int a }", "struct s { string a[4]; };", "struct s { string a[N]; };",
    "struct s { string *a; };", "struct s { opaque *a; };", "struct s { opaque a; };", "struct s { int int; };", "struct s { u32 u32; };",
    "struct s { int *a<3>; };", "struct s { int *a[3]; };", "struct s { struct t { int a; } b; };", "struct s { void; };", "struct s { int a[]; };",
    "struct s { int a[-1]; };", "struct s { int a<0x10>; };", "struct s { int a<N>; };", "struct s { foo a[N]; };", "struct s { int a[4294967296]; };",
    "struct s { int a[99999999999999999999]; };", "struct s { int a[1][2]; };", "struct s { unsigned a; unsigned int b; unsigned hyper c; };",
    "struct s { unsigned\tint a; };", "struct s { unsigned/**/int a; };", "struct s { unsigned /**/ int a; };", "struct s { int/**/a; };",
    "struct s { opaque/**/a; };", "struct s { inta; };", "struct s { int a;};struct t{s b;};", "structs{int a;};", "typedefint a;", "typedef int a",
    "typedef int int;", "typedef opaque opaque;", "typedef string string;", "typedef a a;", "typedef a b; typedef b a;", "typedef int a[0];",
    "typedef string a[3];", "typedef string a[N];", "typedef int a<N>;", "typedef nope a;", "typedef nope a<>;", "typedef nope a[2];", "typedef int *a;", "typedef struct s a;",
    "typedef uint32_t u32;", "typedef int uint32_t;", "typedef unsigned int unsigned;", "typedef bool bool;", "typedef foo bool;", "typedef int type;", "typedef int self;",
    "union u switch (int a) { };", "union u switch (int a) { case 1: };", "union u switch (int a) { case 1: case 2: };", "union u switch (int a) { default: };",
    "union u switch (int a) { default: void; };", "union u switch (int a) { default: void; default: void; };", "union u switch (int a) { default: int x; default: int y; };",
    "union u switch (int a) { case 1: void; case 1: int x; };", "union u switch (int a) { case 1: int x; case 1: int y; };", "union u switch (int a) { case 1: int x<3>; };",
    "union u switch (int a) { case 1: opaque x[3]; };", "union u switch (int a) { case 1: int x[3]; };", "union u switch (int a) { case 1: int *x; };", "union u switch (int a) { case -1: void; };", "union u switch (int a) { case 0x1: void; };",
    "union u switch (int a) { case A: void; };", "union u switch (int a) { case 4294967296: void; };", "union u switch (int a) { case 99999999999999999999: int x; };",
    "union u switch (float a) { case 1: void; };", "union u switch (string a) { case 1: int x; };", "union u switch (opaque a) { case 1: int x; };", "union u switch (nope a) { case 1: int x; };",
    "union u switch (double a) { case 1: int x; };", "union u switch (u a) { case 1: int x; };", "struct s { int a; }; union u switch (s a) { case 1: int x; };", "typedef t t2; typedef t2 t; union u switch (t a) { case 1: void; };",
    "union u switch (bool a) { case TRUE: int x; case FALSE: void; };", "union u switch (bool a) { case 2: int x; };", "enum e { A = 1 }; union u switch (e a) { case 5: int x; };",
    "enum e { A = 1 }; union u switch (e a) { case B: int x; };", "const C = 4294967296; union u switch (int a) { case C: int x; };", "const C = abc; union u switch (int a) { case C: void; };",
    "const C = D; const D = C; struct s { opaque a[C]; };", "const C = 0x; struct s { opaque a<C>; };", "const C = 0xFFFFFFFFF; struct s { foo a[C]; };", "const N = 4294967295; struct s { foo a[N]; };", "struct s { foo a[4294967295]; };",
    "const C = 1a; struct s { opaque a[C]; };", "const C = 010; struct s { opaque a[C]; };", "const int = 1;", "const u32 = 1;", "const string = 1;", "const A = string;", "const A = int ;", "const A = u32;", "const = 1;", "const A 1;", "const A = ;",
    "const A = 1; struct A { int x; };", "struct s { int a; }; struct s { int b; };", "struct s { int a; int a; };", "enum s { A = 1 }; struct s { int b; };", "struct s { s a; };", "struct s { t a; }; struct t { s b; };",
    "struct s { s a[2]; };", "union u switch (int a) { case 1: u x; };", "typedef s s2; struct s { s2 a; };", "\ufeffconst A = 1;", "const \u00e9 = 1;", "const A = 1; // \u00e9\n", "const A = 1; /* \U0001f600 */", "const A\u00a0= 1;", "const A = 1;\x00", "\x0cconst A = 1;",
    "program P { version V { void f(void) = 1; } = 1; } = 1;", "%#include <x.h>", "#include <x.h>", "struct s { quadruple a; };", "struct s { enum { A = 1 } a; };", "struct *s { int a; };", "union u switch (unsigned int a) { case 1: void; };", "union u switch (unsigned a) { case 1: void; };",
    "const A = \"s\";", "const A = 1.5;", "struct s { int a : 3; };", "const A = 1;" * 3, "typedef opaque a; typedef a b<>; typedef b c[2]; struct s { c d; };", "struct case { int default; };", "union switch switch (int switch) { case case: void; };", "enum enum { enum = 1 };", "typedef typedef typedef;", "struct struct { struct struct; };", "const const = const;",
    "struct s { TRUE a; };", "struct s { int TRUE; };", "union u switch (int a) { case u32: void; };", "union u switch (int a) { case int64_t: int b; };", "union u switch (int int64_t) { case 1: int b; };", "union u switch (int string) { case 1: int b; };", "struct string { int a; };", "struct u32 { int a; };", "enum bool { A = 1 };", "union hyper switch (int a) { case 1: void; };", "struct opaquex { int a; };",
    "struct s { int a[2147483647]; };", "struct s { opaque a[4294967295]; };", "struct s { opaque a<4294967296>; };", "struct s { string a<99999999999>; };",
    "typedef int a<4294967296>;", "typedef opaque a[99999999999];", "typedef string a<99999999999>;", "const N = 99999999999; typedef opaque a[N];", "const N = 99999999999; typedef string a<N>;", "enum e { N = 3 }; typedef opaque a[N];", "enum e { N = 3 }; typedef foo a<N>; typedef int foo;", "enum e { N = 3 }; typedef foo a[N]; typedef int foo;", "typedef opaque a[TRUE];", "typedef opaque a<FALSE>;",
]


def soup(r, base, n):
    """n texts that may mean anything."""
    out = []
    toks = [tokens_of(e.decls, r) for e in base if len(e.decls) < 40]
    for k in range(n):
        m = k % 6
        if m == 0:
            s = Sentence(r)
            out.append(layout(s.tokens(), r.choice(["plain", "wild", "minimal"]), r))
        elif m == 1:
            out.append(layout(mutate_tokens(Sentence(r).tokens(), r), "plain", r))
        elif m in (2, 3):
            # a stretch of declarations of a supported specification, mutated
            t = r.choice(toks)
            ends = [i + 1 for i in range(len(t) - 1) if t[i] == ";" and t[i + 1] in ("const", "enum", "struct", "union", "typedef")] + [len(t)]
            a = r.choice([0] + ends[:-1])
            b = r.choice([x for x in ends if x > a][:4])
            seg = t[a:b]
            out.append(layout(mutate_tokens(seg, r), r.choice(["plain", "wild"]), r) if m == 2 else mutate_chars(layout(seg, "pretty", r), r))
        elif m == 4:
            out.append(" ".join(r.choice(POOL) for _ in range(r.randint(1, 14))))
        else:
            out.append(mutate_chars(layout(Sentence(r).tokens(), "minimal", r), r))
    return out


def large(n):
    """Long and deep texts: only whether the library survives them is judged."""
    chain = ["typedef t%d t%d;" % (i, i + 1) for i in range(n)]
    structs = ["struct t%d { t%d a; };" % (i + 1, i) for i in range(n)]
    return {
        "typedef chain": "typedef int t0;" + "".join(chain),
        "reversed typedef chain": "".join(reversed(chain)) + "typedef int t0;",
        "struct chain": "struct t0 { opaque a<>; };" + "".join(structs),
        "reversed struct chain": "".join(reversed(structs)) + "struct t0 { opaque a<>; };",
        "switch on a typedef chain": "enum t0 { A = 1 };" + "".join(chain) + "union u switch (t%d a) { case A: int x; };" % n,
        "typedef cycle": "".join(chain) + "typedef t%d t0; union u switch (t3 a) { case 1: int x; };" % n,
        "struct cycle": "".join(structs) + "struct t0 { t%d a; };" % n,
        "constant chain": "const c0=1;" + "".join("const c%d=c%d;" % (i + 1, i) for i in range(n)) + "struct s{opaque a[c%d];};" % n,
        "fields": "struct s {" + "".join("int a%d;" % i for i in range(n)) + "};",
        "labels": "union u switch (int a) {" + "".join("case %d: " % i for i in range(n)) + "int x;};",
        "arms": "union u switch (int a) {" + "".join("case %d: int x; " % i for i in range(n)) + "};",
        "members": "enum u {" + ",".join("A%d=%d" % (i, i) for i in range(n)) + "};",
        "comments": "/**/ // x\n" * n,
        "unclosed comments": "/* " * n,
        "slashes": "/" * n,
        "stars": "/*" + "*" * n,
        "words": "struct " * n,
        "braces": "struct s {" * n,
        "long word": "const " + "a" * n * 10 + "=1;",
        "long number": "struct s {opaque a[" + "9" * n + "];};",
        "fixed arrays": "".join("typedef a t%d[1000];" % i for i in range(50)) + "typedef int a;",
        "doubling": "".join("typedef t%d t%d[2];" % (i, i + 1) for i in range(64)) + "typedef opaque t0;",
        "doubling structs": "".join("struct t%d { t%d a; t%d b; };" % (i + 1, i, i) for i in range(64)) + "struct t0 { opaque a[3]; };",
        "largest fixed arrays": "".join("typedef a t%d[%d];" % (i, v) for i, v in enumerate([255, 256, 65535, 65536, 10 ** 6, 2 ** 31, 2 ** 32 - 1])) + "typedef int a;",
    }


def survive(rep, cov, n):
    for name, t in large(n).items():
        t0 = time.time()
        r = run_gen([{"id": 0, "text": t, "ast": True}], quiet_s=120)[0]
        cov["large texts"] += 1
        for w in ("gen", "ast"):
            if r[w][0] in ("panic", "crash", "hang"):
                rep.violation("%s x %d: %s: %s" % (name, n, w, r[w]), {"name": name, "n": n, "text": t[:200]})
        if time.time() - t0 > 5:
            log("%s x %d: %.1f s" % (name, n, time.time() - t0))


def text_check(prop):
    rep = Report(prop, "model_checking")
    cov = collections.Counter()
    states = 0
    samples = []
    rounds = 0
    if prop == "C14":
        survive(rep, cov, 2000)
        if tier() == "thorough":
            survive(rep, cov, 12000)
    while True:
        salt = "%s-%d" % (prop, rounds)
        r = rng("text", salt)
        texts = []
        if prop == "C12":
            styles = ["pretty", "minimal", "wild", "shuffled"] if rounds == 0 else ["wild", "shuffled", "minimal"]
            texts += printed(r, 40, salt, styles, (155, 200, 80) if tier() == "quick" else (120, 400, 300))
        else:
            base = [random_env(rng("env", salt, i)) for i in range(12)] + catalog()
            texts += printed(r, 4, salt, ["wild"], (40, 60, 20)) if rounds == 0 else []
            texts += [(t, False, []) for t in (CORNERS if rounds == 0 else []) + soup(r, base, 3000)]
        cases = observe(texts)
        log("observed", len(cases))
        verdicts, st = judge_texts(cases)
        log("judged", st)
        states += st
        for c in cases:
            v = verdicts[c["id"]]
            if v["model"]:
                raise ToolError("the grammar machine does not read back a printed specification: %s\n%s" % (v, c["text"]))
            kind = "printed" if c["sup"] else "accepted" if v["acc"] else "rejected"
            cov["texts:" + kind] += 1
            cov["outcome:%s/%s:%s" % (kind, c["ast"][0], c["gen"][0])] += 1
            cov["declarations"] += v["nd"]
            if (c["gen"][0] == "err" or c["ast"][0] == "err") and c["sup"]:
                cov["supported but an error"] += 1
            if v["c" + prop[1:]]:
                what = {"C12": "the AST does not show what is declared: %s %s" % (v["wrong"], v["extra"]),
                        "C14": "%s by the grammar, Ast::new %s, generate %s" % ("accepted" if v["acc"] else "rejected", c["ast"], c["gen"])}[prop]
                rep.violation("%s: %s" % (what, c["text"][:300]), {k: c[k] for k in ("text", "gen", "ast", "dump")} | {"verdict": v})
            elif len(samples) < 6 and c["id"] % 61 == 3:
                samples.append({"text": c["text"][:300], "verdict": v, "ast": c["ast"], "gen": c["gen"]})
        rounds += 1
        if tier() == "quick" or time.time() - T0 > 600:
            break
    rep.cov = {"states": states, "transitions": states, "traces_validated_against_impl": sum(v for k, v in cov.items() if k.startswith("texts:")),
               "samples": samples, "counts": dict(cov)}
    rep.assumptions = ["the language is that of src/xdr.pest at the pinned commit with the repairs listed in known_findings.txt"]
    return rep.finish()
