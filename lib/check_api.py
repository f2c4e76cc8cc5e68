"""C07: generated modules compile and expose the documented API, judged by XdrApi.tla."""
import collections

import atlas
from common import *
from decode import shapes_of
from envs import catalog, random_env
from rustgen import item_ty
from xdrgen import *

DERIVES = {"default": None,
           "clone": "#[derive(Debug, PartialEq, Clone)]",
           "several lines": "#[derive(Debug)]\n#[derive(PartialEq)]\n#[derive(Clone)]",
           "edition 2018": None,
           "uses": "#[allow(missing_docs)]\n#[derive(Clone, PartialEq, Debug)]"}

# words of every edition that the field names of a struct escape
KEYWORDS = ["as", "async", "await", "break", "continue", "crate", "dyn", "else", "extern", "false", "fn", "for", "if", "impl",
            "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "Self", "self", "static", "super", "trait",
            "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override",
            "priv", "try", "typeof", "unsized", "virtual", "yield"]

HEAD = """#![crate_type = "lib"]
#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, non_snake_case, non_upper_case_globals)]
"""

USES = """
use fastxdr::bytes::Bytes;
pub fn decodes<D>() where
    D: std::convert::TryFrom<Bytes, Error = xdr::Error> + for<'a> std::convert::TryFrom<&'a mut Bytes, Error = xdr::Error> + xdr::WireSize {}
pub fn derives<D: std::fmt::Debug + PartialEq + Clone>() {}
pub fn an_error(e: &xdr::Error) -> u32 { match e { xdr::Error::InvalidLength => 0, xdr::Error::NonUtf8String(e) => { let _: &std::string::FromUtf8Error = e; 1 },
    xdr::Error::InvalidBoolean => 2, xdr::Error::UnknownVariant(v) => { let _: &i32 = v; 3 }, xdr::Error::UnknownOptionVariant(v) => { let _: &u32 = v; 4 },
    xdr::Error::Unknown(s) => { let _: &String = s; 5 } } }
pub fn an_std_error<E: std::error::Error + PartialEq + Send + Sync + 'static>() {}
pub fn check_error() { an_std_error::<xdr::Error>() }
// implementing a trait for two types shows that they are two
pub trait Own {}
impl Own for u32 {} impl Own for i32 {} impl Own for u64 {} impl Own for i64 {} impl Own for f32 {} impl Own for f64 {} impl Own for bool {}
impl Own for String {} impl Own for Bytes {} impl Own for Vec<u8> {}
impl<D> Own for Option<D> {} impl<D, const N: usize> Own for [D; N] {}
"""


def uses(env, shapes):
    """A program that names and types everything declared."""
    sh = {s["n"]: s for s in shapes}
    out = [USES]
    for d in env.decls:
        s = sh[d["n"]]
        n = d["n"]
        if d["k"] == "const":
            out.append("const _: () = { let c: u32 = xdr::%s; assert!(c == %du32); };" % (n, d["v"]))
            continue
        if s["self"]:
            continue
        out.append("impl Own for xdr::%s%s {}" % (n, "<Bytes>" if s["gen"] else ""))
        out.append("pub fn t_%s() { decodes::<xdr::%s%s>(); derives::<xdr::%s%s>() }" % (
            n, n, "<Bytes>" if s["gen"] else "", n, "<Bytes>" if s["gen"] else ""))
        for data in (["Bytes", "Vec<u8>", "&'static str"] if s["gen"] else ["Bytes"]):
            def ty(*a):
                return re.sub(r"(?<!\w)Bytes(?!\w)", lambda m: data, item_ty(env, sh, *a))
            me = "xdr::%s%s" % (n, "<%s>" % data if s["gen"] else "")
            fn = "%s_%s" % (n, {"B": "b", "V": "v", "&": "s"}[data[0]])
            if d["k"] == "struct":
                tys = [ty(f["t"], f["a"], f["b"], f["o"]) for f in d["f"]]
                out.append("pub fn get_%s(v: &%s) { let xdr::%s { %s } = v; %s }" % (
                    fn, me, n, ", ".join("%s: f%d" % (x, j) for j, x in enumerate(s["names"])),
                    " ".join("let f%d: &%s = f%d;" % (j, t, j) for j, t in enumerate(tys))))
                out.append("pub fn put_%s(%s) -> %s { xdr::%s { %s } }" % (
                    fn, ", ".join("f%d: %s" % (j, t) for j, t in enumerate(tys)), me, n,
                    ", ".join("%s: f%d" % (x, j) for j, x in enumerate(s["names"]))))
            elif d["k"] == "typedef":
                a = "var" if d["t"]["k"] == "opaque" and d["a"] == "none" else d["a"]
                t = ty(d["t"], a, d["b"], False)
                out.append("pub fn get_%s(v: %s) -> %s { v.0 }" % (fn, me, t))
                out.append("pub fn put_%s(f: %s) -> %s { xdr::%s(f) }" % (fn, t, me, n))
            elif d["k"] == "enum":
                out.append("pub fn get_%s(v: &%s) -> u32 { match v { %s } }" % (
                    fn, me, ", ".join("xdr::%s::%s => %d" % (n, m["n"], m["v"]) for m in d["m"])))
                for m in d["m"]:
                    out.append("const _: () = assert!(xdr::%s::%s as u32 == %du32);" % (n, m["n"], m["v"]))
            else:
                get, put = [], []
                for j, (x, ai) in enumerate(zip(s["names"], s["arms"])):
                    a = d["arms"][ai - 1]
                    if a["void"]:
                        get.append("xdr::%s::%s => {}" % (n, x))
                        put.append("pub fn put_%s_%d() -> %s { xdr::%s::%s }" % (fn, j, me, n, x))
                    else:
                        t = ty(a["t"], "none", NOBOUND, False)
                        get.append("xdr::%s::%s(f) => { let f: &%s = f; }" % (n, x, t))
                        put.append("pub fn put_%s_%d(f: %s) -> %s { xdr::%s::%s(f) }" % (fn, j, t, me, n, x))
                out.append("pub fn get_%s(v: &%s) { match v { %s } }" % (fn, me, ", ".join(get)))
                out += put
    return "\n".join(out)


def api_catalog():
    """Name and mixture cases besides the general catalog"""
    out = []

    def add(name, decls, style="pretty"):
        out.append(Env(decls, name, style))
    add("keywords", [struct("kw", [field(n, T("u32")) for n in KEYWORDS]),
                     struct("kwo", [field(n, T("opaque"), "var") for n in KEYWORDS]),
                     struct("kws", [field(n, ref("kw"), o=True) for n in KEYWORDS])] +
        [union("un_%d" % i, T("u32"), [arm([1], n, T("u32")), arm([2], n, T("string")), arm(["default"], n, T("u64"))], n)
         for i, n in enumerate(KEYWORDS)])
    # like the names the runtime has, but not quite; and parts of generated text
    names = ["bytes", "buf", "error", "vec", "option", "string_x", "boxed", "read_u32", "read_bytes", "wire_size", "remaining",
             "try_from", "len", "resul", "t_", "tt", "u_32", "data_", "xdr", "deserialiser_ext", "value", "as_ref"]
    for i, nm in enumerate(names):
        add("name_" + nm, [struct(nm, [field(nm, T("u32")), field("d", T("opaque"), "var") if i % 2 else field("e", T("string"))]),
                           typedef("x_" + nm, ref(nm), "var"), struct("user", [field(nm, ref(nm)), field("o", ref(nm), o=True),
                                                                               field("z", ref(nm), "fix", lit(2))]),
                           union("un", T("u32"), [arm([1], nm, ref(nm)), arm([2])], nm)])
    # every pair of constructs, with and without opaque inside, target first or last
    for gen in (False, True):
        leaf = T("opaque") if gen else T("string")
        kinds = {
            "struct": lambda n: struct(n, [field("a", leaf, "var")]),
            "union": lambda n: union(n, T("u32"), [arm([0]), arm([1], "a", ref("leaf")), arm(["default"])]),
            "uniond": lambda n: union(n, T("u32"), [arm([0], "a", T("u32")), arm(["default"], "b", ref("leaf"))]),
            "typedef": lambda n: typedef(n, leaf, "var"),
            "chain": lambda n: typedef(n, ref("leaf")),
            "list": lambda n: typedef(n, ref("leaf"), "var", lit(3)),
            "fixed": lambda n: typedef(n, ref("leaf"), "fix", lit(2)),
        }
        for k, mk in kinds.items():
            tgt = mk("tgt")
            us = [struct("by_all", [field("v", ref("tgt")), field("o", ref("tgt"), o=True), field("f", ref("tgt"), "fix", lit(3)),
                                    field("c", ref("tgt"), "var"), field("m", ref("tgt"), "var", cst("N"))]),
                  union("in_u", ref("sw"), [arm(["A1"], "x", ref("tgt")), arm(["B1", "C1"], "y", ref("tgt")), arm(["D1"])]),
                  union("in_d", ref("sw"), [arm(["A1"], "x", T("u32")), arm(["D1"]), arm(["default"], "y", ref("tgt"))]),
                  typedef("td", ref("tgt")), typedef("tl", ref("tgt"), "var"), typedef("tf", ref("tgt"), "fix", cst("N")),
                  struct("top", [field("a", ref("td")), field("b", ref("tl"), "var"), field("c", ref("in_u"), o=True), field("d", ref("in_d"), "fix", lit(1))])]
            ds = [const("N", 3), enum("sw", [("A1", 0), ("B1", 1), ("C1", 2), ("D1", 9)]), typedef("leaf", leaf, "var"), tgt]
            add("pair_%s_%d" % (k, gen), ds + us)
            add("pair_%s_%d_rev" % (k, gen), list(reversed(ds + us)), "minimal")
    return out


# What fails on the unchanged tree: named inputs, each compiled by itself.
def specimens():
    out = []
    B = "struct s { opaque a<>; unsigned int b; string c<3>; }; "

    def add(key, text, derive=None):
        out.append((key, text, derive))
    add("enum-value-const", "const C = 7; enum e { A = C };")
    add("enum-value-const", "enum d { X = 1 }; enum e { A = X };")
    add("derive-no-partialeq", "enum e { A = 1 }; union u switch (e w) { case A: void; };", "#[derive(Debug)]")
    for nm in ("fn", "match", "async", "self", "box", "dyn", "type"):
        add("reserved-names", "struct %s { int a; };" % nm)
        add("reserved-names", "enum e { %s = 1 };" % nm)
        add("reserved-names", "enum e { %s = 1 }; union u switch (e w) { case %s: int a; };" % (nm, nm))
        add("reserved-names", "const %s = 3;" % nm)
    for nm in ("Bytes", "Buf", "Error", "Debug", "String", "Vec", "Option", "Box", "Result", "TryFrom", "WireSize", "DeserialiserExt",
               "usize", "u8", "IntoIterator", "AsRef", "std", "fastxdr"):
        add("module-names", B + "struct %s { int a; }; struct user { %s u; %s *o; %s m<>; };" % (nm, nm, nm, nm))
    for nm in ("Ok", "Err", "Some", "None", "size_of", "pad_length", "v", "n", "t", "sum", "out", "b", "data", "d", "x", "e", "inner", "l", "limit"):
        add("module-names", B + "const %s = 3; struct p { s u[%s]; };" % (nm, nm))
    for nm in ("size_of", "pad_length", "t", "v", "n"):
        add("module-names", B + "typedef int %s;" % nm)
    for nm in ("Ok", "Err", "Some", "None"):
        add("module-names", B + "struct user { int %s; };" % nm)
        add("module-names", B + "typedef int %s; struct q { %s x; };" % (nm, nm))
    add("module-names", "enum e { Error = 1 }; union u switch (e w) { case Error: int a; default: void; };")
    add("module-names", B + "struct T { opaque a<>; };")
    return out


def metadata(name, path, tail, edition="2021"):
    src = os.path.join(scratch(), name + ".rs")
    with open(src, "w") as f:
        f.write(HEAD + "include!(\"%s\");\n" % path + tail)
    code, msg = rustc(src, src[:-3] + ".rmeta", ["--emit=metadata", "--crate-name", "m_" + re.sub(r"\W", "_", name)], edition)
    for x in (src, src[:-3] + ".rmeta"):
        if os.path.exists(x):
            os.unlink(x)
    return code == 0, msg


def observe(envs, salt, r):
    shapes, run = shapes_of(envs)
    jobs = []
    for i, e in enumerate(envs):
        e.text = text_of(e.decls, r, e.style)
        for j, (name, line) in enumerate(DERIVES.items()):
            if name == "edition 2018":
                continue
            job = {"id": i * 10 + j, "text": e.text, "out": os.path.join(scratch(), "%s_%d_%d.rs" % (salt, i, j)), "items": j == 0}
            if line:
                job["derive"] = line
            jobs.append(job)
    recs = run_gen(jobs)
    paths = {j["id"]: j["out"] for j in jobs}
    tasks = []
    for i, e in enumerate(envs):
        for j, name in enumerate(DERIVES):
            k = i * 10 + (0 if name == "edition 2018" else j)
            if recs[k]["gen"][0] == "ok":
                tasks.append((i, name, "%s_m%d_%d" % (salt, i, j), paths[k], uses(e, shapes[i]) if name == "uses" else "",
                              "2018" if name == "edition 2018" else "2021"))
    done = pmap(lambda t: metadata(*t[2:]), tasks)
    facts = collections.defaultdict(list)
    msgs = {}
    for t, (ok, msg) in zip(tasks, done):
        facts[t[0]].append({"name": t[1], "ok": ok})
        if not ok:
            msgs.setdefault(t[0], "%s: %s" % (t[1], msg[:1500]))
    obs = []
    for i, e in enumerate(envs):
        rec = recs[i * 10]
        if rec["gen"][0] != "ok":
            msgs.setdefault(i, str(rec["gen"]))
        its = rec.get("items", {})
        items = []
        for kind, name, text, s in its.get("items", []):
            if kind in ("struct", "enum", "const", "type"):
                items.append({"kind": kind, "name": name.replace("r#", ""), "pub": s.get("vis", "pub") == "pub", "tuple": s.get("tuple", False),
                              "params": s.get("gen", 0), "names": s.get("names", []), "pubs": s.get("pubs", True)})
        obs.append({"id": i, "gen": rec["gen"][0] == "ok", "mods": its.get("mods", []), "items": items, "compiled": facts[i]})
        for j in range(len(DERIVES)):
            p = paths.get(i * 10 + j)
            if p and os.path.exists(p):
                os.unlink(p)
    return obs, msgs, len(tasks)


def one_round(rep, envs, salt, stats):
    obs, msgs, n = observe(envs, salt, rng("layout", salt))
    log(salt, len(envs), "specifications", n, "compilations")
    d = os.environ.get("XDR_KEEP") or scratch()
    a = ndjson(os.path.join(d, "api-specs-%s.ndjson" % salt), [e.json() for e in envs])
    b = ndjson(os.path.join(d, "api-obs-%s.ndjson" % salt), obs)
    r = tlc("XdrApi", env={"XDR_SPECS": a, "XDR_OBS": b}, prefixes=("A|",))
    got = {i: w for _, (i, w) in r.lines}
    if len(got) != len(envs):
        raise ToolError("%d verdicts for %d modules" % (len(got), len(envs)))
    stats["states"] += r.distinct
    stats["specifications"] += len(envs)
    stats["compilations"] += n
    stats["items"] += sum(len(o["items"]) for o in obs)
    for i, e in enumerate(envs):
        for x in e.decls:
            stats["on:" + x["k"]] += 1
        if got[i]:
            rep.violation("%s: %s %s" % (e.text[:300], sorted(got[i]), msgs.get(i, "")[:600]),
                          {"specification": e.text, "broken": sorted(got[i]), "message": msgs.get(i, "")})


def api_check(prop):
    rep = Report(prop, "model_checking")
    stats = collections.Counter()
    quick = tier() == "quick"
    envs = catalog() + api_catalog() + [random_env(rng("env", "api", i)) for i in range(40 if quick else 120)]
    envs += atlas.packs(rng("atlas", "api"), 500, 150, 60)[0]
    one_round(rep, envs, "a", stats)
    k = 0
    while not quick and time.time() - T0 < 600:
        k += 1
        one_round(rep, [random_env(rng("env", "api", k, i)) for i in range(100)] + atlas.packs(rng("atlas", "api", k), 60, 600, 600)[0], "b%d" % k, stats)
    # the recorded findings
    sp = specimens()
    recs = run_gen([{"id": i, "text": t, "out": os.path.join(scratch(), "sp%d.rs" % i), **({"derive": d} if d else {})}
                    for i, (_, t, d) in enumerate(sp)])

    def one(i):
        if recs[i]["gen"][0] != "ok":
            return True, ""       # refused: nothing claims to be a module
        return metadata("sp_m%d" % i, os.path.join(scratch(), "sp%d.rs" % i), "")
    for (key, text, d), (ok, msg) in zip(sp, pmap(one, range(len(sp)))):
        stats["specimens"] += 1
        if not ok:
            stats["specimens failing"] += 1
            rep.known_finding(key, "%s: %s" % (text, msg[:400]), {"specification": text, "derive": d, "message": msg[:3000]})
    log("specimens", stats["specimens failing"], "of", stats["specimens"])
    rep.cov = {"states": stats["states"], "transitions": stats["states"], "traces_validated_against_impl": stats["specifications"],
               "compilations": stats["compilations"], "items": stats["items"], "derive lines and editions": list(DERIVES),
               "declarations": {k[3:]: v for k, v in stats.items() if k.startswith("on:")},
               "specimens of findings": stats["specimens"], "specimens that fail": stats["specimens failing"],
               "samples": [{"specification": e.text} for e in envs[2:5]]}
    rep.assumptions = ["the installed rustc decides what compiles, for editions 2018 and 2021"]
    return rep.finish()
