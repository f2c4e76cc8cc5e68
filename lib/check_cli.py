"""C15: runs of the binary, for every argument list the CLI machine has."""
import collections

from common import *
from envs import catalog, random_env
from texts import *

REJECTED = ["struct s { int a }", "const A = ;", "nonsense", "struct s { int a; };\nstruct t {", "enum e { A = 1 }", "\ufeffconst A = 1;", "const A = 1;\x00",
            "typedef int a", "union u switch (int a) { case 1: int; };", "struct s { int *a[3]; }; x", "\ufeffstruct s { int a; };", "const A = 1;\x1a", "struct s { int a; };\n" * 3000 + "struct t {", "const a = 1; // fine\n}"]
UNGENERABLE = ["struct s { foo a[NOPE]; }; struct foo { int x; };", "struct s { opaque a[NOPE]; };", "union u switch (int d) { case NOPE: int x; };",
               "const A = abc; struct s { foo a[A]; }; typedef int foo;", "struct s { int a[4294967295]; };",
               "struct s { string a[4]; };", "struct s { opaque a<NOPE>; };", "enum e { A = 0x }; struct s { e x; };"]


def files(d, r):
    """kind -> [(argument as bytes, contents or None)]"""
    out = collections.defaultdict(list)
    seq = [0]

    def put(kind, data, name=None):
        seq[0] += 1
        p = os.path.join(os.fsencode(d), name or b"f%d.x" % seq[0])
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        out[kind].append((p, data if isinstance(data, str) else None))
        return p
    envs = catalog() + [random_env(rng("cli", i)) for i in range(12)]
    for e in envs:
        put("valid", text_of(e.decls, r, r.choice(["pretty", "wild", "minimal"])))
    small = "struct s { int a; opaque b<>; };"
    for t in ["", "\n", "// comment only", "/* c */", small, small + "\n", small + "\r\n", "\n\n" + small + "\n\n\n", "const A = 1;",
              "// \u00e9\u4e16\U0001f600 %s {} {0} \\n \" ' $HOME\n" + small, "/* {} */ struct s { string a; };", "typedef int type;"]:
        put("valid", t)
    for name in [b"with space.x", b"\xff\xfe.x", "\u00e9\u4e16.x".encode(), b"no_extension", b".hidden", b"x.rs", b"%s{}.x", b"a,b.x", b"quote'\".x", b"new\nline.x", b"*.x", b"~", b"$HOME", b"@file", b"=x",
                 b"-", b"--", b"-h", b"--help", b"--version", b"-x.x", b"trailing.x ", b" leading.x", b"a.x\n", b"%20.x", b"a;b.x", b"a|b", b"#.x", b"dir\\f.x", b"con", b"1", b"0", b"spec.X", b"spec.x.x"]:
        put("valid", small.replace("s {", "from_%d {" % len(out["valid"])), name)
    # neighbours: what a name stands for when it is trimmed, decoded or completed
    for name in [b"trailing.x", b"leading.x", b"a.x", b" .x", b"spec", b"-x", b"b.x", b"a"]:
        put("valid", small.replace("s {", "near_%d {" % len(out["valid"])), name)
    # long ones: what is read in pieces, or only in part
    for n in (4096, 8191, 8192, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 3 << 20):
        head = "struct first_%d { int a; };\n" % n
        tail = "\nstruct last { opaque b<>; };"
        put("valid", head + ("/* %s */" % ("\u00e9" * (n % 7)) + "\n" * n)[:n - len(head) - len(tail)] + tail)
    put("valid", "".join("struct s%d { int a; opaque b<%d>; };\n" % (i, i + 1) for i in range(2500)))
    link = os.path.join(os.fsencode(d), b"link.x")
    os.symlink(out["valid"][0][0], link)
    out["valid"].append((link, out["valid"][0][1]))
    out["valid"].append((os.path.join(os.fsencode(d), b".", b"..", os.path.basename(os.fsencode(d)), b"f1.x"), out["valid"][0][1]))
    for t in REJECTED:
        put("rejected", t)
    for t in UNGENERABLE:
        put("ungenerable", t)
    put("nottext", b"const A = 1; // \xff\n")
    put("nottext", b"\xff\xfec\0o\0n\0s\0t\0")
    put("nottext", "struct s { int a; };\n".encode() * 5000 + b"\xc3")
    base = os.fsencode(d)
    os.mkdir(os.path.join(base, b"dir"))
    os.mkdir(os.path.join(base, b"dir.x"))
    out["directory"] = [(os.path.join(base, b"dir"), None), (os.path.join(base, b"dir.x"), None), (b"/", None), (b".", None)]
    os.symlink(b"loop", os.path.join(base, b"loop"))
    os.symlink(b"gone", os.path.join(base, b"dangling.x"))
    out["missing"] = [(os.path.join(base, n), None) for n in (b"absent.x", b"dangling.x", b"loop", b"f1.x/f2.x", b"n" * 300, b"\xff\xff\xff", b"f1.x ", b"F1.X", b"---", b"-i", b"trailing", b" f1.x", b"f1.x\n", b"f1", b"absent/f1.x")] + [(b"", None), (b"-", None), (b"--", None)]     # (these are looked for elsewhere)
    return out


def cli_check(prop):
    rep = Report(prop, "model_checking")
    quick = tier() == "quick"
    r = rng("cli")
    build_gen()
    exes, _ = cargo_build(REPO, "--bin", "fastxdr")
    exe = exes["fastxdr"]
    d = scratch_dir("cli")
    kinds = files(d, r)
    # what the library makes of the contents
    jobs = [(k, i, t) for k, fs in kinds.items() for i, (p, t) in enumerate(fs) if t is not None]
    recs = run_gen([{"id": j, "text": t, "out": os.path.join(scratch(), "out%d" % j)} for j, (_, _, t) in enumerate(jobs)])
    text = {}
    for j, (k, i, t) in enumerate(jobs):
        ok = recs[j]["gen"][0] == "ok"
        if ok:
            with open(os.path.join(scratch(), "out%d" % j), "rb") as f:
                text[k, i] = f.read()
        if ok != (k == "valid") or recs[j]["gen"][0] in ("hang", "crash"):
            # the library's word counts, whatever was meant
            kinds[k][i] = None
    dropped = sum(1 for fs in kinds.values() for f in fs if f is None)
    for k in kinds:
        if not [f for f in kinds[k] if f]:
            raise ToolError("no argument of kind " + k)
    t = tlc("XdrCli", env={"XDR_N": "3" if quick else "4"}, prefixes=("R|",))
    runs = list({json.dumps(v["args"]): v for _, v in t.lines}.values())     # (TLC may evaluate a step more than once)
    log("argument lists", len(runs), "states", t.distinct)
    plan = []
    for v in runs:
        n = {0: 12, 1: 200, 2: 50, 3: 8}.get(len(v["args"]), 1)
        if v["exit"] == "success":
            n = {1: 400, 2: 400, 3: 400, 4: 400}.get(len(v["args"]), 2)
        plan += [(v, x) for x in range(n if quick else n * 3 if len(v["args"]) < 4 else n)]
    cov = collections.Counter()
    turn = collections.Counter()
    todo = []
    for v, x in plan:
        chosen = []
        for k in v["args"]:
            if chosen and r.random() < .1 and chosen[-1][0] == k:
                chosen.append(chosen[-1])      # the same file again
                continue
            good = [i for i, f in enumerate(kinds[k]) if f]
            turn[k] += 1
            chosen.append((k, good[turn[k] % len(good)] if len(v["args"]) == 1 else r.choice(good)))
        if len(chosen) > 16:
            # (small ones)
            small = {k: [i for i, f in enumerate(kinds[k]) if f and len(f[1] or "") < 500] or [0] for k in set(v["args"])}
            chosen = [(k, r.choice(small[k])) for k in v["args"]]
        names = [kinds[k][i][0] for k, i in chosen]
        how = 1 if r.random() < .4 else r.randrange(4)
        if how == 1 and (b"-" in names or b"--" in names):
            how = 0
        if how == 0 and r.random() < .3 and any(kinds[k][i][1] is not None for k, i in chosen):
            how = 4
        todo.append((v, chosen, r.randrange(3), how))

    def go(job):
        try:
            return go1(job)
        except subprocess.TimeoutExpired:
            v, chosen, mode, how = job
            return 0 if v["exit"] == "failure" else -9, b"", b"no end within 120 s", [kinds[k][i][0] for k, i in chosen]

    def go1(job):
        v, chosen, mode, how = job
        argv = [kinds[k][i][0] for k, i in chosen]
        cwd = scratch()
        if how == 1:
            cwd = d
            argv = [a[len(os.fsencode(d)) + 1:] if a.startswith(os.fsencode(d) + b"/") else a for a in argv]
        env = dict(os.environ, LANG=["C", "C.UTF-8", "xx"][mode])
        feed = dict(stdin=subprocess.DEVNULL)
        if how == 4:
            # one of the files is a pipe
            j = next(j for j, (k, i) in enumerate(chosen) if kinds[k][i][1] is not None)
            feed = dict(input=kinds[chosen[j][0]][chosen[j][1]][1].encode())
            argv[j] = b"/dev/stdin"
        if how == 2:
            env = {}
        elif how == 3:
            env["RUST_BACKTRACE"] = "1"
        if mode == 2:
            with tempfile.TemporaryFile(dir=scratch()) as f:
                p = subprocess.run([os.fsencode(exe)] + argv, **feed, stdout=f, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=120)
                f.seek(0)
                out = f.read()
        else:
            p = subprocess.run([os.fsencode(exe)] + argv, **feed, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=120)
            out = p.stdout
        return p.returncode, out, p.stderr, argv
    samples = []
    for (v, chosen, mode, how), (code, out, err, argv) in zip(todo, pmap(go, todo)):
        want = b"".join(text[chosen[i - 1]] for i in v["out"])
        cov["runs:%d arguments" % len(argv)] += 1
        cov["exit:%s" % v["exit"]] += 1
        what = None
        if v["exit"] == "success":
            if code != 0:
                what = "exit status %d: %s" % (code, err[-200:])
            elif out != want:
                at = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
                what = "standard output differs from the generated code at byte %d of %d/%d: %r, expected %r" % (at, len(out), len(want), out[at:at + 40], want[at:at + 40])
        else:
            # a diagnostic: anything on standard error, or output that is not code
            codes = [want[:0]]
            for i in v["out"]:
                codes.append(codes[-1] + text[chosen[i - 1]])
            if code == 0:
                what = "exit status 0 after a failure"
            elif code < 0:
                what = "killed by signal %d" % -code
            elif not err.strip() and out in codes:
                what = "no diagnostic"
        if what:
            rep.violation("fastxdr %s (%s): %s" % (argv[:5], v["args"][:5], what), {"arguments": [a.decode(errors="replace") for a in argv], "kinds": v["args"],
                          "contents": [(kinds[k][i][1] or "")[:2000] for k, i in chosen[:20]], "what": what, "exit": code, "stderr": err[-500:].decode(errors="replace")})
        elif len(samples) < 5 and r.random() < .01:
            samples.append({"run": v, "arguments": [a.decode(errors="replace") for a in argv], "exit": code, "stdout bytes": len(out), "stderr": err[:100].decode(errors="replace")})
    rep.cov = {"states": t.distinct, "transitions": t.states, "traces_validated_against_impl": len(todo), "exhaustive": True,
               "argument lists": len(runs), "files": {k: len(fs) for k, fs in kinds.items()}, "contents set aside": dropped, "counts": dict(cov), "samples": samples}
    rep.assumptions = ["what is on standard output when the run fails is not judged"]
    return rep.finish()
