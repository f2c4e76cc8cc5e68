"""C11: layouts, orders, repeated calls."""
import collections
import itertools

import atlas
from common import *
from envs import catalog, random_env
from texts import *


def groups(r, salt, quick):
    """[(supported, [(text, line)])]: the first text is the one to compare with."""
    out = []

    def toks(d):
        return [decl_tokens(x, r) for x in d]

    def flat(ts):
        return [t for x in ts for t in x]
    envs = catalog() + [random_env(rng("env", salt, i)) for i in range(10)]
    for e in envs:
        ts = toks(e.decls)
        g = [(layout(flat(ts), "minimal", r), True)]
        big = sum(map(len, ts)) > 900
        for st in ["wild"] if e.name in ("many", "sizes", "numerals") else ["plain", "pretty", "wild", "wild"] + ([] if big or quick else ["wild", "wild"]):
            g.append((layout(flat(ts), st, r), True))
        for k in range(1 if big else 3):
            p = list(ts)
            p.reverse() if k == 0 else r.shuffle(p)
            g.append((layout(flat(p), r.choice(["plain", "wild"]), r), False))
        out.append((True, g))
    # every order of a few declarations
    for k in range(8):
        while True:
            e = random_env(rng("few", salt, k, r.random()), n=r.choice([2, 3]), style="plain")
            if 3 <= len(e.decls) <= 4:
                break
        ts = toks(e.decls)
        g = [(layout(flat(p), "plain", r), i == 0) for i, p in enumerate(itertools.permutations(ts))]
        out.append((True, g))
    # every way two declarations can be related, in every order
    vs, _ = atlas.specimens(3)
    for level, n in ((2, 260 if quick else 900), (3, 60 if quick else 500)):
        for v in atlas.sample([v for v in vs if v[0] == level], n, r):
            ts = toks(atlas.renamed(v[1], ""))
            ps = list(itertools.permutations(ts))
            if len(ps) > 6:
                ps = ps[:1] + [tuple(reversed(ts))] + r.sample(ps[1:], 4)
            out.append((True, [(layout(flat(p), r.choice(["minimal", "plain"]) if i else "plain", r), False) for i, p in enumerate(ps)]))
    # a blank or a comment at each place of a small text by itself
    for k in range(6):
        e = random_env(rng("gaps", salt, k), n=2, style="plain")
        ts = []
        for x in toks(e.decls):
            if len(ts) + len(x) < 75:
                ts += x
        ts = ts or ["typedef", "int", "t", ";"]
        g = [(layout(ts, "minimal", r), True)]
        for i in range(len(ts) + 1):
            gap = r.choice([" ", " /*%s*/ " % ("- x; } " * 700), "\n// %s\n" % ("} " * 900), "\n" * 500, "\n", "\t", "\r\n", " /* x; */ ", "\n// }\n", " /**/ ", "\r", " // {\r\n", "\n/* \n */\n"])
            g.append((layout(ts[:i], "minimal", r) + gap + layout(ts[i:], "minimal", r), True))
        out.append((True, g))
    # texts that are anagrams of each other, or differ in one character
    for k in range(10):
        e = random_env(rng("twins", salt, k), n=3, style="plain")
        ts = flat(toks(e.decls))
        names = sorted(set(t for t in ts if re.fullmatch(r"[a-z]+_?[0-9]+", t)))
        for m in range(2):
            if len(names) > 1:
                a, b = r.sample(names, 2)
                out.append((False, [(layout([b if t == a and m == 0 else a if t == b and m == 0 else t[::-1] if t == a and t[::-1][0].isalpha() else t for t in ts], "plain", r), True)]))
        out.append((False, [(layout(ts, "plain", r), True)]))
    for a, b in (("ab", "ba"), ("f1", "f2"), ("xy", "yx")):
        out += [(True, [("struct s { int %s; };" % a, True)]), (True, [("struct s { int %s; };" % b, True)])]
    # sentences beyond the supported subset
    for k in range(60):
        ts = Sentence(r).tokens()
        if k % 3 == 2:
            ts = mutate_tokens(ts, r)
        out.append((False, [(layout(ts, st, r), True) for st in ("minimal", "plain", "wild", "wild", "pretty")]))
    return out


SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
/* Another time (some 30 years from now, and running faster), always the same
   random numbers, one processor, another user. */
static time_t far(time_t t) { return t + 987654321; }
int clock_gettime(clockid_t c, struct timespec *t) {
    int (*real)(clockid_t, struct timespec *) = dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(c, t);
    if (r == 0) { t->tv_sec = c == CLOCK_REALTIME ? far(t->tv_sec) : t->tv_sec + 5000; t->tv_nsec = t->tv_nsec / 1000 * 1000; }
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec s;
    clock_gettime(CLOCK_REALTIME, &s);
    if (p) *p = s.tv_sec;
    return s.tv_sec;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { memset(p, 7, n); return n; }
int getentropy(void *p, size_t n) { memset(p, 7, n); return 0; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { memset(s, 0, n); CPU_SET(0, s); return 0; }
long sysconf(int k) {
    long (*real)(int) = dlsym(RTLD_NEXT, "sysconf");
    return k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF ? 1 : real(k);
}
uid_t getuid(void) { return 4711; }
uid_t geteuid(void) { return 4711; }
pid_t getpid(void) { return 12345; }
int gethostname(char *p, size_t n) { strncpy(p, "elsewhere.example.org", n); return 0; }
"""


def elsewhere(exe):
    """The program under another name, and what changes the world around it"""
    d = os.path.join(scratch_dir("elsewhere"), "a directory with a very long name, " * 3, "and {braces} -> \u00e9")
    os.makedirs(d, exist_ok=True)
    others = [os.path.join(d, n) for n in ("x.rs", "the generator of another build, v2.10.3-rc1 (release) xdr.x")]
    for o in others:
        shutil.copy(exe, o)
    c, so = os.path.join(d, "shim.c"), os.path.join(scratch_dir("shim"), "shim.so")
    with open(c, "w") as f:
        f.write(SHIM)
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, c, "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise ToolError("no shim: " + p.stderr[-500:])
    return others, so


def calls_of(texts, r):
    """[(text number, outcome)], the outcomes of the same text by different histories"""
    exe, _ = build_gen()
    others, shim = elsewhere(exe)
    plans = []      # (arguments, jobs)
    n = len(texts)

    def order():
        o = list(range(n))
        r.shuffle(o)
        return o
    for p in range(3):
        o = order()
        plans.append(([], [{"id": t, "text": texts[t], "digest": True} for t in o]))                       # values of their own
    for p in range(3):
        o = order() + order()
        plans.append(([], [{"id": t, "text": texts[t], "digest": True, "g": r.choice("ab")} for t in o]))   # two values, interleaved
    # those alike in length and letters one after the other, and twice
    alike = sorted(range(n), key=lambda t: (len(texts[t]), sorted(texts[t]), t))
    plans.append(([], [{"id": t, "text": texts[t], "digest": True} for t in alike]))
    plans.append(([], [{"id": t, "text": texts[t], "digest": True, "g": "a"} for t in alike[::-1] for _ in (0, 1)]))
    plans.append((["4"], [{"id": t, "text": texts[t]} for t in order()]))                                    # one value, four threads
    home = os.environ

    def go(k):
        args, jobs = plans[k]
        out = []
        while jobs:
            env = dict(home, LANG=["C", "tr_TR.UTF-8", "de_DE"][k % 3], HOME="/nonexistent%d" % k, XDR_RUN=str(k))
            prog = exe
            if k % 2:
                prog = others[k // 2 % 2]
                env.update(LD_PRELOAD=shim, TZ="Asia/Kathmandu", USER="someone", LOGNAME="someone", TERM="dumb", NO_COLOR="1", COLUMNS="20",
                           SOURCE_DATE_EPOCH="1", RUST_LOG="trace", RUST_BACKTRACE="full", DEBUG="1", CI="true", OUT_DIR="/nonexistent",
                           CARGO_MANIFEST_DIR="/nonexistent", HOSTNAME="elsewhere", PWD="/", LC_ALL="C", TMPDIR="/nonexistent")
            elif k % 4 == 2:
                env = {"PATH": "/nonexistent"}
            lines, tail, state = watched([prog] + args, "".join(json.dumps(j) + "\n" for j in jobs).encode(), 60, env=env,
                                         cwd=scratch_dir("cwd%d" % k))
            for l in lines:
                x = json.loads(l)
                out.append((x["id"], x["gen"][0] + " " + (x.get("digest") or ""), "process %d thread %d" % (k, x.get("thread", 0))))
            if state == "ok" or args:
                if args and state != "ok":
                    out.append((jobs[0]["id"], state, "process %d" % k))
                break
            # the process died on a text
            out.append((jobs[len(lines)]["id"], state, "process %d" % k))
            jobs = jobs[len(lines) + 1:]
        return out
    calls = []
    for c in pmap(go, range(len(plans))):
        calls += c
    return calls, len(plans)


def pure_check(prop):
    rep = Report(prop, "model_checking")
    cov = collections.Counter()
    samples = []
    rounds = 0
    while True:
        salt = "%s-%d" % (prop, rounds)
        r = rng("pure", salt)
        gs = groups(r, salt, tier() == "quick")
        texts = [t for _, g in gs for t, _ in g]
        recs = run_gen([{"id": i, "text": t, "iset": True} for i, t in enumerate(texts)])
        log("items of", len(texts))
        calls, procs = calls_of(texts, r)
        log("calls", len(calls))
        by = collections.defaultdict(list)
        for t, o, who in calls:
            by[t].append((o, who))
        rows, k = [], 0
        for gi, (sup, g) in enumerate(gs):
            row = {"id": gi, "sup": sup, "texts": [], "calls": []}
            for j, (t, line) in enumerate(g):
                x = recs[k]
                row["texts"].append({"text": t, "line": line, "st": x["gen"][0], "items": x.get("iset", [])})
                row["calls"] += [{"t": j + 1, "o": o, "by": who} for o, who in by[k]]
                k += 1
            r.shuffle(row["calls"])
            rows.append(row)
        parts = [[] for _ in range(4)]
        for row in sorted(rows, key=lambda w: -sum(len(t["text"]) for t in w["texts"])):
            min(parts, key=lambda p: sum(len(t["text"]) + 30 for w in p for t in w["texts"])).append(row)

        def go(i):
            path = ndjson(os.path.join(scratch(), "pure%d.ndjson" % i), parts[i])
            return tlc("XdrPure", env={"XDR_CASES": path}, prefixes=("P|",), workers=2)
        verdicts = {}
        for x in pmap(go, range(4), 4):
            cov["states"] += x.distinct
            for _, (i, v) in x.lines:
                verdicts[i] = v
        if len(verdicts) != len(rows):
            raise ToolError("%d verdicts for %d groups" % (len(verdicts), len(rows)))
        log("judged", cov["states"])
        for row in rows:
            v = verdicts[row["id"]]
            if row["sup"] and (v["strays"] or not v["acc"]):
                t = row["texts"][(v["strays"] or [1])[0] - 1]
                raise ToolError("a variant of a supported specification reads differently: %s\n%s\n-----\n%s" % (v, row["texts"][0]["text"], t["text"]))
            cov["groups:" + ("supported" if row["sup"] else "accepted" if v["acc"] else "rejected")] += 1
            cov["texts"] += len(row["texts"])
            cov["texts not comparable"] += len(v["strays"])
            cov["calls"] += len(row["calls"])
            for w in v["wrong"]:
                if w > 0:
                    a, b = row["texts"][0], row["texts"][w - 1]
                    diff = [x for x in b["items"] if x not in a["items"]] + [x for x in a["items"] if x not in b["items"]]
                    rep.violation("%s of the same declarations: %s / %s: %s: %s" % (
                        "a layout" if b["line"] else "an order", a["st"], b["st"], diff[:4], b["text"][:200]),
                        {"one": a["text"], "other": b["text"], "outcomes": [a["st"], b["st"]], "differing items": diff})
                else:
                    c = row["calls"][-w - 1]
                    rep.violation("generate does not always return the same: %s: %s" % (
                        [x for x in row["calls"] if x["t"] == c["t"]][:3], row["texts"][c["t"] - 1]["text"][:200]),
                        {"text": row["texts"][c["t"] - 1]["text"], "calls": [x for x in row["calls"] if x["t"] == c["t"]]})
            if len(samples) < 5 and row["id"] % 17 == 3:
                samples.append({"texts": [t["text"][:160] for t in row["texts"][:3]], "items": len(row["texts"][0]["items"]), "verdict": v})
        rounds += 1
        if tier() == "quick" or time.time() - T0 > 600:
            break
    st = cov.pop("states")
    rep.cov = {"states": st, "transitions": st, "traces_validated_against_impl": cov["texts"] + cov["calls"],
               "processes": procs, "counts": dict(cov), "samples": samples}
    rep.assumptions = ["items are compared as token sequences (comments and layout of the output aside)"]
    return rep.finish()
