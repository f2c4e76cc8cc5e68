"""Calls for every word of a range, judged by XdrSweep.tla."""
import rustgen
from decode import *
from xdrgen import *

# Declarations whose words are swept over all of 2^32 in the thorough tier
ENV = [
    const("KB", 0x80000001),
    enum("en", [("EA", 3), ("EB", 0x7fffffff), ("EC", 0), ("ED", 258)]),
    typedef("flag", T("bool")), typedef("en_t", ref("en")),
    struct("el", [field("x", T("u32"))]),
    struct("sbool", [field("a", T("bool")), field("z", T("u32"))]),
    struct("sflag", [field("a", ref("flag"))]),
    struct("sopt", [field("o", ref("el"), o=True), field("z", T("u32"))]),
    struct("sen", [field("e", ref("en_t")), field("z", T("u32"))]),
    union("ub", T("bool"), [arm(["TRUE"], "x", T("u32")), arm(["FALSE"])]),
    union("ub1", ref("flag"), [arm(["TRUE"], "x", T("u32")), arm(["default"])]),
    union("ue", ref("en"), [arm(["EA"], "x", T("u32")), arm(["EB", "EC"])]),
    union("ued", ref("en_t"), [arm(["EA"], "x", T("u32")), arm(["default"], "s", T("string"))]),
    union("uu", T("u32"), [arm([0, 7], "x", T("u32")), arm([1], "b", T("bool")), arm([0x7fffffff, "KB"])]),
    union("uud", T("u32"), [arm([0, 7], "x", T("u32")), arm([1], "b", T("bool")), arm(["default"], "h", T("u64"))]),
    union("uuv", T("u32"), [arm([5], "x", T("u32")), arm(["default"])]),
    union("ui", T("i32"), [arm([0, 256], "x", T("i32")), arm([2147483646], "b", T("bool"))]),
    union("uh", T("i64"), [arm([0, 9], "x", T("u32")), arm([1])]),
    union("uhd", T("u64"), [arm([3], "x", T("u32")), arm(["default"])]),
    union("uhw", T("u64"), [arm([5, 5 << 32 | 5], "x", T("u32")), arm([(1 << 64) - 1]), arm([1 << 63, 9 << 32], "y", T("bool"))]),
    union("uhi", T("i64"), [arm([(1 << 63) - 1, 3 << 32], "x", T("u32")), arm([7]), arm(["default"], "y", T("bool"))]),
    struct("str5", [field("s", T("string"), "var", lit(5)), field("z", T("u32"))]),
    struct("strn", [field("s", T("string"), "var"), field("z", T("u32"))]),
    struct("strb", [field("s", T("string"), "var", cst("KB"))]),
    struct("op3", [field("s", T("opaque"), "var", lit(3)), field("z", T("u32"))]),
    struct("opn", [field("s", T("opaque"), "var")]),
    typedef("topn", T("opaque"), "var"), typedef("tstr", T("string"), "var", lit(9)),
    struct("ar2", [field("s", ref("el"), "var", lit(2)), field("z", T("u32"))]),
    struct("arn", [field("s", ref("el"), "var")]),
    typedef("tar", ref("el"), "var", cst("KB")),
    typedef("strs", T("string"), "var"),
    typedef("ops", T("opaque"), "var", lit(4)),
]
Z = bytes
# (type, before, after, sort)
SUBJECTS = [
    ("sbool", Z(0), Z(4), "value"), ("sflag", Z(0), Z(0), "value"), ("sopt", Z(0), Z(8), "value"), ("sen", Z(0), Z(4), "value"),
    ("en", Z(0), Z(0), "value"), ("ub", Z(0), Z(4), "value"), ("ub1", Z(0), Z(4), "value"), ("ue", Z(0), Z(4), "value"),
    ("ued", Z(0), Z(4), "value"), ("uu", Z(0), Z(4), "value"), ("uud", Z(0), Z(8), "value"), ("uuv", Z(0), Z(4), "value"),
    ("ui", Z(0), Z(4), "value"), ("uh", Z(4), Z(4), "value"), ("uhd", Z(4), Z(4), "value"), ("uh", Z(0), Z(8), "value"), ("uhd", Z(0), Z(8), "value"),
    ("uhw", Z(4), Z(4), "value"), ("uhw", b"\0\0\0\5", Z(4), "value"), ("uhw", b"\xff" * 4, Z(4), "value"), ("uhw", Z(0), Z(8), "value"),
    ("uhw", Z(0), b"\0\0\0\5" + Z(4), "value"), ("uhi", Z(0), Z(8), "value"), ("uhi", Z(0), b"\xff" * 4 + Z(4), "value"),
    ("uhi", b"\0\0\0\3", Z(4), "value"),
    ("str5", Z(0), Z(16), "length"), ("strn", Z(0), Z(8), "length"), ("strb", Z(0), Z(8), "length"), ("op3", Z(0), Z(16), "length"),
    ("opn", Z(0), Z(7), "length"), ("topn", Z(0), Z(8), "length"), ("tstr", Z(0), Z(16), "length"), ("ar2", Z(0), Z(16), "length"),
    ("arn", Z(0), Z(8), "length"), ("tar", Z(0), Z(4), "length"), ("tar", Z(0), Z(0), "length"), ("strs", Z(0), Z(8), "length"),
    ("ops", Z(0), Z(8), "length"), ("strn", Z(0), Z(0), "length"), ("opn", Z(0), Z(1), "length"),
]
FULL = [(0, 0xffffffff)]


def merged(segs):
    out = []
    for lo, hi in sorted(segs):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def words_of(env):
    """What the declarations name"""
    out = set()
    for d in env.decls:
        labels = [num(l["w"]) for a in d.get("arms", []) for l in a["l"] if l["k"] == "num"]
        out |= {num(m["w"]) for m in d.get("m", [])} | {x & 0xffffffff for x in labels} | {x >> 32 for x in labels}
        if d["k"] == "const":
            out.add(num(d["w"]))
        out |= {num(x["b"]["w"]) for x in d.get("f", []) + [d] if x.get("b", NOBOUND)["k"] == "lit"}
    return out


def parts_of(r, width, near=()):
    """Segments: both ends of the range, the neighbourhood of every power of
    two and of their negatives, of the given words, and anywhere."""
    top = 1 << 32
    segs = [(0, 4 * width - 1), (top - 4 * width, top - 1), ((1 << 31) - 2 * width, (1 << 31) + 2 * width)]
    for k in range(8, 32):
        w = min(width, 1 << (k - 1))
        segs += [((1 << k) - w, (1 << k) + w), (top - (1 << k) - w, top - (1 << k) + w)]
    segs += [(x - 8, x + 8) for x in near]
    for k in range(8):
        x = r.randrange(top - width)
        segs.append((x, x + width))
    # words alike in all four bytes, or with one byte set
    for k in range(12):
        x = r.randrange(1, 256)
        segs += [(v, v) for v in (x * 0x01010101, x << 8, x << 16, x << 24)]
    return merged([(max(0, a), min(top - 1, b)) for a, b in segs])


def compile_sweeps(envs, salt):
    subj = Subjects.__new__(Subjects)
    subj.envs, subj.bad, subj.exe = envs, {}, {}
    subj.dir = scratch_dir("sweep-%s" % salt)
    subj.shapes, subj.shape_run = shapes_of(envs)
    r = rng("sweep layout", salt)
    for e in envs:
        e.text = text_of(e.decls, r, e.style)
    recs = run_gen([{"id": i, "text": e.text, "out": subj.path(i)} for i, e in enumerate(envs)])

    def comp(i):
        if recs[i]["gen"][0] != "ok":
            return False, None, "generate %s" % recs[i]["gen"]
        src = os.path.join(subj.dir, "s%d.rs" % i)
        with open(src, "w") as f:
            f.write(rustgen.program([(i, rustgen.module(i, envs[i], subj.shapes[i], subj.path(i), True, False))], True))
        code, msg = rustc(src, src[:-3], ["-Copt-level=2", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Ccodegen-units=8"])
        return code == 0, src[:-3], msg
    for i, (ok, exe, msg) in enumerate(pmap(comp, range(len(envs)))):
        if ok:
            subj.exe[i] = exe
        else:
            subj.bad[i] = ("compile", msg[-2000:])
    return subj


def run_sweeps(subj, jobs, deadline=None):
    """jobs: [dict(env, ty, pre, post, segs)]; adds runs (and sets segs to what was swept)."""
    work = []
    for j, job in enumerate(jobs):
        total = sum(hi - lo + 1 for lo, hi in job["segs"])
        # pieces of similar size
        step = max(1 << 22, total // (4 * CORES) + 1)
        for lo, hi in job["segs"]:
            while lo <= hi:
                work.append((j, lo, min(hi, lo + step - 1)))
                lo += step

    def one(j, lo, hi, quiet):
        job = jobs[j]
        f = os.path.join(subj.dir, "w%d-%d-%d.txt" % (j, lo, hi))
        with open(f, "w") as h:
            h.write("0 %d %s x%s x%s %d %d\n" % (job["env"], job["ty"], job["pre"].hex(), job["post"].hex(), lo, hi))
        lines, tail, state = watched([subj.exe[job["env"]], f, "0"], None, quiet)
        os.unlink(f)
        if state == "ok" and len(lines) == 1:
            return json.loads(lines[0])["runs"]
        return (state if state != "ok" else "crash"), tail

    def batch(ws):
        """Short pieces of one job in one process"""
        out = []
        job = jobs[ws[0][0]]
        f = os.path.join(subj.dir, "b%d-%d-%d.txt" % (ws[0][0], ws[0][1], len(ws)))
        with open(f, "w") as h:
            for n, (j, lo, hi) in enumerate(ws):
                h.write("%d %d %s x%s x%s %d %d\n" % (n, job["env"], job["ty"], job["pre"].hex(), job["post"].hex(), lo, hi))
        words = sum(hi - lo + 1 for _, lo, hi in ws)
        lines, tail, state = watched([subj.exe[job["env"]], f, "0"], None, 60 + words // 100000)
        os.unlink(f)
        for n, l in enumerate(lines):
            out.append((ws[n], json.loads(l)["runs"]))
        if len(lines) < len(ws):
            # one of the calls in the next piece does not return: which?
            j, lo, hi = ws[len(lines)]
            while lo < hi and tail is not None:
                mid = (lo + hi) // 2
                r = one(j, lo, mid, 20)
                if isinstance(r, tuple):
                    hi, (state, tail) = mid, r
                else:
                    lo = mid + 1
            w = list(pystruct.pack(">I", lo))
            huge = "HUGE-ALLOCATION" in (tail or "")
            out.append(((j, lo, lo), [{"lo": w, "hi": w, "o1": [state], "rel1": False, "toks": [], "ws": -1, "o2": [state], "rel2": False,
                                       "left": 0, "leftok": True, "eq": True, "vs": True, "al": 0x7fffffff if huge else 0, "lim": 0x7ffffffe}]))
        return out

    batches, cur, size = [], [], 0
    for w in work:
        n = w[2] - w[1] + 1
        if cur and (cur[0][0] != w[0] or size + n > 1 << 22):
            batches.append(cur)
            cur, size = [], 0
        cur.append(w)
        size += n
    if cur:
        batches.append(cur)
    skipped = set()

    def go(b):
        if deadline and time.time() > deadline:
            skipped.add(b[0][0])
            return []
        return batch(b)
    got = {}
    for res in pmap(go, batches):
        for (j, lo, hi), runs in res:
            got.setdefault(j, []).append((lo, hi, runs))
    words = 0
    for j, job in enumerate(jobs):
        pieces = sorted(got.get(j, []), key=lambda x: x[0])
        job["runs"] = []
        if j in skipped:
            job["segs"] = merged([(lo, hi) for lo, hi, _ in pieces])
        nextstart = dict(zip([hi for _, hi in job["segs"]], [lo for lo, _ in job["segs"][1:]]))
        for lo, hi, runs in pieces:
            words += hi - lo + 1
            for r in runs:
                p = job["runs"][-1] if job["runs"] else None
                if p and nextstart.get(num(p["hi"]), num(p["hi"]) + 1) == num(r["lo"]) and all(p[k] == r[k] for k in r if k not in ("lo", "hi", "al")):
                    p["hi"], p["al"] = r["hi"], max(p["al"], r["al"])
                else:
                    job["runs"].append(r)
    return words


def num(w):
    return int.from_bytes(bytes(w), "big")


def judge_sweeps(subj, jobs):
    """[(job, run, word, broken, machine's outcome)] and TLC's result"""
    rows = [{"id": j, "spec": job["env"] + 1, "ty": job["ty"], "pre": list(job["pre"]), "post": list(job["post"]),
             "segs": [[word(a), word(b)] for a, b in job["segs"]], "runs": job["runs"]} for j, job in enumerate(jobs) if job["runs"]]
    specs = ndjson(os.path.join(subj.dir, "specs.ndjson"), [e.json() for e in subj.envs])
    res = tlc("XdrSweep", env={"XDR_SWEEPS": ndjson(os.path.join(subj.dir, "sweeps.ndjson"), rows), "XDR_SPECS": specs},
              prefixes=("V|", "T|"))
    tiled = {}
    seen = {}
    for pre, v in res.lines:
        if pre == "T|":
            tiled[v[0]] = v[1]
        else:
            (j, run, w), _, broken, m = v
            seen[j, run, tuple(w)] = (jobs[j], jobs[j]["runs"][run - 1], num(w), set(broken), m)
    if len(tiled) != len(rows):
        raise ToolError("no verdict on the tiling of %d sweeps" % (len(rows) - len(tiled)))
    # every run was judged, at one word at least
    judged = {(j, run) for j, run, _ in seen}
    missing = [(j, i) for j, job in enumerate(jobs) for i in range(len(job["runs"])) if (j, i + 1) not in judged]
    if missing:
        raise ToolError("runs without a verdict: %s" % missing[:5])
    bad = {id(x[0]) for x in seen.values() if x[3]}
    for j, ok in tiled.items():
        if not ok and id(jobs[j]) not in bad:
            raise ToolError("the runs of a sweep leave gaps: %s %s" % (jobs[j]["ty"], [(r["lo"], r["hi"]) for r in jobs[j]["runs"]][:50]))
    return list(seen.values()), res


KINDS = {"bool": "value", "marker": "value", "enum": "value", "disc": "value", "strlen": "length", "oplen": "length", "count": "length"}


def anywhere(envs, r, sorts, most):
    """Sweeps of words of encodings of any type: [(env index, type, before, after, sort)]"""
    out = []
    for i, e in enumerate(envs):
        got = []
        for ty in e.types():
            for k in range(3):
                b, marks = encode(e, ty, r, prefer=[None, "one", "zero"][k], size=4)
                if len(b) <= 72:
                    got += [(i, ty, b[:off], b[off + 4:], KINDS[kind]) for off, kind, _ in marks if KINDS.get(kind) in sorts]
        r.shuffle(got)
        out += got[:most]
    return out


def sweep_part(prop, sorts, salt, nenvs, width, full_s=0):
    """Sweeps and their verdicts: (subject programs, jobs, verdicts, words, states)"""
    r = rng("sweep", prop, salt)
    envs = [Env(ENV, "sweep")]
    while len(envs) < 1 + nenvs:
        e = random_env(r)
        if not any(x["t"]["k"] == "opaque" and x.get("a", "none") == "none" and not x.get("void")
                   for d in e.decls if d["k"] in ("struct", "union") for x in (d["f"] if d["k"] == "struct" else d["arms"])):
            envs.append(e)
    subj = compile_sweeps(envs, "%s-%s" % (prop, salt))
    for i, why in subj.bad.items():
        log("no sweep program", i, why[1][-400:])
    # (what has no program is reported by those that try all specifications)
    fixed = [s for s in SUBJECTS if s[3] in sorts and 0 not in subj.bad]
    todo = [(0,) + s for s in fixed] + anywhere(envs[1:], r, sorts, 8)
    todo = [t if n < len(fixed) else (t[0] + 1,) + t[1:] for n, t in enumerate(todo)]
    todo = [t for t in todo if t[0] not in subj.bad]
    if not todo:
        return envs, [], [], 0, [], None
    jobs = [dict(env=i, ty=ty, pre=a, post=b, sort=k, segs=parts_of(r, width, words_of(envs[i]))) for i, ty, a, b, k in todo]
    words = run_sweeps(subj, jobs)
    complete = []
    if full_s:
        # all words of as many of the fixed subjects as there is time for
        end = time.time() + full_s
        order = list(range(len(fixed)))
        # the first of them always, then in an order of this run's own
        rest = order[3:]
        r.shuffle(rest)
        for k in order[:3] + rest:
            t = time.time()
            if complete and t + 1.3 * longest > end:
                break
            job = dict(jobs[k], segs=FULL)
            words += run_sweeps(subj, [job])
            longest = max(time.time() - t, longest if complete else 0)
            log("swept", job["ty"], round(time.time() - t, 1))
            jobs[k] = job
            complete.append("%s/%s" % (job["ty"], len(job["pre"])))
    verdicts, res = judge_sweeps(subj, jobs)
    return envs, jobs, verdicts, words, complete, res
