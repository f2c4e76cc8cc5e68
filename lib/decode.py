"""Runs generated decoders on inputs and has the specification judge the calls."""
import json
import os
import re
import struct as pystruct

import rustgen
from common import *
from envs import catalog, random_env
from xdrgen import *


def shapes_of(envs):
    path = ndjson(os.path.join(scratch(), "shapes-%d.ndjson" % random.getrandbits(40)), [e.json() for e in envs])
    r = tlc("ShapeDump", env={"XDR_SPECS": path}, prefixes=("S|",))
    out = {}
    for _, (i, bare, shapes) in r.lines:
        out[i - 1] = shapes
        envs[i - 1].bare = bare
    if len(out) != len(envs):
        raise ToolError("shapes of %d of %d specifications" % (len(out), len(envs)))
    return [out[i] for i in range(len(envs))], r


class Subjects:
    """Generated modules for a list of specifications, compiled into programs
    that decode and observe.  bad[i] says why specification i has none, odd[i]
    what is wrong with the module of one that has."""

    def __init__(self, envs, salt=""):
        self.envs = envs
        self.bad, self.odd = {}, {}
        self.dir = scratch_dir("subj-%s" % (salt or "x"))
        self.shapes, self.shape_run = shapes_of(envs)
        r = rng("layout", salt)
        for e in envs:
            e.text = text_of(e.decls, r, e.style)
        recs = run_gen([{"id": i, "text": e.text, "out": self.path(i)} for i, e in enumerate(envs)])
        good = []
        for i, e in enumerate(envs):
            g = recs[i]["gen"]
            if g[0] != "ok":
                self.bad[i] = ("generate", "%s" % g)
            else:
                good.append(i)
        self.exe = {}
        size = max(1, min(5, (len(good) + CORES - 1) // CORES))
        batches = [good[k:k + size] for k in range(0, len(good), size)]
        log("compiling %d modules" % len(good))
        for batch, (ok, exe, msg) in zip(batches, pmap(self.compile, batches)):
            if ok:
                for i in batch:
                    self.exe[i] = exe
        redo = [i for b in batches for i in b if i not in self.exe]
        for i, (ok, exe, msg) in zip(redo, pmap(lambda i: self.compile([i]), redo)):
            if ok:
                self.exe[i] = exe
            else:
                self.bad[i] = ("compile", msg[-3000:], msg)
        # those that compile when nothing is asked of the values of constants and members
        redo = list(self.bad)
        redo = [i for i in redo if self.bad[i][0] == "compile"][:40]
        for i, (ok, exe, msg) in zip(redo, pmap(lambda i: self.compile([i], False), redo)):
            if ok:
                self.exe[i] = exe
                self.odd[i] = self.bad.pop(i)
        log("compiled")

    def path(self, i):
        return os.path.join(self.dir, "g%d.rs" % i)

    def lost_arms(self, i):
        """What the module of specification i, which compiles, lacks of the
        variants its observer names; or nothing"""
        if self.bad.get(i, "-")[0] != "compile":
            return ""
        found = re.search(r"no (?:variant|associated item|variant, associated function, or constant|variant or associated item)[^\n]* named `\w+` found for enum `[^\n]*"
                          r"|expected (?:unit|tuple) struct[^\n]*found (?:unit|tuple) variant[^\n]*|non-exhaustive patterns[^\n]*", self.bad[i][2])
        if not found:
            return ""
        src = os.path.join(self.dir, "alone%d.rs" % i)
        with open(src, "w") as f:
            f.write("include!(\"%s\");" % self.path(i))
        code, _ = rustc(src, src[:-3] + ".rmeta", ["--crate-type=lib", "--emit=metadata"])
        return found.group(0) if code == 0 else ""

    def compile(self, batch, values=True):
        src = os.path.join(self.dir, "p%d_%d%s.rs" % (batch[0], len(batch), "" if values else "v"))
        exe = src[:-3]
        mods = [(i, rustgen.module(i, self.envs[i], self.shapes[i], self.path(i), False, values)) for i in batch]
        with open(src, "w") as f:
            f.write(rustgen.program(mods))
        code, msg = rustc(src, exe, ["-Cdebug-assertions=on", "-Copt-level=0", "-Ccodegen-units=4"])
        return code == 0, exe, msg

    def run(self, cases, quiet_s=20):
        """cases: [(env index, type, bytes)] -> one record per case"""
        groups = {}
        for k, (i, ty, b) in enumerate(cases):
            groups.setdefault(self.exe[i], []).append(k)
        parts = []
        for exe, ks in groups.items():
            n = max(1, min(4, len(ks) // 400))
            parts += [(exe, ks[j::n]) for j in range(n)]
        recs = {}

        def go(part):
            exe, ks = part
            f = os.path.join(self.dir, "c%d_%s.txt" % (ks[0], os.path.basename(exe)))
            with open(f, "w") as h:
                for k in ks:
                    i, ty, b = cases[k]
                    h.write("%d %d %s %s\n" % (k, i, ty, b.hex()))
            res, skip = {}, 0
            while skip < len(ks):
                lines, tail, state = watched([exe, f, str(skip)], None, quiet_s)
                got = 0
                for l in lines:
                    if not l.endswith("\n"):
                        break
                    r = json.loads(l)
                    res[r["id"]] = r
                    got += 1
                skip += got
                if skip < len(ks):
                    if state == "ok":
                        raise ToolError("a subject stopped early: " + tail)
                    k = ks[skip]
                    huge = "HUGE-ALLOCATION" in tail
                    res[k] = {"id": k, "o1": [state], "toks": [], "ws": -1, "o2": [state], "left": 0, "eq": True,
                              "leftok": True, "vs": True, "al": 0x7fffffff if huge else 0, "lim": 0x7ffffffe,
                              "note": tail[-300:]}
                    skip += 1
                    if sum(1 for r in res.values() if "note" in r) > 40:
                        break      # enough said
            os.unlink(f)
            return res
        for r in pmap(go, parts):
            recs.update(r)
        return recs


class Verdict:
    __slots__ = ("case", "rec", "broken", "quirk_only", "m")

    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.broken = set()
        self.quirk_only = set()    # broken, but exactly as the recorded finding says
        self.m = None


JVMS = 4


def judge(subj, cases, recs, part_bytes=20_000_000):
    """TLC compares every record with the machine.  Returns (verdicts, states, distinct)."""
    specs = ndjson(os.path.join(os.environ.get("XDR_KEEP") or subj.dir, "specs.ndjson"), [e.json() for e in subj.envs])
    out = {}
    quirk = {}
    states = distinct = 0
    ids = [k for k in range(len(cases)) if k in recs]
    # parts of bounded and similar size, several TLC processes at a time
    weight = {k: len(cases[k][2]) * 4 + 30 * len(recs[k]["toks"]) + 300 for k in ids}
    nparts = max(1, min(len(ids), max(JVMS if len(ids) > 2000 else 1, sum(weight.values()) // part_bytes + 1)))
    parts = [[] for _ in range(nparts)]
    load = [0] * nparts
    for k in sorted(ids, key=lambda k: -weight[k]):
        j = load.index(min(load))
        parts[j].append(k)
        load[j] += weight[k]

    def run_part(j):
        path = os.path.join(os.environ.get("XDR_KEEP") or subj.dir, "cases%d.ndjson" % j)
        with open(path, "w") as f:
            for k in parts[j]:
                i, ty, b = cases[k]
                r = {x: y for x, y in recs[k].items() if x != "note"}
                r.update(spec=i + 1, ty=ty, inp=list(b))
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        res = tlc("Trace", env={"XDR_CASES": path, "XDR_SPECS": specs}, xmx="5g",
                  workers=2 if nparts > 1 else CORES)
        os.environ.get("XDR_KEEP") or os.unlink(path)
        return res
    for res in pmap(run_part, list(range(nparts)), JVMS):
        states += res.states
        distinct += res.distinct
        for _, (k, q, broken, m) in res.lines:
            if k not in out:
                out[k] = Verdict(cases[k], recs[k])
            if q:
                quirk[k] = set(broken)
            else:
                out[k].broken = set(broken)
                out[k].m = m
    for k, v in out.items():
        if v.m is None:
            raise ToolError("no verdict for case %d" % k)
        if k in quirk and v.broken:
            # what the recorded finding explains is not broken anew
            v.quirk_only = v.broken - quirk[k] if not quirk[k] else set()
            v.broken = v.broken if quirk[k] else set()
    if len(out) != len(ids):
        raise ToolError("%d verdicts for %d cases" % (len(out), len(ids)))
    return out, states, distinct


# ---------------------------------------------------------------------------
# Inputs

BADUTF8 = [b"\x80", b"\xff", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3",
           b"\xe0\x9f\xbf", b"\xf8\x88\x80\x80", b"\xc1\xbf", b"\xf5\x80\x80\x80", b"\xe2\x28\xa1", b"\xf0\x8f\xbf\xbf"]
EDGE = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffc, 0x100, 0x1000000, 0x40000000, 0x20000000]


def put(b, off, n):
    return b[:off] + pystruct.pack(">I", n & 0xffffffff) + b[off + 4:]


class Plan:
    """How many inputs of which sort per type."""
    def __init__(self, valid=6, prefixes=True, mutate=20, rand=2, tail=True, allfields=False, pins=True, edges=True, utf8=True):
        self.valid, self.prefixes, self.mutate, self.rand = valid, prefixes, mutate, rand
        self.tail, self.allfields, self.pins, self.edges, self.utf8 = tail, allfields, pins, edges, utf8


def inputs(env, ty, r, plan):
    """Yields (kind, bytes)."""
    out = []
    valid = []
    for k in range(plan.valid):
        prefer = [None, "zero", "one", "max", None, None][k % 6]
        valid.append(encode(env, ty, r, prefer=prefer, size=[8, 12, 4, 20][k % 4]))
    if plan.pins:
        # every label / member reachable from here, once each
        for n in env.reach(ty):
            d = env.by[n]
            m = len(d["m"]) if d["k"] == "enum" else sum(len(a["l"]) for a in d["arms"]) if d["k"] == "union" else 0
            if m and (n == ty or r.random() < .6):
                for j in range(m):
                    valid.append(encode(env, ty, r, pin={n: j}, prefer="one", size=4))
    out += [("valid", b) for b, _ in valid]
    short = sorted((v for v in valid), key=lambda v: len(v[0]))
    if plan.tail:
        for b, _ in valid[:3]:
            out.append(("tail", b + r.choice([b"\0", b"\xff\xff\xff", b"\0\0\0\1", r.randbytes(r.randint(4, 12))])))
    if plan.prefixes:
        done = 0
        for b, _ in valid[:4] + short[-1:]:
            cuts = range(len(b)) if len(b) <= 64 else sorted(set(
                list(range(0, 24)) + list(range(len(b) - 24, len(b))) + [r.randrange(len(b)) for _ in range(12)]))
            if done > 260:
                break
            for c in cuts:
                out.append(("prefix", b[:c]))
                done += 1
    # steer: every recorded field gets its interesting values
    muts = []
    for b, marks in valid:
        for off, kind, info in marks:
            vals = []
            if kind == "bool":
                vals = [2, 0xffffffff, 0x100, 0x01000000, 0x80000000, 0x00010001]
            elif kind == "marker":
                vals = [0, 1, 2, 0xffffffff, 0x01000000, 0x80000001]
            elif kind == "enum":
                vals = [min(info) - 1, max(info) + 1, 0xffffffff, 0x80000000] + [x + 1 for x in info[:2]] + info[:1]
            elif kind == "disc":
                vals = [max(info or [0]) + 1, 0xffffffff, 0x80000000, 0, 1, 2, 0x7fffffff] + [x + 1 for x in info[:3]] + info[:3]
            elif kind in ("strlen", "oplen", "count"):
                bound = info
                vals = [0, 1, bound, (bound + 1), 0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffd, 0x00010000, bound - 1]
                cur = pystruct.unpack(">I", b[off:off + 4])[0]
                vals += [cur + 1, cur - 1, cur + 4, cur + 3, len(b), len(b) - off - 4, len(b) - off - 3]
            elif kind == "str" and plan.utf8:
                bad = r.choice(BADUTF8)
                at = off + (r.randrange(info) if info else 0)
                if info and at - off + len(bad) <= info:
                    muts.append(("utf8", b[:at] + bad + b[at + len(bad):]))
                continue
            elif kind == "prim":
                continue
            for v in vals:
                # (counts of the inline `opaque x;` form: see scale_cases)
                if not (kind == "count" and env.bare and v & 0xffffffff > 5000):
                    muts.append((kind, put(b, off, v)))
            if kind in ("strlen", "oplen", "count") and info < 0x10000:
                # one more than allowed, with data for it
                n = info + 1
                fill = (b"x" * n + b"\0" * (-n % 4)) if kind != "count" else b"\0" * (8 * n if n < 600 else 600)
                muts.append(("over", put(b, off, n)[:off + 4] + fill + b[off + 4:] + b"\0" * 64))
                # and exactly as much as allowed
                if kind != "count":
                    cur = pystruct.unpack(">I", b[off:off + 4])[0]
                    fill = r.choice([b"x", b"y"]) * info + b"\0" * (-info % 4)
                    muts.append(("exact", b[:off] + pystruct.pack(">I", info) + fill + b[off + 4 + cur + (-cur % 4):]))
    if not plan.allfields and len(muts) > plan.mutate:
        # keep a spread over kinds
        r.shuffle(muts)
        by = {}
        for m in muts:
            by.setdefault(m[0], []).append(m)
        keep = []
        while len(keep) < plan.mutate and by:
            for k in list(by):
                keep.append(by[k].pop())
                if not by[k]:
                    del by[k]
        muts = keep
    out += muts
    for k in range(plan.rand):
        n = r.choice([0, 1, 3, 4, 5, 8, 12, 16, 24, 40])
        if r.random() < .5 and not env.bare:
            out.append(("random", r.randbytes(n)))
        else:
            out.append(("random", b"".join(pystruct.pack(">I", r.choice([0, 1, 2, 3, 4, 5, r.randint(0, 99)] + [0xffffffff, 0x80000000] * (not env.bare))) for _ in range(n // 4 + 1))))
    # words replaced anywhere
    for k in range(plan.rand * 2):
        b = r.choice(valid)[0]
        if len(b) >= 4:
            off = 4 * r.randrange(len(b) // 4)
            out.append(("word", put(b, off, r.choice(EDGE if not env.bare else EDGE[:4] + [0x100]))))
    return out


def scale_cases(envs, big=True, runaway=False):
    """Large counts, payloads and chains: [(env index, type, bytes)]"""
    out = []
    by = {e.name: i for i, e in enumerate(envs) if e.name}
    w = lambda *ns: b"".join(pystruct.pack(">I", n & 0xffffffff) for n in ns)

    def s(b):
        return w(len(b)) + b + b"\0" * (-len(b) % 4)
    if "scale" in by:
        i = by["scale"]
        for n in (255, 256, 257, 300, 1023, 1024, 1025) + ((4096, 32768, 65536) if big else ()):
            b = w(n) + b"".join(w(k * 2654435761) for k in range(n))
            out += [(i, "words", b)]
            if n < 5000 or big:
                out += [(i, "words", b[:-1]), (i, "words", b[:-4]), (i, "words", b + b"tail")]
        for n in (254, 255, 256, 257, 1000):
            b = w(n) + b"".join(s(b"n%d" % k) for k in range(n))
            out += [(i, "names", b), (i, "names", b[:-2])]
            b = w(n) + b"".join(s(bytes([k & 255]) * (k % 9)) for k in range(n))
            out += [(i, "blobs", b), (i, "blobs", b[:-4])]
            b = w(n) + b"".join(s(b"k" * (k % 5)) + s(b"vv" * (k % 4)) for k in range(n))
            out += [(i, "pairs", b), (i, "pairs", b + b"xxxx")]
        for n in (65535, 65536, 65538) if big else (65537,):
            b = w(n) + b"".join(w(5 if k * k % 7 else 260) for k in range(n))
            out += [(i, "sws", b)]
        for n in (255, 256, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 65538, 131073) if big else (255, 256, 4097, 65535, 65536, 65537):
            body = bytes((k * 7 + k // 251) & 255 for k in range(n))
            text = (b"0123456789abcdef" * (n // 16 + 1))[:n]
            out += [(i, "blob16", s(body)), (i, "str16", s(text))]
            # not UTF-8 at the very end, or far behind the start
            out += [(i, "str16", s(text[:-1] + b"\xc3")), (i, "str16", s(text[:n - n // 5] + b"\xe2\x82\x28" + text[n - n // 5 + 3:]))]
            if big or n < 5000:
                out += [(i, "blob", s(body)[:-1]), (i, "name_t", s(text)[:-1])]
            out += [(i, "tail_t", w(1, 5) + s(body) + w(7))]
        out += [(i, "fixblob", bytes(k & 255 for k in range(n))) for n in (1026, 1027, 1028, 1029, 2000)]
        b = b"".join(w(k) for k in range(300))
        out += [(i, "bighdr", b), (i, "bighdr", b[:-1]), (i, "bighdr", b + b"zz")]
        for n in (100, 1000, DEPTH):
            out.append((i, "link", b"".join(w(k, 1) for k in range(n)) + w(9, 0)))
            out.append((i, "glink", b"".join(s(b"abc"[:k % 4]) + w(1) for k in range(n)) + w(0, 0)))
            out.append((i, "link", b"".join(w(k, 1) for k in range(n))))
            out.append((i, "link", b"".join(w(k, 1) for k in range(n)) + w(9, 2)))
    if "bare" in by:
        # the recorded finding, seen through each of the properties
        i = by["bare"]
        out += [(i, "ones", w(2, 4, 4, 4, 4)), (i, "ones", w(2, 4) + b"abcd" + w(4) + b"efgh"), (i, "ones", w(2, 0, 0)),
                (i, "bes", w(2, 4, 0, 0, 4, 0, 1)), (i, "one", w(4, 4))]
    if "bare" in by and runaway:
        # elements that step by wire_size() = 0
        out.append((by["bare"], "ones", w(0xffffffff, 0)))
        out.append((by["bare"], "ones", w(0x7fffffff, 0, 0, 0)))
    if "lists" in by:
        i = by["lists"]
        out.append((i, "tree", b"".join(w(k, 1) for k in range(400)) + w(5, 0)))
        out.append((i, "ulist", b"".join(w(1, k, 1) for k in range(400)) + w(0)))
        out.append((i, "gtree", b"".join(s(b"q") + w(1) for k in range(300)) + w(0, 0, 0) + w(0) * 300))
    if "big" in by:
        i = by["big"]
        for k in range(0, 420, 7):
            out.append((i, "many", w(k)))
        for k in (0, 11, 12, 28, 31, 34, 99, 999, 1000, 1002, 1003, 65534, 65535, 65536, 65537, 0x7ffffffd, 0x7ffffffe, 0x80000001, 0x80000002, 0xffffffff):
            out.append((i, "hub", w(k) + w(3, 7, 9)))
    return out


# recursion that a decoder must take without trouble (in 8 MB of stack, debug build)
DEPTH = 1500
