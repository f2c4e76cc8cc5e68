"""C10: the runtime's readers and size helpers, replayed against XdrReaders."""
import collections

from common import *

WORD = lambda w: int.from_bytes(bytes(w), "big")


def compile_runtime():
    """A program around the runtime alone."""
    d = scratch_dir("readers")
    gen = os.path.join(d, "gen.rs")
    rec = run_gen([{"id": 0, "text": "const A = 1;\n", "out": gen}])[0]
    if rec["gen"] != ["ok"]:
        raise ToolError("no code for a constant: %s" % rec["gen"])
    src = os.path.join(d, "main.rs")
    with open(os.path.join(VERIF, "harness", "readers", "main.rs")) as f:
        text = f.read().replace("GENERATED", gen)
    with open(src, "w") as f:
        f.write(text)
    exes = {}
    for name, opts in (("dbg", ["-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on"]),
                       ("opt", ["-Copt-level=3"])):
        code, msg = rustc(src, os.path.join(d, name), opts)
        if code:
            raise ToolError("the runtime does not compile: " + msg[-2000:])
        exes[name] = os.path.join(d, name)
    return exes


def call_text(c):
    op, n, mx, ok, val, took = c
    return "%s,%s,%s" % (op, (str(WORD(n)) if n else "top") if op == "bytes" else "-", str(WORD(mx)) if mx else "-")


def expected(c):
    op, n, mx, ok, val, took = c
    if not ok:
        return "E"
    return "%s:%d" % (".".join(bytes(v).hex() for v in val), took)


def lengths(l):
    return "".join("%08x" % n for n in l)


def large_text(c):
    return "%s,%d,%d,%s" % (c["op"], c["n"], c["r"], str(WORD(c["max"])) if c["max"] else "-")


def replay(exe, behs, fam):
    """behs: what XdrReaders prints -> {index: results}"""
    parts = [range(k, len(behs), CORES) for k in range(CORES)]

    def go(ks):
        f = os.path.join(scratch(), "beh%d-%s" % (ks[0] if len(ks) else 0, fam))
        ks = list(ks)
        with open(f, "w") as h:
            for k in ks:
                if fam == "large":
                    c = behs[k][0]
                    h.write("%d %s large\n" % (k, large_text(c)))
                    continue
                b, calls = behs[k]
                h.write("%d %s %s\n" % (k, lengths(b) if fam == "size" else bytes(b).hex(),
                                        "%s,size,-" % calls[0][0] if fam == "size" else ";".join(map(call_text, calls))))
        got, skip = {}, 0
        while skip < len(ks):
            lines, tail, state = watched([exe, f, str(skip)], None, 30)
            for l in lines:
                i, _, r = l.rstrip("\n").partition(" ")
                got[int(i)] = r
            skip += len(lines)
            if skip < len(ks):
                if state == "ok":
                    raise ToolError("the replay stopped early: " + tail)
                got[ks[skip]] = "!" + state
                skip += 1
                if sum(r.startswith("!") for r in got.values()) > 20:
                    break
        os.unlink(f)
        return got
    out = {}
    for r in pmap(go, [p for p in parts if len(p)]):
        out.update(r)
    return out


def readers_check(prop):
    rep = Report(prop, "model_checking")
    thorough = tier() == "thorough"
    exes = compile_runtime()
    cov = collections.Counter()
    states = 0
    samples = []
    runs = [("fixed", 32, 1), ("counted", 12, 1), ("utf8", 4, 1), ("sequence", 4, 2), ("size", 24, 1), ("large", 70, 1)]
    if thorough:
        runs = [("fixed", 128, 1), ("counted", 32, 1), ("utf8", 4, 1), ("sequence", 4, 3), ("size", 64, 1), ("large", 200, 1)]
    jobs = [(f, n, d) for f, n, d in runs]
    res = pmap(lambda j: tlc("XdrReaders", env={"XDR_FAMILY": j[0], "XDR_N": str(j[1]), "XDR_DEPTH": str(j[2])},
                             prefixes=("B|",), workers=2 if not thorough else 4, timeout=600), jobs, 6)
    log("enumerated")
    for (fam, n, d), r in zip(jobs, res):
        behs = [v for _, v in r.lines]
        states += r.distinct
        if not behs:
            raise ToolError("no behaviours of " + fam)
        size, large = fam == "size", fam == "large"
        for mode in ("dbg", "opt") if thorough else ("dbg",):
            got = replay(exes[mode], behs, fam)
            for k, beh in enumerate(behs):
                if k not in got:
                    continue
                if large:
                    c = beh[0]
                    want = "%d:%d" % (c["len"], c["took"]) if c["ok"] else "E"
                    cov["behaviours:large"] += mode == "dbg"
                    if got[k] != want:
                        rep.violation("large: %s gives %s, the contract says %s" % (large_text(c), got[k], want),
                                      {"cell": c, "observed": got[k], "specified": want, "build": mode})
                    continue
                b, calls = beh
                if mode == "dbg":
                    cov["behaviours:" + fam] += 1
                    cov["calls"] += len(calls)
                    for c in calls:
                        cov["op:" + c[0]] += 1
                        cov["ok" if c[3] else "error"] += 1
                want = ":%d" % calls[0][5] if size else ";".join(map(expected, calls))
                if got[k] != want:
                    rep.violation("%s: %s on [%s] gives %s, the contract says %s" % (
                        fam, calls[0][0] if size else ";".join(map(call_text, calls)), lengths(b) if size else bytes(b).hex(), got[k], want),
                        {"buffer": lengths(b) if size else bytes(b).hex(), "calls": calls, "observed": got[k], "specified": want, "build": mode})
                elif k % max(1, len(behs) // 2) == 7:
                    samples.append({"family": fam, "buffer": lengths(b) if size else bytes(b).hex(), "calls": [c[0] for c in calls], "results": want})
        log(fam, len(behs))
    # the boolean reader on every word there is
    outs = pmap(lambda i: watched([exes["opt"], "bools", str(i), str(CORES)], None, 300), range(CORES))
    rej, acc = 0, []
    for lines, tail, state in outs:
        if state != "ok" or len(lines) != 1:
            rep.violation("read_bool %s on some word: %s" % (state, tail[-200:]), {"tail": tail})
            continue
        a, b = lines[0].rstrip("\n").split(" ")
        rej += int(a)
        acc += [x for x in b.split(",") if x]
    if not rep.violations and (sorted(acc) != ["0=0:4", "1=1:4"] or rej != 2**32 - 2):
        rep.violation("read_bool accepts %s and rejects %d words" % (sorted(acc)[:10], rej), {"accepted": sorted(acc), "rejected": rej})
    cov["boolean words"] = rej + len(acc)
    log("booleans")
    rep.cov = {"states": states, "transitions": states, "traces_validated_against_impl": sum(v for k, v in cov.items() if k.startswith("behaviours:")),
               "samples": samples, "bounds": {f: {"N": n, "calls_per_behaviour": d} for f, n, d in runs}, "counts": dict(cov)}
    rep.assumptions = ["contents of a buffer after a failed read are not specified"]
    return rep.finish()
