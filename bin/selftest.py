#!/usr/bin/env python3
"""Does the binding bind?  Records calls of real decoders, falsifies one field of
a record at a time and has TLC judge each: every falsification has to be
noticed, as the property it is about.  (By hand; no check depends on it.)"""
import collections
import copy
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check_decode
from decode import *
from envs import catalog

LEN = ["err", "InvalidLength"]


def falsified(rec, r):
    """(what, the property it concerns, record)"""
    def but(**kw):
        x = copy.deepcopy(rec)
        x.update(kw)
        return x
    ok = rec["o1"] == ["ok"]
    yield "panic", "C04", but(o1=["panic"])
    yield "hang", "C04", but(o2=["hang"])
    yield "memory", "C09", but(al=rec["lim"] + 1)
    yield "families differ", "C03", but(eq=False)
    yield "views differ", "C03", but(vs=False)
    if ok:
        yield "size", "C02", but(ws=rec["ws"] + 1)
        yield "rest", "C03", but(left=rec["left"] + 1)
        yield "other rest", "C03", but(leftok=False)
        yield "rejected for its length", "C05", but(o1=LEN)
        yield "rejected", "C01", but(o2=["err", "NonUtf8String"])
        yield "rejected wrongly", "C06", but(o1=["err", "InvalidBoolean"])
        yield "one more", "C01", but(toks=rec["toks"] + [["end"]])
        if rec["toks"]:
            yield "one less", "C01", but(toks=rec["toks"][:-1])
        for i, t in enumerate(rec["toks"]):
            x = copy.deepcopy(rec["toks"])
            if t[0] == "opaque" and len(t) > 2:
                x[i][1] += 1
                yield "offset", "C08", but(toks=x)
                x = copy.deepcopy(rec["toks"])
                x[i][-1] ^= 1
                yield "payload", "C01", but(toks=x)
            elif t[0] in ("enum", "arm", "bool"):
                x[i][-1] = (x[i][-1] + "_") if isinstance(x[i][-1], str) else x[i][-1] ^ 1
                yield t[0], "C06", but(toks=x)
            elif len(t) > 1 and isinstance(t[-1], int) and t[0] != "opaque":
                x[i][-1] ^= 1
                yield "value of " + t[0], "C01", but(toks=x)
    elif rec["o1"][0] == "err":
        p = "C05" if rec["o1"] == LEN else "C06"
        yield "accepted after " + rec["o1"][1], p, but(o1=["ok"])
        yield "another error than " + rec["o1"][1], p, but(o1=["err", "NonUtf8String" if rec["o1"][1] != "NonUtf8String" else "InvalidBoolean"])
        if len(rec["o1"]) > 2:
            yield "payload of " + rec["o1"][1], "C06", but(o1=rec["o1"][:-1] + [rec["o1"][-1] ^ 1])


def main():
    r = rng("selftest")
    envs = [e for e in catalog() if e.name not in ("big", "scale", "many")]
    subj = Subjects(envs, "selftest")
    cases, kinds = check_decode.gather(subj, r, Plan(valid=2, mutate=6, rand=0, tail=True), set())
    cases = [c for c in cases if not check_decode.has_bare(envs[c[0]])]
    recs = subj.run(cases)
    verdicts, _, _ = judge(subj, cases, recs)
    honest = [k for k, v in verdicts.items() if not v.broken]
    print("%d of %d records as specified" % (len(honest), len(cases)))
    jobs, per = [], collections.Counter()
    r.shuffle(honest)
    for k in honest:
        for what, prop, rec in falsified(recs[k], r):
            # (an input that is wrong in two ways may be reported in either)
            if per[what] < 60 and not (prop in ("C05", "C06") and verdicts[k].m["early"]):
                per[what] += 1
                jobs.append((what, prop, cases[k], dict(rec, id=len(jobs))))
    got, _, _ = judge(subj, [j[2] for j in jobs], {i: j[3] for i, j in enumerate(jobs)})
    missed = collections.Counter()
    for i, (what, prop, case, rec) in enumerate(jobs):
        if prop not in got[i].broken:
            missed[what] += 1
            if missed[what] < 3:
                print("MISSED %s (%s): %s %s %s" % (what, prop, case[1], case[2].hex(), {k: rec[k] for k in ("o1", "o2", "toks", "ws", "left")}), got[i].m, got[i].broken)
    for what in sorted(per):
        print("%-40s %4d falsified %4d missed" % (what, per[what], missed[what]))
    return 1 if missed or len(honest) < len(cases) else 0


if __name__ == "__main__":
    sys.exit(main())
