"""C01-C06, C08, C09: calls of generated decoders judged by Trace.tla."""
import collections
import copy

from common import *
import atlas
from decode import *
from envs import catalog, random_env
from sweep import num, sweep_part

# what each property wants to see more of
PLANS = {
    "C01": dict(valid=10, prefixes=False, mutate=6, rand=1, utf8=False),
    "C02": dict(valid=12, prefixes=False, mutate=6, rand=1, utf8=False),
    "C03": dict(valid=8, prefixes=False, mutate=14, rand=2),
    "C04": dict(valid=5, prefixes=True, mutate=24, rand=6),
    "C05": dict(valid=5, prefixes=True, mutate=30, rand=1, utf8=False),
    "C06": dict(valid=5, prefixes=False, mutate=40, rand=2),
    "C08": dict(valid=12, prefixes=False, mutate=6, rand=1, utf8=False),
    "C09": dict(valid=5, prefixes=False, mutate=40, rand=4, utf8=False),
}

def describe(v, env):
    i, ty, b = v.case
    return {"specification": env.text, "type": ty, "input": b.hex() if len(b) < 4096 else b[:256].hex() + "...(%d bytes)" % len(b),
            "observed": {k: (x if len(str(x)) < 2000 else str(x)[:2000]) for k, x in v.rec.items()},
            "specified": v.m, "broken": sorted(v.broken)}


def replay_text(v, env):
    i, ty, b = v.case
    return "%s: %s of %s bytes: observed %s / %s left %s ws %s, specified %s" % (
        ty, "decoding", len(b), v.rec["o1"], v.rec["o2"], v.rec["left"], v.rec["ws"],
        {k: v.m[k] for k in ("st", "err", "pos", "ws", "mv")})


def gather(subj, r, plan, seen, limit=None):
    cases, kinds = [], []
    small = copy.copy(plan)
    small.valid, small.mutate, small.rand = min(plan.valid, 4), min(plan.mutate, 12), min(plan.rand, 1)
    for i, e in enumerate(subj.envs):
        if i in subj.bad:
            continue
        for ty in getattr(e, "only", None) or e.types():
            for k, b in inputs(e, ty, r, small if hasattr(e, "only") else plan):
                if len(b) > 12000 or (i, ty, b) in seen:
                    continue
                seen.add((i, ty, b))
                cases.append((i, ty, b))
                kinds.append(k)
    return cases, kinds


def has_bare(e):
    """Some field or arm is an inline `opaque x;`"""
    return any(x["t"]["k"] == "opaque" and x.get("a", "none") == "none" and not x.get("o") and not x.get("void")
               for d in e.decls if d["k"] in ("struct", "union") for x in (d["f"] if d["k"] == "struct" else d["arms"]))


def explored(envs, limit, wide, r, most):
    """Inputs of the behaviours TLC finds in XdrGen: [(env index, type, bytes)],
    and TLC's result.  (Specifications with large alphabets, and those on which
    the recorded finding bears, are left to `inputs`.)"""
    ids = [i for i, e in enumerate(envs) if not hasattr(e, "only") and (e.name or tier() == "thorough") and e.name not in ("big", "scale") and not has_bare(e)]
    path = ndjson(os.path.join(scratch(), "gen-specs-%d.ndjson" % random.getrandbits(40)), [envs[i].json() for i in ids])
    res = tlc("XdrGen", env={"XDR_SPECS": path, "XDR_LIMIT": str(limit), "XDR_WIDE": str(wide)}, prefixes=("G|",),
              workers=max(2, CORES // 2), timeout=400)
    out = sorted({(ids[v[0] - 1], v[1], bytes(v[2])) for _, v in res.lines})
    if len(out) > most:
        # every specification and type keeps its share
        r.shuffle(out)
        by = {}
        for c in out:
            by.setdefault(c[:2], []).append(c)
        out = []
        while len(out) < most:
            for k in list(by):
                out.append(by[k].pop())
                if not by[k]:
                    del by[k]
    return out, res


def one_round(rep, prop, envs, salt, plan, scale, stats, gen=(16, 8, 12000)):
    exploring = later(explored, envs, gen[0], gen[1], rng("explored", salt), gen[2])
    subj = Subjects(envs, salt)
    for i, why in list(subj.bad.items()) + list(subj.odd.items()):
        if prop == "C01":
            rep.violation("%s fails for a supported specification: %s" % (why[0], why[1][-600:]),
                          {"specification": envs[i].text, "message": why[1]})
    # a declared value whose variant there is not selects nothing
    for i in list(subj.bad)[:12] if prop == "C06" else []:
        lost = subj.lost_arms(i)
        if lost:
            rep.violation("a declared value has no variant, or one of another form: %s" % lost,
                          {"specification": envs[i].text, "message": subj.bad[i][1]})
    if len(subj.bad) == len(envs):
        if rep.violations:
            return subj
        raise ToolError("most specifications have no decoder: %s" % list(subj.bad.values())[0][1][-800:])
    seen = set()
    cases, kinds = gather(subj, rng("inputs", salt), plan, seen)
    if scale:
        for c in scale_cases(envs, big=tier() == "thorough", runaway=prop in ("C04", "C09")):
            if c not in seen and c[0] not in subj.bad:
                cases.append(c)
                kinds.append("scale")
    found, res = exploring()
    stats["explored states"] += res.distinct
    stats["explored behaviours"] += len(res.lines)
    for c in found:
        if c not in seen and c[0] not in subj.bad:
            seen.add(c)
            cases.append(c)
            kinds.append("explored")
    log(salt, len(cases), "cases", dict(collections.Counter(kinds)))
    recs = subj.run(cases)
    log("ran")
    verdicts, st, di = judge(subj, cases, recs)
    log("judged", st)
    stats["states"] += st
    stats["distinct"] += di
    stats["specs"] += len(envs)
    for k, v in verdicts.items():
        stats["cases"] += 1
        stats["kind:" + kinds[k]] += 1
        stats["outcome:" + v.m["st"] + (":" + v.m["err"][0] if v.m["err"] else "")] += 1
        if kinds[k] == "valid" and v.m["st"] != "ok" :
            raise ToolError("the specification rejects an input made as an encoding: %s %s %s" % (v.case, v.m, envs[v.case[0]].text))
        for d in envs[v.case[0]].by[v.case[1]]["k"],:
            stats["on:" + d] += 1
        if prop in v.broken:
            rep.violation(replay_text(v, envs[v.case[0]]), describe(v, envs[v.case[0]]))
        elif v.broken - {prop}:
            stats["other:" + "+".join(sorted(v.broken))] += 1
        if prop in v.quirk_only:
            rep.known_finding("bare-opaque", replay_text(v, envs[v.case[0]]), describe(v, envs[v.case[0]]))
        if len(stats["samples"]) < 6 and (k * 7919) % 97 == 0 and len(v.case[2]) < 200:
            stats["samples"].append({"type": v.case[1], "input": v.case[2].hex(), "observed": v.rec["o1"], "tokens": v.rec["toks"][:12],
                                     "specified": v.m})
    return subj


SWEPT = {"C04": ("value", "length"), "C05": ("length",), "C06": ("value",), "C09": ("length",)}


def take_sweeps(rep, prop, result, stats):
    envs, jobs, verdicts, words, complete, res = result
    stats["words swept"] += words
    stats["sweeps"] += len(jobs)
    stats["states"] += res.states if res else 0
    stats["sweep verdicts"] += len(verdicts)
    stats["complete"] = complete
    for job, run, w, broken, m in verdicts:
        if prop in broken:
            b = job["pre"] + w.to_bytes(4, "big") + job["post"]
            rep.violation("%s: decoding %s: observed %s / %s left %s ws %s for the words from %#x to %#x, specified %s" % (
                job["ty"], b.hex(), run["o1"], run["o2"], run["left"], run["ws"], num(run["lo"]), num(run["hi"]),
                {k: m[k] for k in ("st", "err", "pos", "ws", "mv")}),
                {"specification": envs[job["env"]].text, "type": job["ty"], "input": b.hex(), "observed": run, "specified": m, "broken": sorted(broken)})
        elif broken:
            stats["other:" + "+".join(sorted(broken))] += 1


def decode_check(prop):
    rep = Report(prop, "model_checking")
    stats = collections.Counter()
    stats["samples"] = []
    stats["complete"] = []
    plan = Plan(**PLANS[prop])
    envs = catalog()
    sweeping = None
    if prop in SWEPT and tier() == "quick":
        sweeping = later(sweep_part, prop, SWEPT[prop], "q", 6, 1 << 13)
    elif prop in SWEPT:
        take_sweeps(rep, prop, sweep_part(prop, SWEPT[prop], "t", 12, 1 << 16, 330), stats)
    if tier() == "quick":
        envs += [random_env(rng("env", i)) for i in range(24)]
        small, res = atlas.packs(rng("atlas", prop), 160, 140, 60)
        stats["small specifications enumerated"] += len(atlas.specimens(3)[0])
        stats["explored states"] += res.distinct
        envs += small
        one_round(rep, prop, envs, "q", plan, True, stats)
    else:
        budget = 700
        n = 0
        while time.time() - T0 < budget - 150 or n == 0:
            es = (catalog() if n % 4 == 0 else []) + [random_env(rng("env", n, i)) for i in range(40)]
            es += atlas.packs(rng("atlas", prop, n), 80 if n else 240, 400, 300)[0]
            p = Plan(**dict(PLANS[prop], valid=PLANS[prop]["valid"] + 4))
            one_round(rep, prop, es, "t%d" % n, p, n == 0, stats, (20, 12, 40000))
            n += 1
    if prop == "C04":
        deep_specimen(rep, stats)
    if sweeping:
        take_sweeps(rep, prop, sweeping(), stats)
    complete = stats.pop("complete", [])
    samples = stats.pop("samples")
    rep.cov = {"states": stats["states"] + stats["explored states"], "transitions": stats["states"] + stats["explored states"],
               "behaviours_explored_by_the_model": stats["explored behaviours"], "traces_validated_against_impl": stats["cases"],
               "words_swept": stats["words swept"], "sweeps": stats["sweeps"], "sweep_calls_judged": stats["sweep verdicts"],
               "swept_over_all_words": complete, "specifications": stats["specs"], "samples": samples,
               "cases_by_kind": {k[5:]: v for k, v in stats.items() if k.startswith("kind:")},
               "specified_outcomes": {k[8:]: v for k, v in stats.items() if k.startswith("outcome:")},
               "calls_by_declaration": {k[3:]: v for k, v in stats.items() if k.startswith("on:")},
               "cases_breaking_other_properties": {k[6:]: v for k, v in stats.items() if k.startswith("other:")}}
    rep.assumptions = ["the supported subset is what DESIGN.md says it is",
                       "generated modules are compiled by the installed rustc without optimisation, with overflow checks"]
    return rep.finish()


def deep_specimen(rep, stats):
    """The recorded finding: recursion per link of a list."""
    envs = [Env([struct("link", [field("n", T("u32")), field("next", ref("link"), o=True)])], "deep")]
    s = Subjects(envs, "deep")
    if s.bad:
        return
    b = b"".join(pystruct.pack(">II", k, 1) for k in range(400000)) + pystruct.pack(">II", 1, 0)
    recs = s.run([(0, "link", b)], quiet_s=60)
    stats["deep"] = 1
    if recs[0]["o1"][0] == "crash":
        rep.known_finding("deep-list", "stack overflow", {"type": "link", "links": 400000})
