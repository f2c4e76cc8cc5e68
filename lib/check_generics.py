"""C13: generic sets by reachability, replayed into Ast::generics() and the emitted items."""
import collections

from common import *


def random_graph(r, k):
    """Chains, cycles, diamonds, trees, or anything."""
    to = [set() for _ in range(k)]
    order = list(range(k))
    r.shuffle(order)
    shape = r.choice(["chain", "chain", "cycle", "dag", "sparse", "diamonds", "anything", "two"])
    if shape in ("chain", "cycle", "two"):
        for a, b in zip(order, order[1:]):
            to[a].add(b)
        if shape == "cycle":
            to[order[-1]].add(order[0])
        if shape == "two":
            m = k // 2
            to[order[m - 1]].discard(order[m])
            if r.random() < .5:
                to[order[m - 1]].add(order[0])
    elif shape == "dag":
        for i in range(k):
            for j in range(i + 1, k):
                if r.random() < 2.0 / k:
                    to[order[i]].add(order[j])
    elif shape == "diamonds":
        for i in range(k - 3):
            if i % 3 == 0:
                to[order[i]] |= {order[i + 1], order[i + 2]}
                to[order[i + 1]].add(order[i + 3])
                to[order[i + 2]].add(order[i + 3])
    else:
        for i in range(k):
            for _ in range(r.choice([0, 1, 1, 1, 2] if shape == "sparse" else [0, 1, 2, 3, 5])):
                to[i].add(r.randrange(k))
    if shape in ("chain", "diamonds") and r.random() < .7:
        opq = {order[-1]}
        if shape == "diamonds":
            opq = {order[(k - 1) // 3 * 3]}
    else:
        opq = {r.randrange(k) for _ in range(r.choice([0, 1, 1, 2, 3]))}
    return {"opq": sorted(x + 1 for x in opq), "to": [sorted(x + 1 for x in t) for t in to]}, shape


def replay(k, reals, emit, lines, salt):
    """lines: the driver's input; split over processes"""
    exe = build_gen()[0].replace("xdrgen", "graphs")
    cores = min(CORES, max(1, len(lines) // 50))

    def go(i):
        data = "".join(l + "\n" for l in lines[i::cores]).encode()
        p = subprocess.run([exe, str(k), str(reals), str(emit), str(seed() * 1000 + salt * 10 + i)], input=data, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=scratch(), timeout=600)
        if p.returncode:
            return {"bad": [{"what": "the driver died (exit %d): %s" % (p.returncode, p.stderr.decode()[-500:]), "text": "", "expected": "", "observed": ""}], "nbad": 1}
        return json.loads(p.stdout)
    total = collections.Counter()
    mentions = collections.Counter()
    bad = []
    for x in pmap(go, range(cores)):
        for f in ("graphs", "texts", "generated", "parameters", "nbad"):
            total[f] += x.get(f, 0)
        mentions.update(x.get("mentions", {}))
        bad += x["bad"]
    return total, mentions, bad


def generics_check(prop):
    rep = Report(prop, "model_checking")
    quick = tier() == "quick"
    total, mentions = collections.Counter(), collections.Counter()
    states = 0
    # the machine marks, in any order, exactly the names that reach opaque
    for k in (2, 3) if quick else (2, 3, 4):
        r = tlc("XdrGenerics", env={"XDR_K": str(k), "XDR_GRAPHS": ""}, extra=("-lncheck", "final"), xmx="12g")
        states += r.distinct
        log("marking machine", k, r.distinct)
    samples = []

    def use(res):
        t, m, bad = res
        total.update(t)
        mentions.update(m)
        for b in sorted(bad, key=lambda b: len(b["text"])):
            rep.violation("%s: expected %s, observed %s: %s" % (b["what"], b["expected"], b["observed"], b["text"]), b)
    # every graph of up to four declarations
    for k in (1, 2, 3, 4):
        r = tlc("XdrGenericsDump", env={"XDR_K": str(k), "XDR_GRAPHS": ""}, prefixes=("G|",))
        states += r.distinct
        lines = [json.dumps(v) for _, v in r.lines]
        if len(lines) != (2 ** k) ** k:
            raise ToolError("%d lines for %d nodes" % (len(lines), k))
        reals = {1: 400, 2: 120, 3: 24 if quick else 200, 4: 1 if quick else 24}[k]
        emit = {1: 8, 2: 12, 3: 40, 4: 600}[k]
        use(replay(k, reals, emit, lines, k))
        samples.append({"nodes": k, "line": r.lines[len(r.lines) // 3][1]})
        log("graphs of", k, dict(total))
    # larger ones
    r = rng("graphs")
    gs = [random_graph(r, r.choice([5, 6, 8, 12, 13, 14, 20, 30, 40])) for _ in range(2000 if quick else 20000)]
    path = ndjson(os.path.join(scratch(), "graphs.ndjson"), [g for g, _ in gs])
    t = tlc("XdrGenericsDump", env={"XDR_K": "2", "XDR_GRAPHS": path}, prefixes=("G|",))
    states += t.distinct
    for _, (i, gen) in t.lines:
        gs[i - 1][0]["gen"] = sorted(gen)
    use(replay(0, 4 if quick else 20, 12, [json.dumps(g) for g, _ in gs], 9))
    log("larger graphs", dict(total))
    rep.cov = {"states": states, "transitions": states, "traces_validated_against_impl": total["texts"], "exhaustive": True,
               "graphs": total["graphs"], "texts": total["texts"], "specifications generated and examined": total["generated"],
               "generic parameters examined": total["parameters"], "mentions": dict(sorted(mentions.items())),
               "shapes of larger graphs": dict(collections.Counter(s for _, s in gs)), "samples": samples}
    rep.assumptions = ["every graph over at most four declarations is realised; the forms of mention, names and orders of each are sampled"]
    return rep.finish()
