"""C26: reporting the true value is safe in the recipe-tree auctions."""
import multiprocessing, random, time
from fractions import Fraction
import single, tla, tree
from check_base import Check, SEED, THOROUGH
from check_tree import T, space_def, struct_of, sp
from check_truth import swap


QUICK = {"tree": [sp(T([1, 2], [0, 1], [1, 1]), -2, 2, [2, 2]), sp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -1, 1, [2, 2, 1]),
                  sp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -1, 1, [1, 1, 1, 1])],
         "int": [sp(T([1, 2], [0, 1], [1, 2]), -2, 2, [2, 3]), sp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -1, 1, [2, 2, 1])]}
DEEP = {"tree": [sp(T([1, 2], [0, 1], [1, 1]), -3, 3, [3, 3]), sp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -2, 2, [3, 2, 2]),
                 sp(T([1, 2, 3], [0, 1, 2], [1, 1, 1]), -2, 2, [2, 2, 2]), sp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -1, 1, [2, 2, 2, 2])],
        "int": [sp(T([1, 2], [0, 1], [1, 2]), -2, 3, [3, 4]), sp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -1, 1, [3, 3, 2]),
                sp(T([1, 2, 3], [0, 1, 1], [2, 1, 2]), -1, 1, [3, 2, 3])]}
for d in (QUICK, DEEP):
    for k in d:
        for s in d[k]:
            s["big"] *= 2


def outcome(obs, u, ncat):
    if obs["st"] != "ok":
        return None
    try:
        cats = [[single.enc(x, u)[0] for x in c] for c in obs["cats"]]
        deals = int(obs["deals"])
        prices = []
        if deals:
            for p in obs["prices"]:
                if p is None or not single.finite(p):
                    return None
                # very low clocks (categories that nobody leaves) are compared exactly by their distance from the multiple of 1e8
                x = float(p) * u
                prices.append(max(-150_000_000, min(150_000_000, round(x))))
        return {"deals": deals, "cats": cats, "prices": prices}
    except (TypeError, ValueError):
        return None


def pair(cid, kind, case, cat, v, r, base, dev):
    """cat: 1-based"""
    values, counts = case["values"], case["counts"]
    t = tree.spec_tree(case["struct"], counts)
    u = single.lcm([Fraction(x).denominator for k in values for x in k] + [Fraction(r).denominator]) * single.lcm(t["w"])
    if max([abs(x) for k in values for x in k], default=0) * u > 50_000_000:
        return None
    b, d = outcome(base, u, len(values)), outcome(dev, u, len(values))
    ok = b is not None and d is not None
    return {"id": cid, "ncat": len(values), "incats": t["cat"], "cat": cat, "val": int(v * u), "rep": int(r * u), "st": "ok" if ok else "err",
            "slack": 1, "base": b or {}, "dev": d or {}}


def gen(rng, kind, maxsize=8):
    while True:
        struct, counts, ncat = tree.gen_tree(rng, kind, maxn=6)
        if kind == "int" and counts is None:
            counts = [1] * ncat
        values = tree.gen_values(rng, struct, counts, ncat, distinct=True, maxsize=maxsize)
        if any(values):
            return {"struct": struct, "counts": counts, "values": values}


def deviations(rng, case, base, limit):
    cats = [c for c in tree.spec_tree(case["struct"], case["counts"])["cat"] if case["values"][c - 1]]
    out, eps = [], Fraction(1, 8)
    for _ in range(limit * 4):
        if len(out) >= limit or not cats:
            break
        c = rng.choice(cats)
        mine = case["values"][c - 1]
        v = rng.choice(mine)
        pts = [Fraction(x) for x in mine] + [Fraction(max(mine)) + 5, Fraction(min(mine)) - 5]
        if base["st"] == "ok" and base["deals"]:
            p = base["prices"][c - 1]
            if single.finite(p) and abs(p) < 1e6:
                pts += [Fraction(round(p * 8), 8)] * 4
                worst = sorted(mine)[:2]        # traders near the margin matter most
                v = rng.choice([v] + worst + sorted(mine, key=lambda x: abs(x - p))[:2])
        r = rng.choice(pts) + rng.choice([-1, 1]) * eps * rng.choice([1, 1, 3, 4, 12, 80])
        r = int(r) if r.denominator == 1 else float(r)
        if r in mine or v not in mine:
            continue
        out.append((c, v, r))
    return out


# A wide, cheap search for misreports worth judging: whatever looks like a gain goes to the specification, which decides.
def scout(args):
    kind, seed, n, secs = args
    rng = random.Random(seed)
    hits, runs, t0 = [], 0, time.monotonic()
    for _ in range(n):
        if time.monotonic() - t0 > secs or len(hits) >= 12:
            break
        case = gen(rng, kind, rng.choice([8, 8, 8, 14, 30]))
        base = run_one(kind, case, case["values"])
        if base["st"] != "ok":
            break
        for dv in deviations(rng, case, base, 24):
            c, v, r = dv
            dev = run_one(kind, case, swap(case["values"], c - 1, v, r))
            runs += 1
            if dev["st"] == "ok" and gains(base, dev, case, c, v, r):
                hits.append((case, c, v, r, base, dev))
                break
    return kind, hits, runs


def gains(base, dev, case, c, v, r):
    """Does the pair look like a break of what Trace_TruthTree states?"""
    inb, ind = v in base["cats"][c - 1], r in dev["cats"][c - 1]
    if not ind or not (dev["deals"] or inb):
        return False
    if not inb:
        p = dev["prices"][c - 1]
        return p is None or not single.finite(p) or v - p > 1e-6
    cats = tree.spec_tree(case["struct"], case["counts"])["cat"]
    if dev["deals"] != base["deals"] or any(len(dev["cats"][i - 1]) != len(base["cats"][i - 1]) for i in cats):
        return True
    return bool(base["deals"]) and any(abs(dev["prices"][i - 1] - base["prices"][i - 1]) > 1e-3 for i in cats
                                       if base["prices"][i - 1] is not None and dev["prices"][i - 1] is not None)


def run_one(kind, case, values):
    return tree.observe(*tree.run_on(kind, tree.make_market(values), case["struct"], case["counts"] if kind == "int" else None))


def _replay(args):
    kind, cases = args
    diff, n, memo = [], 0, {}
    for c in cases:
        t = c["tree"]
        counts = [1] * len(c["mkt"])
        for x, w in zip(t["cat"], t["w"]):
            counts[x - 1] = w
        case = {"struct": struct_of(t), "counts": counts if kind == "int" else None, "values": c["mkt"]}
        key = repr(c["mkt"])
        if key not in memo:
            if len(memo) > 2000:
                memo.clear()
            memo[key] = run_one(kind, case, c["mkt"])
        ob, od = memo[key], run_one(kind, case, c["dmkt"])
        n += 1
        cc = dict(c, big=c["big"])
        if not (tree.same(cc, ob, kind, None, None) and tree.same(dict(cc, out=c["dout"]), od, kind, None, None)):
            diff.append((dict(case, counts=counts), c["cat"], c["val"], c["rep"], ob, od))
            if len(diff) > 60 or "hang" in (ob["st"], od["st"]):
                break
    return diff, n


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    spaces = DEEP if THOROUGH else QUICK
    jobs = [(k, s, tla.Job("MC_TruthTree", "MC_TruthTree", defs={"SpacesDef": space_def(k, s)}, workers=2, timeout=3000, heap="6g" if THOROUGH else "2g"))
            for k in spaces for s in spaces[k]]
    recs, info = [], {}

    def add(k, case, c, v, r, base, dev):
        cid = "%s-%d" % (k, len(recs))
        p = pair(cid, k, case, c, v, r, base, dev)
        if p is not None:
            recs.append(p)
            info[cid] = {"auction": k, "market": case["values"], "tree": case["struct"], "counts": case["counts"], "category": c, "value": v, "report": r,
                         "truthful": base, "misreport": dev}
    for k in ("tree", "int"):
        hangs = 0
        for i in range(2500 if THOROUGH else 220):
            case = gen(rng, k)
            base = run_one(k, case, case["values"])
            chk.count("%s markets" % k)
            for c, v, r in deviations(rng, case, base, 10):
                dev = run_one(k, case, swap(case["values"], c - 1, v, r))
                add(k, case, c, v, r, base, dev)
                hangs += dev["st"] == "hang"
                if base["st"] == "ok" == dev["st"]:
                    inb, ind = v in base["cats"][c - 1], r in dev["cats"][c - 1]
                    chk.count("%s pairs: %s when truthful, %s by the false report" % (k, "in" if inb else "out", "in" if ind else "out"))
            if hangs >= 3 or base["st"] == "hang":
                break
    with multiprocessing.Pool(6) as p:
        for k, hits, n in p.map(scout, [(k, "C26/%s/%d/%d" % (k, SEED, i), 20000 if THOROUGH else 400, 240 if THOROUGH else 25) for k in ("tree", "int") for i in range(3)], chunksize=1):
            chk.count("%s misreports screened" % k, n)
            for h in hits:
                add(k, *h)
    for k, s, j in jobs:
        r = j.get()
        chk.model("MC_TruthTree", r, {"kind": k, **s})
        for c in r.cases:
            c["big"] = s["big"]
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay, [(k, r.cases[i::8]) for i in range(8)]):
                chk.validated += 2 * n
                chk.count("%s misreport behaviours of the specification replayed" % k, n)
                for d in diff[:40]:
                    add(k, *d)
    ver, st, di = tla.judge("Trace_TruthTree", recs, shards=6, timeout=3000)
    chk.traces(2 * len(recs), st, di)
    for r in recs:
        i = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            chk.violation(f, i, "%s %s %s counts=%s: trader %s of category %d reports %s" % (i["auction"], i["market"], i["tree"], i["counts"], i["value"], i["category"], i["report"]))
        if r["st"] == "ok" and r["base"]["deals"]:
            chk.sample({k: i[k] for k in ("auction", "market", "tree", "counts", "category", "value", "report")}, cap=3)
    return chk.finish(assumptions=["traders' values within a category are distinct and a false report does not tie with another trader of its category"])
