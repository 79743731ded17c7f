"""C27: every auction and every computation of the optimal trade ends with an outcome."""
import random
import check_market, check_single, check_tree, single, tla, tree
from check_base import Check, SEED, THOROUGH
from check_single import sp, tla_spaces
from check_tree import T, space_def
from check_tree import sp as tsp
from target import M, call, finite

LIVE = {"asc": [sp([1, 1], -2, 2, [2, 2], 1), sp([1, 2], -1, 1, [2, 3], 2), sp([1, 0, 1], -1, 1, [2, 1, 2], 1)],
        "tr": [sp([1, 1], -2, 2, [2, 2], 1), sp([1, 2], -1, 1, [2, 3], 2)], "mc": [sp([1, 1], -2, 2, [3, 2], 2)],
        "opt": [sp([1, 1], -1, 1, [2, 2], 1), sp([1, 2], -1, 1, [2, 3], 1)],
        "tree": [tsp(T([1, 2], [0, 1], [1, 1]), -1, 1, [2, 2]), tsp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -1, 1, [1, 1, 1])],
        "int": [tsp(T([1, 2], [0, 1], [1, 2]), -1, 1, [2, 3])]}
LIVE_DEEP = {"asc": [sp([1, 1], -3, 3, [3, 3], 1), sp([1, 2], -2, 2, [2, 4], 2), sp([1, 1, 1], -1, 1, [2, 2, 2], 1)],
             "tr": [sp([1, 1], -2, 2, [3, 3], 1), sp([1, 2], -2, 1, [2, 4], 2), sp([1, 1, 1], -1, 1, [2, 1, 2], 1)], "mc": [sp([1, 1], -3, 3, [3, 3], 2)],
             "opt": [sp([1, 1], -2, 2, [3, 3], 1), sp([1, 2], -1, 1, [2, 5], 1)],
             "tree": [tsp(T([1, 2], [0, 1], [1, 1]), -2, 2, [3, 3]), tsp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -1, 1, [2, 2, 2]),
                      tsp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -1, 1, [2, 1, 1, 1])],
             "int": [tsp(T([1, 2], [0, 1], [1, 2]), -2, 2, [2, 4]), tsp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -1, 1, [2, 3, 2])]}
MODULE = {"asc": "MC_Asc", "tr": "MC_Tr", "mc": "MC_Mc", "opt": "MC_Opt", "tree": "MC_Tree", "int": "MC_Tree"}
CFG = {"asc": "Live_Asc", "tr": "Live_Tr", "mc": "Live_Mc", "opt": "Live_Opt", "tree": "Live_Tree", "int": "Live_Tree"}


def hostile(rng, n, scale, maxsize):
    """Values whose sums and differences are not exact, and extreme sizes."""
    style = rng.choice(["dec1", "dec2", "real", "tiny", "huge", "same", "thirds", "mixed", "steps"])
    def x():
        if style == "dec1":
            return rng.randint(1, 60) / 10
        if style == "dec2":
            return rng.randint(1, 9999) / 100
        if style == "real":
            return rng.random() * 100
        if style == "tiny":
            return rng.random() * 1e-7
        if style == "huge":
            return rng.randint(1, 9 * 10 ** 6) + rng.random()
        if style == "same":
            return 0.3
        if style == "thirds":
            return rng.randint(1, 30) / 3
        if style == "steps":
            return round(0.1 * rng.randint(1, 12), 10)
        return rng.choice([0, 1, 0.1, 1e-9, 5e6, 1 / 7]) * rng.randint(1, 9)
    base = rng.choice([0, 1, 2, 3, 5, 8, maxsize // 2, maxsize])
    buyer = rng.randrange(n)
    mixed = rng.random() < .25
    out = []
    for i in range(n):
        k = min(maxsize * 3, max(0, base * scale[i] + rng.choice([-2, -1, 0, 0, 1, 3])))
        if rng.random() < .08:
            k = 0
        s = 1 if i == buyer else -1
        out.append([(s if not mixed else rng.choice([1, -1])) * x() * (max(1, n - 1) if i == buyer and rng.random() < .8 else 1) for _ in range(k)])
    return out


def single_runs(rng, n, add):
    for _ in range(n):
        kind = rng.choice(["asc", "asc", "asc", "tr", "tr", "mc", "opt"])
        k = rng.choice([1, 2, 2, 2, 3, 3, 4, 6]) if kind != "mc" else rng.choice([1, 2, 2, 3, 5])
        rec = [1] * k if kind == "mc" or rng.random() < .3 else [rng.choice([0, 1, 1, 2, 3, 5, 9]) for _ in range(k)]
        if not any(rec):
            rec[rng.randrange(k)] = rng.choice([1, 3])
        values = hostile(rng, k, [max(1, r) for r in rec], rng.choice([12, 12, 40, 120]))
        opt = rng.random() < .5
        if kind == "opt":
            o = check_market.compute(values, rec, opt, 2000000)
            o = {"st": o["st"], "deals": o.get("k", 0), "why": o.get("why")}
        else:
            o = single.observe(*single.run_impl(kind, values, rec, opt if kind != "asc" else True))
        add({"kind": "single", "rec": rec, "sizes": [len(v) for v in values]}, o, {"mechanism": kind, "market": values, "recipe": rec, "option": opt})


def tree_runs(rng, n, add):
    for _ in range(n):
        k = rng.choice(["tree", "int"])
        struct, counts, ncat = tree.gen_tree(rng, k, maxn=7)
        if k == "int" and counts and rng.random() < .3:
            counts = [rng.choice([1, 1, 3, 5, 7]) for _ in range(ncat)]
        t = tree.spec_tree(struct, counts)
        scale = [1] * ncat
        for c, w in zip(t["cat"], t["w"]):
            scale[c - 1] = w
        values = hostile(rng, ncat, scale, rng.choice([6, 6, 12, 30]))
        what = rng.choice(["auction", "auction", "auction", "optimum"])
        if what == "auction":
            s, r = tree.run_on(k, tree.make_market(values), struct, counts)
            if s == "ok":
                s, o = call(lambda: {"st": "ok", "deals": r.num_of_deals(), "g": r.gain_from_trade(), "text": repr(r)})
                o = o if s == "ok" else {"st": s, "why": o}
            else:
                o = {"st": s, "why": r}
        else:
            def f():
                x = tree.build(k, tree.make_market(values).categories, struct, counts)
                d, n_, g = x.optimal_trade()
                x.optimal_trade_GFT()
                x.optimal_trade_with_counters()
                return {"st": "ok", "deals": n_}
            s, o = call(f)
            o = o if s == "ok" else {"st": s, "why": o}
        sizes = [len(v) for v in values]
        add({"kind": "tree", "tree": t, "sizes": sizes}, o, {"what": what, "variant": k, "market": values, "tree": struct, "counts": counts})


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = []
    for k, ss in (LIVE_DEEP if THOROUGH else LIVE).items():
        for s in ss:
            d = space_def(k, s) if k in ("tree", "int") else tla_spaces(s)
            jobs.append((k, s, tla.Job(MODULE[k], CFG[k], defs={"SpacesDef": d}, timeout=3000, heap="4g")))
    recs, info = [], {}
    hangs = [0]

    def add(rec, obs, what):
        cid = "e%d" % len(recs)
        d = obs.get("deals", 0) if obs["st"] == "ok" else 0
        ok = isinstance(d, (int, float)) and finite(d) and int(d) == d and abs(d) < 10 ** 6
        recs.append(dict(rec, id=cid, st=obs["st"], deals=int(d) if ok else -1))
        info[cid] = dict(what, got=obs)
        hangs[0] += obs["st"] == "hang"
        if hangs[0] > 4:
            raise StopIteration
    for f, n in ((single_runs, 700), (tree_runs, 600)):
        try:
            f(rng, n * (8 if THOROUGH else 1), add)
        except StopIteration:
            hangs[0] = 0
    chk.count("runs on values that are not exact in floating point", len(recs))
    chk.count("of these with deals", sum(r["deals"] > 0 for r in recs))
    ver, st, di = tla.judge("Trace_End", recs, shards=3, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        for f in ver[r["id"]]["fails"]:
            chk.violation(f, info[r["id"]], str(info[r["id"]]))
    n = 3000 if THOROUGH else 240
    check_single.report(chk, pid, check_single.collect(pid, chk, ["asc", "tr", "mc"], n, "end", models=False))
    check_tree.report(chk, pid, check_tree.collect(pid, chk, ["tree", "int"], n, models=False))
    check_market.report(chk, pid, check_market.collect(pid, chk, n // 2, models=False))
    for k, s, j in jobs:
        chk.model(CFG[k], j.get(), {"liveness under weak fairness": k, **s})
    return chk.finish(assumptions=["a run that does not return within 10 seconds (on at most a few hundred traders) does not end",
                                   "the recipe has at least one positive count; counts of a tree are positive; categories of a tree are all different"])
