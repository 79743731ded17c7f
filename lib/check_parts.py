"""C33: random categories. C34: external competition. C35: the archived protocols' recipes, trades and clocks."""
import math, multiprocessing, random, re
import check_prices, target, tla, tree
from check_base import Check, SEED, THOROUGH
from target import M, call, finite

# ---------------------------------------------------------------- random categories
KINDS = {"uniform": "uniformly_random", "normal": "normalvariate_random", "gamma": "gammavariate_random", "pareto": "paretovariate_random"}
DRAW = {"uniform": "uniform", "normal": "normalvariate", "gamma": "gammavariate", "pareto": "paretovariate"}
WIDE = 1_500_000          # no value of ours is larger


def bounds(c):
    """The interval of draws that cannot be left (but with a chance below 1e-14)."""
    k, a = c["dist"], c["args"]
    if k == "uniform":
        return min(a), max(a)
    if k == "normal":
        lo, hi = a[0] - 9 * a[1], a[0] + 9 * a[1]
        return (0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
    if k == "gamma":
        al, be = a
        dev = 9 * math.sqrt(al)
        return max(0, be * (al - dev)), be * (al + dev + 40 * min(1, 100 / al))
    return 1, (1e-15) ** (-1 / a[0])


def cells(c, lo, hi):
    """Intervals of draws that a large number of draws hits (but with a chance below 1e-12)."""
    k, a = c["dist"], c["args"]
    if c["n"] < 150:
        return []
    if k == "uniform":
        w = (hi - lo) / 4
        return [(lo + i * w, lo + (i + 1) * w) for i in range(4)]
    if k == "normal":
        return [(lo, a[0]), (a[0], hi)] if a[0] > 9 * a[1] else []
    if k == "gamma":
        m = a[0] * a[1]
        return [(lo, m), (m * .9, hi)] if a[0] >= 1 else []
    m = 2 ** (1 / a[0])
    return [(lo, m), (m, hi)]


def make_category(c, script=None):
    """-> values, whether the name is right, how many of the dictated draws were taken"""
    f = getattr(M.agents.AgentCategory, KINDS[c["dist"]])
    args = ("b", c["n"]) + (() if c["dist"] == "uniform" else (c["sign"],)) + tuple(c["args"])
    if script is None:
        x = f(*args)
        return x, None
    left = list(script)
    old = getattr(random, DRAW[c["dist"]])
    taken = [0, True]
    def stub(*a):
        taken[0] += 1
        taken[1] = taken[1] and list(a) == list(c["args"])
        return left.pop(0) if left else old(*a)
    setattr(random, DRAW[c["dist"]], stub)
    try:
        x = f(*args)
    finally:
        setattr(random, DRAW[c["dist"]], old)
    return x, taken[0] == len(script) and taken[1]


def draw_case(args):
    c, seed = args
    random.seed(seed)
    lo, hi = bounds(c)
    s = 1 if c["dist"] == "uniform" else c["sign"]
    ends = sorted([lo * s, hi * s])
    rec = {"st": "ok", "n": c["n"], "vals": [], "named": True, "whole": True, "lo": math.floor(max(-WIDE, ends[0]) * 1000 - 1e-6), "hi": math.ceil(min(WIDE, ends[1]) * 1000 + 1e-6),
           "cells": [], "dictated": False, "draws": [], "fresh": True, "why": ""}
    rec["cells"] = [[math.floor(min(x * s, y * s)), math.ceil(max(x * s, y * s))] for x, y in cells(c, lo, hi)]
    rec["cells"] = [[max(-WIDE, x), min(WIDE, y)] for x, y in rec["cells"]]
    def go():
        a, _ = make_category(c)
        if c.get("script") is not None:
            b, all_taken = make_category(c, c["script"])
            return a, b, all_taken
        b, _ = make_category(c)
        return a, b, False
    st, r = call(go)
    if st != "ok":
        rec["st"], rec["why"] = st, str(r)
        return [rec]
    out = []
    for x, dictated in ((r[0], False), (r[1], r[2])):
        y = dict(rec)
        st, v = call(lambda: list(x.values))
        if st != "ok":
            out.append(dict(rec, st=st))
            continue
        y["named"] = x.name == "b"
        y["whole"] = all(finite(z) and z == int(z) for z in v)
        y["vals"] = [int(max(-WIDE, min(WIDE, z))) if finite(z) else WIDE for z in v]
        if dictated:
            y["dictated"], y["cells"] = True, []
            y["draws"] = [round(1000 * (s * abs(z) if c["dist"] != "uniform" else z)) for z in c["script"]]
        out.append(y)
    if c.get("script") is None and c["n"] >= 150 and out[0]["cells"]:
        span = (c["args"][1] - c["args"][0]) if c["dist"] == "uniform" else 0
        out[1]["fresh"] = abs(span) < 50 or out[0]["vals"] != out[1]["vals"]
    return out


def gen_draw(rng):
    k = rng.choice(list(KINDS))
    n = rng.choice([0, 1, 2, 3, 5, 17, 200, 300])
    c = {"dist": k, "n": n, "sign": rng.choice([1, -1, 1, -1, 2, -3, .5])}
    if k == "uniform":
        lo = rng.choice([-1000, -100, -5, 0, 1, 7, -2.5, .25])
        c["args"] = [lo, lo + rng.choice([0, 1, 9, 99, 1000, 2.5])]
        if rng.random() < .2:
            c["args"] = c["args"][::-1]        # random.uniform takes the ends in either order
    elif k == "normal":
        c["args"] = [rng.choice([0, 5, 100, -40, 7.3]), rng.choice([0, 0, 1, 10, 30])]
    elif k == "gamma":
        c["args"] = [rng.choice([1, 2, 9, 100, 10000]), rng.choice([.01, 1, 3, 20])]
    else:
        c["args"] = [rng.choice([3, 4, 10, 1000, 10 ** 6])]
    if n <= 17 and rng.random() < .5:
        lo, hi = bounds(c)
        hi = min(hi, lo + 5000)
        c["script"] = [rng.choice([lo, hi, round(rng.uniform(lo, hi), 3), min(hi, math.floor(lo) + .5 + rng.randint(0, 3))]) for _ in range(n)]
        c["script"] = [min(hi, max(lo, x)) for x in c["script"]]
        if k == "normal" and c["args"][0] - 9 * c["args"][1] <= 0:
            c["script"] = [x * rng.choice([1, -1]) if -x >= c["args"][0] - 9 * c["args"][1] else x for x in c["script"]]
    return c


DRAWS = [("TLA:{-2500, -1499, 0, 501, 1500}", "TLA:{1, -1, 2}", 3)]
DRAWS_DEEP = [("TLA:{-2500, -1499, -500, 0, 501, 1500, 3000}", "TLA:{1, -1, 2, -3}", 3), ("TLA:{-1500, 0, 999}", "TLA:{1, -1}", 5)]


def run33(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Draw", "MC_Draw", defs=dict(zip(("DrawDef", "SignsDef", "MaxNDef"), a)), timeout=1200)) for a in (DRAWS_DEEP if THOROUGH else DRAWS)]
    todo = [gen_draw(rng) for _ in range(20000 if THOROUGH else 3000)]
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Draw", r, dict(zip(("draws", "signs", "traders"), a)))
        for x in r.cases if THOROUGH else rng.sample(r.cases, min(len(r.cases), 2000)):
            todo.append({"dist": "normal" if x["fold"] else "uniform", "n": len(x["xs"]), "sign": x["sign"], "args": [0, 5] if x["fold"] else [-5, 5], "script": [y / 1000 for y in x["xs"]]})
            chk.count("behaviours of the specification dictated")
    with multiprocessing.Pool(6) as p:
        parts = p.map(draw_case, [(c, SEED * 65537 + i) for i, c in enumerate(todo)], chunksize=50)
    recs, info = [], {}
    for c, rs in zip(todo, parts):
        for r in rs:
            r["id"] = "d%d" % len(recs)
            recs.append({k: v for k, v in r.items() if k != "why"})
            info[r["id"]] = (c, r)
            chk.count("categories: " + c["dist"])
            chk.count("with dictated draws", int(r["dictated"]))
            chk.count("with all parts of the range judged", int(bool(r["cells"])))
    finish(chk, "Trace_Draw", recs, info)
    return chk.finish(assumptions=["a category consists of independent draws of Python's random module; draws beyond 9 standard deviations do not occur"])


def finish(chk, module, recs, info):
    ver, st, di = tla.judge(module, recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            if f.startswith(chk.pid + ":"):
                chk.violation(f, {"case": c, "recorded": full}, "%s -> %s" % (c, {k: v for k, v in full.items() if k not in c}))
        chk.sample(c, cap=3)


# ---------------------------------------------------------------- external competition
def whole(x):
    return int(round(x)) if finite(x) and abs(x) < 10 ** 8 and abs(x - round(x)) < 1e-5 else 10 ** 8


def competition_case(c):
    A, Mk = M.agents.AgentCategory, M.markets.Market
    rec = {"st": "ok", "cats": c["cats"], "rec": c["rec"], "p": c["p"], "v": c["v"], "s": [], "given": c.get("given", []), "paid": [], "unchanged": True, "why": ""}
    def go():
        u = c.get("u", 1)
        nat = (lambda x: x / u) if u > 1 else (lambda x: x)
        cats = [[nat(x) for x in k] for k in c["cats"]]
        market = Mk([A("agent" if c.get("same") else "c%d" % i, list(x)) for i, x in enumerate(cats)])
        s = market.best_containing_PS(c["p"] - 1, nat(c["v"]))
        given = [nat(x) for x in c["given"]] if c.get("given") else list(s)
        prices = market.calculate_prices_by_external_competition(c["p"] - 1, nat(c["v"]), tuple(given), list(c["rec"]))
        return [whole(x * u) for x in s], c["given"] if c.get("given") else [x * u for x in s], \
            [whole(x * r * u) for x, r in zip(prices, c["rec"])] if len(prices) == len(c["rec"]) else [], \
            [sorted(x.values) for x in market.categories] == [sorted(x) for x in cats]
    st, r = call(go)
    if st != "ok":
        rec["st"], rec["why"] = st, str(r)
        return rec
    rec["s"], rec["given"], rec["paid"], rec["unchanged"] = r
    rec["given"] = [whole(x) for x in rec["given"]]
    return rec


def gen_competition(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    span = rng.choice([3, 3, 10, 10, 1000, 1000, 100_000, 3_000_000])
    cats = [[rng.randint(-span, span) for _ in range(rng.choice([1, 1, 2, 3, 5] * 3 + [9, 14, 40]))] for _ in range(n)]
    if rng.random() < .6:
        cats = [[abs(x) if i == 0 else -abs(x) for x in s] for i, s in enumerate(cats)]
    p, v = rng.randint(1, n), rng.randint(-span, span)
    c = {"cats": cats, "rec": [rng.choice([1, 1, 2, 3, 0]) for _ in range(n)], "p": p, "v": v, "same": rng.random() < .3}
    if rng.random() < .1:
        c["cats"][p - 1] = []                # the trader is the only one left of his category
    c["rec"][p - 1] = rng.choice([1, 1, 2, 3, 7])
    if rng.random() < .4:
        c["u"] = rng.choice([2, 8, 10, 100, 100_000])       # the values given are v/u
    if rng.random() < .3:
        c["given"] = [v if i == p - 1 else rng.randint(-span, span) for i in range(n)]
    return c


COMP = [("TLA:{<<1>>, <<-1, 2>>, <<0, -2>>, <<3, 3>>}", "TLA:{<<1, 1>>, <<2, 1>>, <<1, 3, 1>>, <<1, 0, 2>>}", "TLA:{-2, 0, 1, 4}")]
COMP_DEEP = [("TLA:{<<1>>, <<-1, 2>>, <<0, -2>>, <<3, 3>>, <<-4, -1, 1>>}", "TLA:{<<1, 1>>, <<2, 1>>, <<1, 3, 1>>, <<1, 0, 2>>, <<2, 2, 3>>, <<1, 1, 1, 1>>}", "TLA:{-3, -2, 0, 1, 4}")]


def run34(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Competition", "MC_Competition", defs=dict(zip(("CatDef", "RecDef", "ValueDef"), a)), timeout=1200)) for a in (COMP_DEEP if THOROUGH else COMP)]
    todo = [gen_competition(rng) for _ in range(20000 if THOROUGH else 4000)]
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Competition", r, dict(zip(("categories", "recipes", "values"), a)))
        # categories next to a count of zero have no say in the prices; the one of the trader has at least one
        todo += [{k: x[k] for k in ("cats", "rec", "p", "v")} for x in r.cases if x["rec"][x["p"] - 1] > 0]
        chk.count("behaviours of the specification replayed", len(r.cases))
    recs, info = [], {}
    for c in todo:
        r = competition_case(c)
        r["id"] = "e%d" % len(recs)
        recs.append({k: v for k, v in r.items() if k != "why"})
        info[r["id"]] = (c, r)
    finish(chk, "Trace_Competition", recs, info)
    return chk.finish(assumptions=["the trader's category has a positive count; other categories are not empty"])


# ---------------------------------------------------------------- the archived protocols
class Clock:
    """The archived simultaneous clocks, asked like the present ones: one increase per category."""
    def __init__(self, recipes, total):
        self.recipes, self.pv = recipes, old("SimultaneousAscendingPriceVector").SimultaneousAscendingPriceVectors(recipes, total)

    def increase_prices(self, increases, bound=0):
        self.pv.increase_prices([next(i for i in increases if r[i[0]]) for r in self.recipes])

    def map_category_index_to_price(self):
        return self.pv.map_category_index_to_price()

    def price_sum(self):
        return self.pv.price_sum()

    status = property(lambda self: self.pv.status)


class Clocks:
    SimultaneousAscendingPriceVectors = Clock

    @staticmethod
    def calculate_initial_prices(recipes, total):
        return old("SimultaneousAscendingPriceVector").calculate_initial_prices(recipes, total)


target.Loaded._mods["archived clocks"] = Clocks


def old(name):
    return getattr(M, "old." + name)


def archive_case(c):
    A = M.agents.AgentCategory
    n = len(c["sizes"])
    rec = {"kind": c["kind"], "st": "ok", "recs": c["recs"], "sizes": c["sizes"], "uses": [], "common": [], "own": [], "deals": -1, "units": [], "demand": -1, "offer": -1,
           "first": [], "total": 0, "why": "", "text": "", "listed": [], "gain": 0}
    cats = [A("c%d" % i, list(range(-9, s - 9))) for i, s in enumerate(c["sizes"])]
    def said(t):
        """What a trade says about itself; without deals also its gain."""
        st, text = call(repr, t)
        d = {"text": "error" if st != "ok" else "none" if text == "No trade" else "some", "listed": [], "gain": 0}
        if d["text"] == "some":
            d["listed"] = [int(x) for x in re.findall(r"(?:some of the|all|out of) (\d+) agents trade", text)]
        if t.num_of_deals() == 0:
            g = call(t.gain_from_trade)
            d["gain"] = 0 if g == ("ok", 0) else 1
        return d
    def recipes():
        P = old("ascending_auction_multirecipe_protocol")
        uses, common, own = P._analyze_recipes(n, c["recs"])
        out = {"uses": [[r + 1 for r in u] for u in uses], "common": [x + 1 for x in common], "own": [[x + 1 for x in o] for o in own]}
        if all(own):
            t = P.TradeWithMultipleRecipes(cats, c["recs"], [0] * n)
            out.update(said(t), deals=t.num_of_deals())
        return out
    def units():
        P = old("ascending_auction_multibuyer_protocol")
        u = list(P._convert_recipes_to_seller_counts(c["recs"], n))
        t = P.TradeWithMultipleRecipes(cats, u, [0] * n)
        return {"units": u, "demand": t.num_units_demanded, "offer": t.num_units_offered, "deals": t.num_of_deals(), **said(t)}
    def start():
        p = Clocks.calculate_initial_prices(c["recs"], c["total"])
        return {"first": [check_prices.grid(x, 1) for x in p], "total": c["total"]}
    st, r = call({"recipes": recipes, "units": units, "start": start}[c["kind"]])
    if st != "ok":
        rec["st"], rec["why"] = st, str(r)
    else:
        rec.update(r)
    return rec


def gen_archive(rng):
    kind = rng.choice(["recipes", "recipes", "units", "start"])
    n = rng.choice([1, 2, 3, 3, 4, 5, 6])
    sizes = [rng.choice([0, 1, 2, 3, 4]) for _ in range(n)]
    k = rng.choice([1, 2, 2, 3])
    if kind == "recipes":
        if rng.random() < .7:
            roles = [rng.choice(["common", "none"] + list(range(k)) * 2) for _ in range(n)]
            recs = [[1 if x in ("common", r) else 0 for x in roles] for r in range(k)]
        else:
            recs = [[rng.choice([0, 1]) for _ in range(n)] for _ in range(k)]
        recs = [r if any(r) else [1] * n for r in recs]
        return {"kind": kind, "recs": recs, "sizes": sizes}
    if kind == "units":
        n = max(n, 2)
        sizes = (sizes + [3])[:n] if len(sizes) < n else sizes
        kinds = rng.sample(range(n - 1), min(k, n - 1))
        recs = [[int(i == b) for i in range(n - 1)] + [rng.choice([1, 1, 2, 3, 5])] for b in kinds]
        if rng.random() < .3:          # not usable
            bad = rng.choice(["two kinds", "two buyers", "same kind", "length"])
            r = rng.choice(recs)
            b = next(i for i, x in enumerate(r) if x)
            if bad == "two kinds" and n > 2:
                r[(b + 1) % (n - 1)] = 1
            elif bad == "two buyers":
                r[b] = 2
            elif bad == "same kind":
                recs.append(list(r))
            else:
                recs[recs.index(r)] = r + [1]
        return {"kind": kind, "recs": recs, "sizes": sizes}
    struct, _, ncat = tree.gen_tree(rng, "tree")
    t = tree.spec_tree(struct, None)
    return {"kind": kind, "recs": tree.recipes(t, ncat), "sizes": [1] * ncat, "total": -ncat * rng.choice([1, 10, 1000, 10 ** 6])}


ARCHIVE = [("TLA:{<<<<1, 1>>>>, <<<<1, 1, 0>>, <<1, 0, 1>>>>, <<<<1, 1, 0, 0>>, <<1, 0, 1, 1>>>>, <<<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, 1, 1>>>>, <<<<1, 1, 0>>, <<0, 0, 1>>>>}", 2)]
ARCHIVE_DEEP = [(ARCHIVE[0][0], 3), ("TLA:{<<<<1, 1, 0, 0, 1>>, <<1, 0, 1, 1, 1>>>>, <<<<1, 1, 0, 0, 0>>, <<1, 0, 1, 0, 0>>, <<1, 0, 0, 1, 1>>>>}", 2)]
CLOCKS = [(check_prices.T([1, 2, 3], [0, 1, 1], [1, 1, 1]), [-3, -1, 2], [0], 3, -6), (check_prices.T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), [-2, 1], [0], 3, -8)]
CLOCKS_DEEP = [(check_prices.T([1, 2, 3], [0, 1, 1], [1, 1, 1]), [-3, -2, -1, 2], [0], 4, -6), (check_prices.T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), [-2, 0, 1], [0], 4, -8),
               (check_prices.T([1, 2, 3, 4, 5], [0, 1, 2, 2, 1], [1] * 5), [-2, 1], [0], 3, -10)]


def zero_script(rng, span, length, d):
    inner = check_prices.joint_script(rng, span, length, False, d)
    def script(t, m, q):
        if sum(q[v - 1] for v in tree.paths(t)[0]) >= 0 and rng.random() < .7:
            return None
        op = inner(t, m, q)
        return op if op and not op[1] else None
    return script


def run35(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Archive", "MC_Archive", defs=dict(zip(("RecipeListsDef", "MaxSizeDef"), a)), timeout=1200)) for a in (ARCHIVE_DEEP if THOROUGH else ARCHIVE)]
    clocks = []
    for a in CLOCKS_DEEP if THOROUGH else CLOCKS:
        st = check_prices.start_of("archived clocks", a[0], a[4])
        clocks.append((a, tla.Job("MC_Joint", "MC_Joint", timeout=3000, defs={"TreeDef": a[0], "StartDef": st, "TargetsDef": set(a[1]), "BoundsDef": set(a[2]), "DepthDef": a[3]})))
    todo = [gen_archive(rng) for _ in range(15000 if THOROUGH else 3000)]
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Archive", r, dict(zip(("recipes", "largest category"), a)))
        todo += [{"kind": "recipes", **x} for x in r.cases]
        chk.count("markets of the specification", len(r.cases))
    recs, info = [], {}
    for c in todo:
        r = archive_case(c)
        r["id"] = "a%d" % len(recs)
        recs.append({k: v for k, v in r.items() if k != "why"})
        info[r["id"]] = (c, r)
        chk.count("archived " + c["kind"])
    finish(chk, "Trace_Archive", recs, info)
    recs, info = [], {}
    def add(case, rec):
        rec["id"] = "j%d" % len(recs)
        recs.append(rec)
        info[rec["id"]] = (case, rec)
    for _ in range(5000 if THOROUGH else 700):
        struct, _, ncat = tree.gen_tree(rng, "tree")
        span, d = rng.choice([3, 20, 200]), rng.choice([1, 1, 8])
        total = -ncat * rng.choice([1, 2, 5, 10]) * span
        rec, done = check_prices.run_joint("archived clocks", struct, None, ncat, total, zero_script(rng, span, rng.choice([1, 2, 4, 8, 12]), d), d)
        add({"tree": struct, "total": total, "operations": done}, rec)
        chk.count("random histories of the archived clocks")
    for a, j in clocks:
        r = j.get()
        chk.model("MC_Joint", r, dict(zip(("tree", "targets", "bounds", "depth", "total"), a)))
        cases = r.cases if THOROUGH else rng.sample(r.cases, min(len(r.cases), 3000))
        for diff, n in [check_prices._replay_joint(("archived clocks", a[0], a[4], cases))]:
            chk.validated += n
            chk.count("histories of the specification replayed", n)
            for ops, rec in diff:
                add({"tree": a[0], "total": a[4], "operations": ops}, rec)
    ver, st, di = tla.judge("Trace_Clock", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            if f.startswith(("C17:", pid)):
                chk.violation(f.replace("C17:", pid + ":clocks "), {"case": c, "recorded": full}, "%s -> %s" % (c, full["steps"][-2:]))
    return chk.finish(assumptions=["the auctions of the archived modules are not judged: they no longer run on the present price vectors (their own tests fail)",
                                   "every archived recipe has a category of its own where its trades are counted"])
