"""C29: the tables of the simulation experiments report the markets that were simulated.
The experiments run in processes whose auctions are replaced by recorders of the same auctions, and write to a scratch directory."""
import csv, math, multiprocessing, os, random, re, shutil, tempfile
import tla, tree
from check_base import Check, SEED, THOROUGH
from target import M, call, finite

SEEN = []
AUCTIONS = {"ascending": ("ascending_auction_protocol", "budget_balanced_ascending_auction"),
            "external": ("trade_reduction_protocol", "budget_balanced_trade_reduction"),
            "mcafee": ("mcafee_protocol", "mcafee_trade_reduction")}
TREES = {"tree": ("ascending_auction_recipetree_protocol", "experiment_ascending_auction_recipetree_random"),
         "int": ("ascending_auction_recipetree_integer_protocol", "experiment_ascending_auction_recipetree_integer_random")}
ORIG = {}


def whole(x):
    return int(x) if finite(x) and x == int(x) and abs(x) < 10 ** 6 else 10 ** 6


SCALE = [1]         # values are recorded in this part of a unit


def snapshot(market):
    s, v = call(lambda: [[whole(x * SCALE[0] if finite(x) else x) for x in c.values] for c in market.categories])
    return v if s == "ok" else []


def recorder(name, f):
    def g(market, *a, **k):
        m = snapshot(market)
        t = f(market, *a, **k)
        SEEN.append({"by": name, "mkt": m, "recipe": list(a[0]) if a else None, "counts": list(a[1]) if len(a) > 1 else k.get("agent_counts"),
                     "trade": t})
        return t
    return g


def install(_=None):
    """In this process the auctions are recorded (wherever the experiments import them from)."""
    for name, (mod, fn) in AUCTIONS.items():
        ORIG[name] = getattr(getattr(M, mod), fn)
        if name != "mcafee":
            setattr(getattr(M, mod), fn, recorder(name, ORIG[name]))
    for name, (mod, _) in TREES.items():
        f = getattr(M, mod).budget_balanced_ascending_auction
        setattr(getattr(M, mod), "budget_balanced_ascending_auction", recorder(name, f))


class Answer:
    """A stand-in for the outcome of an auction."""
    def __init__(self, k, total, market):
        self.k, self.total, self.market = k, total, market

    def num_of_deals(self):
        return self.k

    def gain_from_trade(self, including_auctioneer=True):
        return self.total if including_auctioneer else self.market


def read_table(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def num(s, scale):
    try:
        x = float(s)
    except (TypeError, ValueError):
        return 10 ** 8
    return int(max(-10 ** 8, min(10 ** 8, round(x * scale)))) if math.isfinite(x) else 10 ** 8


def ints(s):
    return [int(x) for x in re.findall(r"\d+", str(s))]


def gain(t, unit, auctioneer=None):
    s, x = call(lambda: t.gain_from_trade() if auctioneer is None else t.gain_from_trade(including_auctioneer=auctioneer))
    return x if s == "ok" and finite(x) else 10 ** 6


def enc(x, unit):
    return int(max(-10 ** 8, min(10 ** 8, round(x * unit))))


def deals(t):
    s, k = call(lambda: t.num_of_deals())
    return whole(k) if s == "ok" else 10 ** 6


def group(seen, want, iters):
    """The markets of each size: by their numbers of traders where these differ between sizes, else in order."""
    if len({tuple(w) for w in want}) == len(want):
        groups = [[m for m in seen if [len(c) for c in m["mkt"]] == w] for w in want]
        if sum(map(len, groups)) == len(seen):
            return groups, 0
    groups = [seen[i * iters:(i + 1) * iters] for i in range(len(want))]
    return groups, max(0, len(seen) - iters * len(want))


def run_case(args):
    c, scratch, seed = args
    random.seed(seed)
    path = os.path.join(scratch, "t%d_%s.table" % (os.getpid(), c["file"])) + ".csv"
    old = read_table(path) if os.path.exists(path) else []
    SEEN.clear()
    kind = c["kind"]
    if kind == "single":
        if c["auction"] == "stub":
            answers = iter(c["outs"] if c["outs"] else [])
            rnd = random.Random(seed)
            def f(market, recipe):
                o = next(answers, None) or (rnd.randint(0, 9), rnd.randint(-40, 400) / 4, rnd.randint(-40, 200) / 4)
                return Answer(*o)
        else:
            f = ORIG[c["auction"]]
        s, why = call(lambda: M.experiment.experiment(path, recorder(c["auction"], f), c["title"], tuple(c["recipe"]) if c["tuple"] else list(c["recipe"]),
                                                      c["ranges"], c["sizes"], c["iters"]), limit=60)
    elif kind == "compare":
        s, why = call(lambda: M.experiment_comparing_sbb.experiment(path, [tuple(r) for r in c["recipes"]], c["ranges"], c["sizes"], c["iters"]), limit=90)
    else:
        mod = getattr(M, TREES[c["variant"]][1])
        extra = {"recipe_tree_agent_counts": c["counts"]} if c["variant"] == "int" else {}
        s, why = call(lambda: mod.experiment(path, c["struct"], c["ranges"], c["sizes"], c["iters"], c["fractions"], c["mults"], **extra), limit=60)
    recs = []
    table = []
    if s == "ok":
        s, table = call(read_table, path)
    new = table[len(old):]
    def same(a, b):
        return all(a[k] == b[k] or num(a[k], 10000) == num(b[k], 10000) < 10 ** 8 for k in a)
    kept = len(table) >= len(old) and all(set(a) == set(b) and same(a, b) for a, b in zip(old, table))
    base = {"st": s, "iters": c["iters"], "rec": [], "tree": {"cat": [1], "par": [0], "w": [1]}, "scale": 100, "blurred": [], "rows": [], "groups": [], "lo": [], "hi": [],
            "want": [], "wide": False, "stray": 0, "sizes": list(c["sizes"])}
    if s != "ok":
        return [dict(base, kind=kind, why=str(why))]
    if kind == "single":
        rec = list(c["recipe"])
        want = [[n * r for r in rec] for n in c["sizes"]]
        groups, stray = group(SEEN, want, c["iters"])
        rows = [{"size": num(r.get("num_of_agents"), 1), "k": num(r.get("mean_optimal_count"), 100), "ak": num(r.get("mean_auction_count"), 100), "kr": num(r.get("count_ratio"), 100),
                 "g": num(r.get("mean_optimal_gft"), 100), "at": num(r.get("mean_auction_total_gft"), 100), "gr": num(r.get("total_gft_ratio"), 100),
                 "am": num(r.get("mean_auction_market_gft"), 100), "mr": num(r.get("market_gft_ratio"), 100),
                 "labels": kept and r.get("auction_name") == c["title"] and num(r.get("iterations"), 1) == c["iters"] and r.get("recipe") == ":".join(map(str, rec))} for r in new]
        recs.append(dict(base, kind=kind, rec=rec, want=want, stray=stray, rows=rows, lo=[a for a, b in c["ranges"]][:len(rec)], hi=[b for a, b in c["ranges"]][:len(rec)],
                         wide=wide([[a, b] for a, b in c["ranges"]][:len(rec)], want),
                         groups=[[{"mkt": m["mkt"], "recipe": m["recipe"] == rec, "ak": deals(m["trade"]), "at": enc(gain(m["trade"], 1, True), 100),
                                   "am": enc(gain(m["trade"], 1, False), 100)} for m in g] for g in groups]))
    elif kind == "compare":
        for i, rec in enumerate(c["recipes"]):
            rec = list(rec)
            mult = [sum(rec) - rec[0]] + [rec[0]] * (len(rec) - 1)
            want = [[n * r for r in rec] for n in c["sizes"]]
            mine = [m for m in SEEN if m["recipe"] == rec]
            if len({tuple(r) for r in c["recipes"]}) < len(c["recipes"]):
                per = 2 * c["iters"] * len(c["sizes"])
                mine = SEEN[i * per:(i + 1) * per]
            ext, asc = [m for m in mine if m["by"] == "external"], [m for m in mine if m["by"] == "ascending"]
            ge, se = group(ext, want, c["iters"])
            ga, sa = group(asc, want, c["iters"])
            groups, blurred = [], []
            for x, y in zip(ge, ga):
                gx, gy = [gain(m["trade"], 1) for m in x], [gain(m["trade"], 1) for m in y]
                d = sum(gx) - sum(gy)
                blurred.append(abs(d) < 1e-3 and any(v != int(v) for v in gx + gy))
                groups.append([{"mkt": a["mkt"], "recipe": a["mkt"] == b["mkt"], "ak": deals(a["trade"]), "ak2": deals(b["trade"]),
                                "at": enc(p, 2520), "at2": enc(q, 2520)} for a, b, p, q in zip(x, y, gx, gy)])
            r = new[i] if i < len(new) and len(new) == len(c["recipes"]) else None
            rows = [] if r is None else [{
                "labels": kept and ints(r.get("recipe")) == rec,
                "wins": [num(r.get(k), 1) for k in ("external_wins", "tie", "ascending_wins")],
                "gp": [num(r.get(k), 1) for k in ("external_wins_gft", "tie_gft", "ascending_wins_gft")],
                "kp": [num(r.get(k), 1) for k in ("external_wins_k", "tie_k", "ascending_wins_k")]}]
            lo, hi = [a * m for (a, b), m in zip(c["ranges"], mult)], [b * m for (a, b), m in zip(c["ranges"], mult)]
            recs.append(dict(base, kind=kind, rec=rec, want=want, stray=se + sa + abs(len(ext) - len(asc)), rows=rows, groups=groups, blurred=blurred, lo=lo, hi=hi,
                             wide=wide(list(zip(lo, hi)), want)))
    else:
        t = tree.spec_tree(c["struct"], c["counts"])
        n = c["ncat"]
        want = [[int(x * f) for f in c["fractions"]] for x in c["sizes"]]
        groups, stray = group(SEEN, want, c["iters"])
        lo = [c["ranges"][min(i, 1)][0] * c["mults"][i] for i in range(n)]
        hi = [c["ranges"][min(i, 1)][1] * c["mults"][i] for i in range(n)]
        rows = [{"size": num(r.get("numofagents"), 1), "k": num(r.get("meanoptimalcount"), 1000), "ak": num(r.get("meanauctioncount"), 1000), "kr": min(1000000, num(r.get("countratio"), 1000)),
                 "g": num(r.get("meanoptimalgft"), 1000), "at": num(r.get("meanauctiontotalgft"), 1000), "gr": min(200000, num(r.get("totalgftratio"), 1000)),
                 "kmin": num(r.get("meanoptimalkmin"), 1000), "kmax": num(r.get("meanoptimalkmax"), 1000), "formula": min(200000, num(r.get("gftformula"), 1000)),
                 "labels": kept and num(r.get("iterations"), 1) == c["iters"] and ints(r.get("recipe")) == ints(c["struct"])} for r in new]
        recs.append(dict(base, kind="tree", tree=t, want=want, stray=stray, rows=rows, scale=1000, lo=lo, hi=hi, wide=wide(list(zip(lo, hi)), want),
                         groups=[[{"mkt": m["mkt"], "recipe": m["recipe"] == c["struct"] and (c["variant"] == "tree" or m["counts"] == c["counts"]),
                                   "ak": deals(m["trade"]), "at": enc(gain(m["trade"], 1), 100), "am": 0} for m in g] for g in groups]))
    return recs


def wide(ranges, want):
    return all(b - a >= 90 for a, b in ranges) and all(sum(w) >= 4 for w in want)


# ---------------------------------------------------------------- configurations
def gen(rng, i):
    kind = rng.choice(["single"] * 5 + ["compare"] * 3 + ["tree"] * 4)
    iters = rng.choice([1, 2, 2, 3, 5])
    file = "f%d" % (i if rng.random() < .8 else i % 3)
    if kind == "single":
        auction = rng.choice(["ascending", "external", "mcafee", "stub"])
        n = rng.choice([2, 2, 2, 3, 3, 4])
        rec = [1] * n if auction == "mcafee" or rng.random() < .4 else [rng.choice([1, 1, 2, 3]) for _ in range(n)]
        sizes = rng.choice([[2, 3, 5], [1, 4], [3], [6, 2, 4], [2, 2], [1, 2, 3, 4, 5], [0, 3], [7, 8]])
        span = rng.choice([5, 100, 200])
        shift = rng.choice([0, 0, 0, span // 2, -span // 2])
        top = span * (sum(rec) - rec[0] if rng.random() < .7 else 1)
        ranges = [(1 + shift, max(1 + shift, top + shift))] + [(-span - rng.choice([0, 0, 7]), -1 + rng.choice([0, 0, 10])) for _ in range(n - 1)]
        return {"kind": kind, "auction": auction, "title": rng.choice(["McAfee", "SBB ascending", "x"]), "recipe": rec, "ranges": ranges, "sizes": sizes, "iters": iters,
                "tuple": rng.random() < .5, "outs": None, "file": "s" + file}
    if kind == "compare":
        recipes = [[rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([2, 2, 3, 4]))] for _ in range(rng.choice([1, 1, 2, 3]))]
        n = max(len(r) for r in recipes)
        span = rng.choice([5, 100, 200])
        return {"kind": kind, "recipes": recipes, "ranges": [(1, span)] + [(-span - i, -1) for i in range(n - 1)], "sizes": rng.choice([[2, 3, 5], [4], [1, 2, 3, 4], [3, 5], [2, 2], [2, 3, 4, 5, 6, 7]]),
                "iters": iters, "file": "c" + file}
    v = rng.choice(["tree", "int"])
    n = rng.choice([2, 3, 3, 4, 4, 5])
    par = tree.gen_par(rng, n)
    cat = list(range(1, n + 1))
    if rng.random() < .5:
        rng.shuffle(cat)
    counts = [rng.choice([1, 1, 2]) for _ in range(n)] if v == "int" else None
    span = rng.choice([20, 100, 100])
    return {"kind": kind, "variant": v, "struct": tree.nested(par, cat), "counts": counts, "ncat": n, "ranges": [(1, span), (-span, -1)],
            "sizes": rng.choice([[2, 4], [3], [2, 3, 5], [4, 6], [2, 2, 3]]), "iters": min(iters, 4), "fractions": [rng.choice([1, 1, 1, .5, 2]) for _ in range(n)],
            "mults": [rng.choice([1, 2, 2, 3]) if i == 0 else rng.choice([1, 1, 2]) for i in range(n)], "file": "t" + file}


def spread_cases():
    return [{"kind": "single", "auction": "stub", "title": "many", "recipe": [1, 2, 1], "ranges": [(1, 200), (-150, 50), (-300, -100)], "sizes": [40, 41, 42], "iters": 3, "tuple": True, "outs": None, "file": "m1"},
            {"kind": "compare", "recipes": [[1, 1], [2, 1]], "ranges": [(1, 200), (-150, -10)], "sizes": [30, 31], "iters": 6, "file": "m2"},
            {"kind": "tree", "variant": "tree", "struct": [0, [1, None, 2, None]], "counts": None, "ncat": 3, "ranges": [(1, 150), (-120, -1)], "sizes": [10, 11], "iters": 16,
             "fractions": [1, 1, 1], "mults": [1, 1, 1], "file": "m3"}]


def _worker(args):
    cases, scratch, seed = args
    out = []
    hung = 0
    for i, c in enumerate(cases):
        r = run_case((c, scratch, seed * 7919 + i))
        out.append(r)
        hung += any(x["st"] == "hang" for x in r)
        if hung > 2:
            break
    return out


MODELS = [("TLA:{<<1>>, <<1, 2>>, <<2, 1>>}", 2, 7, -3, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>, <<2, 8, 8>>}"), ("TLA:{<<2, 3>>}", 1, 3, -5, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>}"),
          ("TLA:{<<1, 2, 3>>, <<2, 2>>}", 1, 5, -2, "TLA:{<<0, 0, 0>>, <<1, 3, 1>>, <<2, 6, 6>>}")]
DEEP = [("TLA:{<<1>>, <<1, 2>>, <<2, 1>>, <<3, 3>>}", 2, 7, -3, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>, <<2, 8, 8>>, <<1, 3, -1>>}"), ("TLA:{<<2, 3>>}", 3, 3, -5, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>}"),
        ("TLA:{<<1, 2, 3>>, <<2, 2>>, <<4, 1, 4>>}", 1, 5, -2, "TLA:{<<0, 0, 0>>, <<1, 3, 1>>, <<2, 6, 6>>, <<3, 9, 0>>}")]


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(m, tla.Job("MC_Exp", "MC_Exp", defs=dict(zip(("SizesDef", "ItersDef", "HighDef", "LowDef", "OutsDef"), m)), timeout=1200)) for m in (DEEP if THOROUGH else MODELS)]
    todo = spread_cases() + [gen(rng, i) for i in range(2400 if THOROUGH else 300)]
    for m, j in jobs:
        r = j.get()
        chk.model("MC_Exp", r, dict(zip(("sizes", "iterations", "high", "low", "outcomes"), m)))
        cases = r.cases if len(r.cases) < 260 or THOROUGH else rng.sample(r.cases, 260)
        for i, c in enumerate(cases):
            todo.append({"kind": "single", "auction": "stub", "title": "model", "recipe": [1, 1], "ranges": [(c["high"], c["high"]), (c["low"], c["low"])], "sizes": c["sizes"],
                         "iters": c["iters"], "tuple": True, "outs": [tuple(o) for o in c["outs"]], "file": "r%d" % i, "rows": c["rows"]})
        chk.count("behaviours of the specification replayed", len(cases))
    scratch = tempfile.mkdtemp(prefix="verif_exp_")
    try:
        with multiprocessing.Pool(6, initializer=install) as p:
            parts = p.map(_worker, [(todo[i::12], scratch, SEED * 100 + i) for i in range(12)], chunksize=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    recs, info = [], {}
    for i, part in enumerate(parts):
        for c, rs in zip(todo[i::12], part):
            for r in rs:
                cid = "x%d" % len(recs)
                r["id"] = cid
                recs.append({k: v for k, v in r.items() if k != "why"})
                info[cid] = (c, r)
                chk.count("experiments %s" % c["kind"])
                chk.count("simulated markets", sum(len(g) for g in r["groups"]))
    ver, st, di = tla.judge("Trace_Exp", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"experiment": c, "recorded": full}, "%s -> %s %s" % (c, full.get("why", ""), full["rows"]))
        chk.sample({k: v for k, v in c.items() if k != "rows"}, cap=3)
    return chk.finish(assumptions=["the bounds of value ranges are whole numbers", "ratios and means are printed with two decimals (a unit of the last place is tolerated)",
                                   "an experiment obtains the auction outcomes by calling the auctions of the protocol modules, or the function it is given"])
