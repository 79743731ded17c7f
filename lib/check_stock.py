"""C31: the tables of the experiments on stock prices; C32: the categories that are made of price files.
Auctions are replaced by recorders of the same auctions; all files are in a scratch directory, which is also the current one."""
import csv, math, multiprocessing, os, random, re, shutil, sys, tempfile
import check_experiment as ce, target, tla, tree
from check_base import Check, SEED, THOROUGH
from target import M, call, finite

MODES = ("each", "sizes", "shuffled", "repeat", "tree", "tree int")
TREES = {"tree": "experiment_ascending_auction_recipetree_stock", "tree int": "experiment_ascending_auction_recipetree_integer_stock"}
MODULE = {"each": "experiment_stock", "sizes": "experiment_compare_iterations_autions_without_mcafee", "shuffled": "experiment_compare_sbb_shufled_stock",
          "repeat": "experiment_compare_iterations_autions", **TREES}


def install(_=None):
    ce.install()
    d = os.path.join(target.REPO, "stock")
    M.agents                # the library comes first on the path
    if d not in sys.path:
        sys.path.append(d)


def milli(x):
    return int(max(-10 ** 8, min(10 ** 8, round(x * 1000)))) if finite(x) else 10 ** 8


def outs(t, scale):
    return {"ak": ce.deals(t), "at": milli(scale * ce.gain(t, 1, True)), "am": milli(scale * ce.gain(t, 1, False))}


def plain(t):
    return {"ak": ce.deals(t), "at": milli(ce.gain(t, 1)), "am": 0}


def copies(n, need):
    k = 1
    while n * k < need:
        k *= 2
    return k


def run_exp(args):
    c, scratch, seed = args
    random.seed(seed)
    rnd = random.Random(seed)
    path = os.path.join(scratch, "t%d_%s_%s_%s.csv" % (os.getpid(), c["file"], c["mode"], "_".join(c["titles"])))      # other columns, another file
    if c["mode"] == "repeat" and os.path.exists(path):
        os.remove(path)
    old = ce.read_table(path) if os.path.exists(path) else []
    ce.SEEN.clear()
    ce.SCALE[0] = c.get("scale", 1)
    answers = iter(c["outs"] or [])
    def stub(market, recipe, *a):
        q = c.get("scale", 1)
        o = next(answers, None) or (rnd.randint(0, 9), rnd.randint(-40, 400) / 4 / q, rnd.randint(-40, 200) / 4 / q)
        return ce.Answer(*o)
    mode, rec = c["mode"], tuple(c["rec"])
    mod = getattr(M, MODULE[mode])
    fs = [] if mode in TREES else [ce.recorder("a%d" % i, stub if a == "stub" else ce.ORIG[a]) for i, a in enumerate(c["auctions"])]
    q = c.get("scale", 1)
    prices = [[[v / q if v % q else v // q for v in x] for x in s] for s in c["stocks"]]
    if mode in ("shuffled", "repeat"):
        prices = [s[0] for s in prices]
    names = list(c["names"])
    if mode == "each":
        s, why = call(lambda: mod.experiment(path, fs[0], c["titles"][0], rec, prices, names), limit=60)
    elif mode == "sizes":
        s, why = call(lambda: mod.experiment(path, fs, c["titles"], rec, list(c["sizes"]), prices, names), limit=60)
    elif mode == "shuffled":
        s, why = call(lambda: mod.experiment(path, fs, c["titles"], rec, c["iters"], list(c["sizes"]), prices, names), limit=60)
    elif mode == "repeat":
        clear_reports()
        more = {"report_diff": True} if c.get("report") else {}
        s, why = call(lambda: mod.experiment(path, fs, c["titles"], rec, list(c["sizes"]), prices, names, num_of_iterations=c["iters"], **more), limit=60)
    else:
        s, why = call(lambda: mod.experiment(path, c["struct"], list(c["fractions"]), [1] * len(c["fractions"]), list(c["sizes"]), c["iters"], prices, names), limit=60)
    table = []
    if s == "ok":
        s, table = call(ce.read_table, path)
    new = table[len(old):]
    r = {"kind": "exp", "mode": "tree" if mode in TREES else mode, "st": s, "iters": c["iters"], "rec": list(rec), "tree": {"cat": [1], "par": [0], "w": [1]},
         "avail": c["avail"], "sizes": list(c["sizes"]), "want": c["want"], "stocks": c["stocks"], "num": c["num"], "den": c["den"], "flat": mode in ("shuffled", "repeat"),
         "copies": [copies(len(x[0]), max(c["sizes"]) * sum(rec)) if mode == "repeat" else 1 for x in c["stocks"]],
         "each": mode in ("each", "sizes", "shuffled"), "mean": mode in ("shuffled", "repeat") or mode in TREES, "markets": [], "rows": [], "stray": 0,
         "sbb": mode == "repeat" and len(fs) == 2 and all("SBB" in x for x in c["titles"]), "report": bool(c.get("report")), "repg": [], "repk": [], "shown": 0, "why": str(why)}
    if mode in TREES:
        r["tree"] = tree.spec_tree(c["struct"])
    if s != "ok":
        return r
    r["why"] = ""
    # the calls of all auctions on one market follow each other
    by = ["tree"] if mode in TREES else ["a%d" % j for j in range(len(fs))]
    asked = c["struct"] if mode in TREES else list(rec)
    r["stray"] = len(ce.SEEN) % len(by)
    for i in range(0, len(ce.SEEN) - len(by) + 1, len(by)):
        g = sorted(ce.SEEN[i:i + len(by)], key=lambda x: x["by"])
        mkt = g[0]["mkt"]
        r["markets"].append({"mkt": mkt, "stock": owner(c, mkt) + 1, "size": 0, "asked": [x["by"] for x in g] == by and all(x["mkt"] == mkt and x["recipe"] == asked for x in g),
                             "outs": [plain(x["trade"]) if mode in TREES else outs(x["trade"], q) for x in g]})
    if mode == "repeat":
        r["repg"], n = reports("diff_in_sbbs_gft.txt", q)
        r["repk"], m = reports("diff_in_sbbs_k.txt", 1)
        r["shown"] = n + m
    place(c, r)
    for row in new:
        r["rows"].append(read_row(c, row))
    return r


REPORTS = ("diff_in_sbbs_gft.txt", "diff_in_sbbs_k.txt")


def clear_reports():
    for f in REPORTS:
        if os.path.exists(f):
            os.remove(f)


def reports(name, scale):
    """The two numbers of every reported difference, in the order of the file, and the number of markets shown."""
    if not os.path.exists(name):
        return [], 0
    with open(name) as f:
        text = f.read()
    found = re.findall(r"between two auctions: (\S+) (\S+)", text)
    return [[ce.num(a, 1000 * scale), ce.num(b, 1000 * scale)] for a, b in found], len(re.findall(r"^Traders:", text, re.M))


def owner(c, mkt):
    """The stock whose prices these are: the prices of stock j are j modulo the number of stocks, times the unit."""
    for x, col in enumerate(mkt):
        for v in col:
            p = abs(v) * c["den"][x] // c["num"][x]
            return p // c["unit"] % len(c["stocks"])
    return 0


def place(c, r):
    """The size that a market belongs to: by its number of traders; where the stock is too small for a size, the smallest such size."""
    for m in r["markets"]:
        sz = [len(x) for x in m["mkt"]]
        if sz in c["want"]:
            m["size"] = c["want"].index(sz) + 1
        if m["size"] == 0 or (c["mode"] != "repeat" and c["sizes"][m["size"] - 1] > c["avail"][m["stock"] - 1]):
            over = [i + 1 for i, n in enumerate(c["sizes"]) if n > c["avail"][m["stock"] - 1]]
            m["size"] = over[0] if over else 1
    # a stock that fills a size exactly and has no more: its markets of this size and of the next one look alike
    for s in range(1, len(c["stocks"]) + 1):
        for a in range(1, len(c["sizes"])):
            ms = [m for m in r["markets"] if m["stock"] == s and m["size"] == a]
            if c["mode"] != "repeat" and len(ms) > c["iters"] and c["sizes"][a - 1] <= c["avail"][s - 1] < c["sizes"][a]:
                for m in (ms[1::2] if len(ms) == 2 * c["iters"] else ms[c["iters"]:]):
                    m["size"] = a + 1


def read_row(c, row):
    mode = c["mode"]
    def n(k):
        return ce.num(row.get(k), 1000)
    name = row.get("stock_name", row.get("stockname"))
    stock = c["names"].index(name) + 1 if name in c["names"] else 0
    labels = name in c["names"] or name == "Average"
    numkey = "num_possible_trades" if mode in ("each", "sizes") else "numpossibletrades"
    if mode == "each":
        labels = labels and row.get("auction_name") == c["titles"][0] and row.get("recipe") == ":".join(map(str, c["rec"]))
        cols = [("k0", "optimal_count", 10), ("ak", "auction_count", 10), ("ak/k0", "count_ratio", 1), ("g", "optimal_gft", 10), ("at", "auction_gft", 10), ("at/g", "auction_gft_ratio", 1),
                ("am", "auction_market_gft", 10), ("am/g", "market_gft_ratio", 1)]
        cols = [(q, 1, k, t) for q, k, t in cols]
    elif mode == "sizes":
        labels = labels and row.get("recipe") == ":".join(map(str, c["rec"]))
        cols = [("k", 1, "optimal_count", 10), ("k0", 1, "optimal_count_with_gft_zero", 10), ("g", 1, "optimal_gft", 10)]
        for i, a in enumerate(c["titles"]):
            cols += [("ak", i + 1, a + "_auction_count", 10), ("ak/k0", i + 1, a + "_count_ratio", 1), ("am", i + 1, a + "_gft", 10), ("am/g", i + 1, a + "_gft_ratio", 1)]
    elif mode == "shuffled":
        labels = labels and row.get("recipe") == ":".join(map(str, c["rec"]))
        t = 100 if stock == 0 else 1      # the averages are printed with one decimal
        cols = [("k", 1, "optimalcount", t), ("k0", 1, "optimalcountwithgftzero", t), ("g", 1, "optimalgft", t)]
        for i, a in enumerate(c["titles"]):
            cols += [("ak", i + 1, a + "auctioncount", t), ("ak/k0", i + 1, a + "countratio", 2), ("am", i + 1, a + "gft", t), ("am/g", i + 1, a + "gftratio", 2)]
    elif mode == "repeat":
        labels = labels and row.get("recipe") == ":".join(map(str, c["rec"])) and ce.num(row.get("iterations"), 1) == c["iters"]
        cols = [("k", 1, "optimalcount", 10), ("formula", 1, "gftratioformula", 2), ("k0", 1, "optimalcountwithgftzero", 10), ("g", 1, "optimalgft", 10), ("g", 1, "optimalgftwithgftzero", 10)]
        for i, a in enumerate(c["titles"]):
            cols += [("ak", i + 1, a + "count", 10), ("ak/k0 if k", i + 1, a + "countratio", 10), ("at", i + 1, a + "totalgft", 10), ("at/g", i + 1, a + "totalgftratio", 2),
                     ("ak/k", i + 1, a + "withoutgftzerocountratio", 10), ("at", i + 1, a + "withoutgftzerototalgft", 10), ("at/g", i + 1, a + "withoutgftzerototalgftratio", 2),
                     ("am", i + 1, a + "marketgft", 10), ("am/g", i + 1, a + "marketgftratio", 2)]
    else:
        labels = labels and ce.ints(row.get("recipe")) == ce.ints(c["struct"])
        cols = [("k", 1, "optimalcount", 1), ("g", 1, "optimalgft", 1), ("ak", 1, "auctioncount", 1), ("ak/k", 1, "countratio", 2), ("at", 1, "gft", 2), ("at/g", 1, "gftratio", 2)]
    return {"stock": stock, "size": 1, "labels": labels, "num": n(numkey), "numtol": 500 if mode == "each" else 0,
            "cols": [{"q": q, "a": a, "v": n(k) * (c.get("scale", 1) if q in ("g", "at", "am") else 1), "tol": t * (c.get("scale", 1) if q in ("g", "at", "am") else 1)} for q, a, k, t in cols],
            "kmin": n("optimalkmin") if mode in TREES else 0, "kmax": n("optimalkmax") if mode in TREES else 0, "formula": n("gftformula") if mode in TREES else 0}


def order_rows(r):
    """The rows of a stock, and those of the averages, are in the order of the sizes that were simulated."""
    for s in {x["stock"] for x in r["rows"]}:
        have = sorted({m["size"] for m in r["markets"] if s in (0, m["stock"])})
        for x, a in zip([y for y in r["rows"] if y["stock"] == s], have):
            x["size"] = a


# ---------------------------------------------------------------- configurations
def gen(rng, i):
    mode = rng.choice(MODES)
    nst = rng.choice([1, 2, 2, 3])
    iters = rng.choice([1, 2, 3, 4]) if mode in ("shuffled", "repeat") or mode in TREES else 1
    sizes = sorted(rng.choice([[2, 3, 5], [1, 4], [3], [2, 4, 6], [1, 2, 3, 4, 5], [2, 9], [4, 30], [1, 20, 40]]))
    c = {"kind": "exp", "mode": mode, "iters": iters, "sizes": sizes, "outs": None, "file": "f%d" % (i if rng.random() < .8 else i % 3), "names": ["AAPL", "T", "X0"][:nst],
         "struct": None, "fractions": None, "rec": [], "auctions": [], "titles": []}
    span = rng.choice([6, 20, 60])
    anew = rng.random() < .25 and (mode == "repeat" or mode in TREES)       # enough to see that every market is drawn anew
    if anew:
        c["iters"] = iters = rng.choice([8, 8, 9])
        c["sizes"] = sizes = rng.choice([[1], [2], [1, 3], [3]])
    fresh = {}
    def price(j, unit, s=1):
        if anew:        # no price occurs twice in a column
            fresh.setdefault((j, s), rng.sample(range(1, 200), 199))
            return s * unit * (nst * fresh[j, s].pop() + j)
        return s * unit * (nst * rng.randint(1, span) + j)
    c["unit"] = 1
    if mode in TREES:
        n = rng.choice([2, 3, 3, 4, 5])
        par = tree.gen_par(rng, n)
        cat = list(range(1, n + 1))
        if rng.random() < .5:
            rng.shuffle(cat)
        c["struct"] = tree.nested(par, cat)
        c["fractions"] = [1] + [rng.choice([1, 1, .5, 2]) for _ in range(n - 1)]
        c["num"], c["den"] = [1] * n, [1] * n
        have = [rng.choice([4, 5, 6, 8]) for _ in range(nst)]
        if anew:
            have = [rng.choice([20, 21]) for _ in range(nst)]
            c["fractions"] = [1] + [rng.choice([1, 1, 1, 2]) for _ in range(n - 1)]
            price0 = price
            def price(j, unit, s=1):
                if len(fresh.get((j, s), [0])) == 0:
                    del fresh[j, s]
                return price0(j, unit, s)
        c["stocks"] = [[[price(j, 1, 1 if x == 0 else -1) * (2 if x == 0 else 1) for _ in range(int(have[j] * c["fractions"][x]))] for x in range(n)] for j in range(nst)]
        c["num"][0] = 2
        c["avail"] = have
        c["want"] = [[int(a * f) for f in c["fractions"]] for a in sizes]
        c["auctions"] = ["tree"]
        return c
    k = 1 if mode == "each" else rng.choice([1, 2, 2])
    c["auctions"] = [rng.choice(["ascending", "external", "stub"]) for _ in range(k)]
    c["titles"] = rng.sample(["Asc", "External", "rule"], k)
    n = rng.choice([2, 2, 3, 3, 4])
    rec = [rng.choice([1, 1, 1, 2, 3]) for _ in range(n)] if rng.random() < .7 else [1] * n
    c["rec"] = rec
    c["want"] = [[a * x for x in rec] for a in sizes]
    if mode in ("each", "sizes"):
        have = [rng.choice([3, 4, 5, 6, 8]) for _ in range(nst)]
        if mode == "each":
            c["sizes"], c["want"] = [10 ** 6], [[10 ** 6 * x for x in rec]]
        else:
            rec[0] = 1            # the number of buyers is taken for the number of procurement-sets
            c["want"] = [[a * x for x in rec] for a in sizes]
        c["num"] = [sum(rec) - rec[0]] + [1] * (n - 1)
        c["den"] = [1] * n
        scarce = rng.randrange(n)
        c["stocks"] = [[[price(j, 1, 1 if x == 0 else -1) * c["num"][x] for _ in range(have[j] * rec[x] + (rng.choice([0, 0, 1, 2]) if mode == "each" and x != scarce else 0))]
                        for x in range(n)] for j in range(nst)]
        c["avail"] = have
        c["scale"] = rng.choice([1, 1, 4, 64])
    else:
        c["unit"] = rec[0]
        need = max(sizes) * sum(rec)
        if mode == "shuffled":
            c["num"], c["den"] = [sum(rec) - rec[0]] + [rec[0]] * (n - 1), [1] * n
        else:
            c["num"], c["den"] = [sum(rec) - rec[0]] + [1] * (n - 1), [rec[0]] + [1] * (n - 1)
        have = [rng.choice([need, need + 3, need * 2, max(1, need // 2), 2 * sum(rec), 3 * sum(rec) + 1]) for _ in range(nst)]
        have = [min(h, 60) for h in have] if not anew else [rng.choice([20, 23, need + 20]) for _ in range(nst)]
        c["stocks"] = [[[price(j, c["unit"]) for _ in range(have[j])]] for j in range(nst)]
        c["avail"] = [h // sum(rec) for h in have]
        if mode == "repeat":
            c["sizes"] = [a for a in sizes if a <= 9] or [3]
            c["want"] = [[a * x for x in rec] for a in c["sizes"]]
            if rng.random() < .2:
                c["names"] = ["AAPL"] * nst      # the rows are about all stocks together
            if rng.random() < .5:                # differences between two of these auctions are reported
                c["auctions"] = [rng.choice(["ascending", "external", "stub", "stub"]) for _ in range(2)]
                c["titles"] = rng.sample(["SBB_Ascending", "SBB_External", "the SBB rule"], 2)
                c["report"] = rng.random() < .4
    return c


def recorded_stocks(c):
    """The prices as the specification wants them: positive, before they are multiplied."""
    if c["mode"] in ("shuffled", "repeat"):
        return c["stocks"]
    return [[[abs(v) * c["den"][x] // c["num"][x] for v in col] for x, col in enumerate(s)] for s in c["stocks"]]


def from_model(x, i):
    """A behaviour of MC_Stock as an experiment: every buyer has the value High, every seller Low."""
    nst = len(x["avail"])
    return {"kind": "exp", "mode": "shuffled", "iters": x["iters"], "sizes": x["sizes"], "outs": [tuple(o) for o in x["outs"]], "file": "m%d" % i, "names": ["A", "B", "C"][:nst],
            "struct": None, "fractions": None, "rec": [1, 1], "auctions": ["stub"], "titles": ["Asc"], "unit": 1, "num": [1, 1], "den": [1, 1], "avail": x["avail"],
            "want": [[a, a] for a in x["sizes"]], "stocks": [[[nst * 7 + j] * (2 * a)] for j, a in enumerate(x["avail"])]}


def _worker(args):
    cases, scratch, seed = args
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    out, hung = [], 0
    for i, c in enumerate(cases):
        r = run_exp((c, scratch, seed * 7919 + i))
        r["stocks"] = recorded_stocks(c)
        if c["mode"] == "each":      # one market of each stock, as large as it gets
            for m in r["markets"]:
                m["size"] = 1
        else:
            order_rows(r)
        out.append(r)
        hung += r["st"] == "hang"
        if hung > 2:
            break
    return out


MODELS = [("TLA:{<<1, 3>>, <<2, 2>>, <<3>>}", "TLA:{<<1, 2>>, <<2, 3>>}", 1, 7, -3, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>, <<2, 8, 8>>}"),
          ("TLA:{<<1, 2, 1>>, <<2, 1>>}", "TLA:{<<1, 2>>}", 2, 5, -2, "TLA:{<<0, 0, 0>>, <<1, 3, 1>>}")]
DEEP = [("TLA:{<<1, 3>>, <<2, 2>>, <<3, 1>>, <<1, 2, 3>>}", "TLA:{<<1, 2>>, <<2, 3>>, <<1, 2, 3>>}", 1, 7, -3, "TLA:{<<0, 0, 0>>, <<1, 4, 2>>, <<2, 8, 8>>}"),
        ("TLA:{<<1, 2, 1>>, <<2, 1>>, <<2, 2>>}", "TLA:{<<1, 2>>}", 2, 5, -2, "TLA:{<<0, 0, 0>>, <<1, 3, 1>>}"),
        ("TLA:{<<1, 2>>, <<2>>}", "TLA:{<<1, 2>>}", 3, 5, -2, "TLA:{<<0, 0, 0>>, <<2, 3, 1>>}")]


def run31(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(m, tla.Job("MC_Stock", "MC_Stock", defs=dict(zip(("AvailDef", "SizesDef", "ItersDef", "HighDef", "LowDef", "OutsDef"), m)), timeout=1200)) for m in (DEEP if THOROUGH else MODELS)]
    todo = [gen(rng, i) for i in range(3000 if THOROUGH else 420)]
    for m, j in jobs:
        r = j.get()
        chk.model("MC_Stock", r, dict(zip(("procurement-sets per stock", "sizes", "iterations", "high", "low", "outcomes"), m)))
        cases = [x for x in r.cases if x["sizes"][0] <= min(x["avail"])]     # the first size is never left out
        cases = cases if len(cases) < 200 or THOROUGH else rng.sample(cases, 200)
        todo += [from_model(x, i) for i, x in enumerate(cases)]
        chk.count("behaviours of the specification replayed", len(cases))
    scratch = tempfile.mkdtemp(prefix="verif_stock_")
    try:
        with multiprocessing.Pool(6, initializer=install) as p:
            parts = p.map(_worker, [(todo[i::12], scratch, SEED * 100 + i) for i in range(12)], chunksize=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    recs, info = [], {}
    for i, part in enumerate(parts):
        for c, r in zip(todo[i::12], part):
            r["id"] = "s%d" % len(recs)
            recs.append({k: v for k, v in r.items() if k != "why"})
            info[r["id"]] = (c, r)
            chk.count("experiments: " + c["mode"])
            chk.count("simulated markets", len(r["markets"]))
            chk.count("rows", len(r["rows"]))
            chk.count("rows over markets with deals", sum(any(x["q"] == "ak" and x["v"] > 0 for x in y["cols"]) for y in r["rows"]))
    ver, st, di = tla.judge("Trace_Stock", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"experiment": c, "recorded": full}, "%s -> %s %s" % ({k: c[k] for k in ("mode", "rec", "struct", "sizes", "iters", "avail")}, full["why"], full["rows"]))
        chk.sample(c, cap=3)
    return chk.finish(assumptions=["sizes are given in increasing order", "means and ratios are compared in units of 1/1000, or of the last printed decimal",
                                   "an experiment obtains the auction outcomes by calling the auctions of the protocol modules, or the functions it is given"])


# ---------------------------------------------------------------- price files
def write_prices(path, cols):
    with open(path, "w", newline="") as f:
        w = csv.writer(f)
        w.writerow(["Date", "Open", "High", "Low", "Close", "Adj Close", "Volume"])
        for i in range(len(cols["high"])):
            w.writerow(["2020-01-%02d" % (i + 1), cols["open"][i] / 8, cols["high"][i] / 8, cols["low"][i] / 8, cols["close"][i] / 8, cols["close"][i] / 8, 1000 + i])


def thousandth(x):
    return int(x) if finite(x) and x == int(x) and abs(x) < 10 ** 8 else 10 ** 8


def run_file(args):
    c, scratch, seed = args
    random.seed(seed)
    G = M.get_stocks_data
    d = tempfile.mkdtemp(dir=scratch)
    r = dict({k: c["files"][0][k] for k in ("high", "close", "open", "low")}, kind=c["kind"], rec=c.get("rec", []), counts2=c.get("counts2", []), mults=c.get("mults", []), names=True, cats=[], again=[])
    for n, f in zip(c["names"], c["files"]):
        write_prices(os.path.join(d, n + ".csv"), f)
    before = {n: open(os.path.join(d, n)).read() for n in os.listdir(d)}
    out = []
    first = os.path.join(d, c["names"][0] + ".csv")
    old, G.STOCKS = G.STOCKS, d
    try:
        if c["kind"] == "recipe":
            one = call(lambda: G.getPrices(first, tuple(c["rec"])))
            many = call(lambda: G.getStocksPrices(tuple(c["rec"])))
        elif c["kind"] == "tree":
            counts = [x / 2 if x % 2 else x // 2 for x in c["counts2"]]
            one = call(lambda: G.get_prices_tree(first, counts, list(c["mults"])))
            many = call(lambda: G.getStocksTreePrices([0, None], counts, list(c["mults"])))
        else:
            # what is kept is kept by name; the names of this directory are new to this process
            one = call(lambda: [list(G.getAllPricesShuffled(first, c["names"][0]))])
            def listing():
                x, n = G.getStocksPricesShuffled()
                return [[list(y)] for y in x], list(n)
            many, again = call(listing), call(listing)
    finally:
        G.STOCKS = old
    def add(k, s, v, names=True, earlier=None):
        f = c["files"][k]
        if s == "ok" and earlier is not None:
            e = call(lambda: [[thousandth(p) for p in col] for col in earlier])
            r["again"] = [e[1] if e[0] == "ok" else [[]]]
        else:
            r["again"] = []
        x = dict(r, st=s, names=names, why=str(v) if s != "ok" else "", **{n: f[n] for n in ("high", "close", "open", "low")})
        if s == "ok":
            s, cats = call(lambda: [[thousandth(p) for p in col] for col in v])
            x["st"], x["cats"] = s, cats if s == "ok" else []
        out.append(x)
    add(0, *one)
    if many[0] != "ok":
        add(0, *many)
    else:
        prices, names = many[1]
        same = {n: open(os.path.join(d, n)).read() for n in os.listdir(d)} == before
        ok = same and sorted(set(names)) == sorted(c["names"]) and len(prices) == len(names)
        for n, p in zip(names, prices):
            add(c["names"].index(n) if n in c["names"] else 0, "ok", p, ok, one[1] if c["kind"] == "all" and one[0] == "ok" and n == c["names"][0] else None)
        if c["kind"] == "all" and again[0] != "ok":
            add(0, *again)
        elif c["kind"] == "all":
            told = dict(zip(names, prices))
            for n, p in zip(again[1][1], again[1][0]):
                add(c["names"].index(n) if n in c["names"] else 0, "ok", p, ok and sorted(again[1][1]) == sorted(names), told.get(n))
    shutil.rmtree(d, ignore_errors=True)
    return out


def gen_file(rng, i):
    kind = ("recipe", "tree", "all")[i % 3] if i % 6 < 5 else "recipe"
    c = {"kind": kind, "names": rng.sample(["A", "MSFT", "BRK.A", "BRK.B", "T", "GE", "IBM"], rng.choice([1, 1, 2, 3])), "files": []}
    c["names"] = ["%s%d" % (n, i) for n in c["names"]]
    for n in c["names"]:
        rows = rng.choice([1, 2, 3, 4, 5, 7, 12])
        top = rng.choice([9, 80, 800])
        c["files"].append({k: [rng.randint(1, top) for _ in range(rows)] for k in ("high", "close", "open", "low")})
        if kind != "recipe" and rng.random() < .4:      # no price occurs twice
            rows = rng.choice([4, 5, 7])
            some = rng.sample(range(1, 900), 4 * rows)
            c["files"][-1] = {k: some[j::4] for j, k in enumerate(("high", "close", "open", "low"))}
    if kind == "recipe":
        c["rec"] = rng.choice([[1, 1], [2, 1], [1, 2], [2, 1, 1], [1, 1, 1], [2, 2, 2], [2, 2], [1, 3], [3, 1], [1, 2, 1], [1, 2, 3], [1, 1, 1, 1], [2, 1, 1, 2], [1, 2, 3, 4]])
    if kind == "tree":
        n = rng.choice([1, 2, 3, 4, 5])
        c["counts2"] = [rng.choice([2, 2, 2, 1, 4]) for _ in range(n)]
        c["mults"] = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
    return c


def _file_worker(args):
    cases, scratch, seed = args
    out = []
    for i, c in enumerate(cases):
        out.append(run_file((c, scratch, seed * 104729 + i)))
    return out


DEAL = [("TLA:{<<3, 5, 5, 8>>, <<1, 2, 3>>}", "TLA:{<<2, 2>>, <<2, 1, 1>>, <<1, 4>>}", "TLA:{<<1, 1>>, <<2, 1>>, <<1, 1, 2>>}")]
DEEPER = [("TLA:{<<3, 5, 5, 8, 1>>, <<1, 2, 3, 4, 5, 6>>, <<2, 2, 2, 2>>}", "TLA:{<<2, 2>>, <<2, 1, 1>>, <<1, 4>>, <<2, 2, 2>>}", "TLA:{<<1, 1>>, <<2, 1>>, <<1, 1, 2>>}")]


def run32(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(m, tla.Job("MC_Deal", "MC_Deal", defs=dict(zip(("FilesDef", "CountsDef", "MultsDef"), m)), timeout=1200)) for m in (DEEPER if THOROUGH else DEAL)]
    todo = [gen_file(rng, i) for i in range(6000 if THOROUGH else 900)]
    scratch = tempfile.mkdtemp(prefix="verif_prices_")
    try:
        with multiprocessing.Pool(6, initializer=install) as p:
            parts = p.map(_file_worker, [(todo[i::12], scratch, SEED * 100 + i) for i in range(12)], chunksize=1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    recs, info = [], {}
    for i, part in enumerate(parts):
        for c, rs in zip(todo[i::12], part):
            for r in rs:
                r["id"] = "p%d" % len(recs)
                recs.append({k: v for k, v in r.items() if k != "why"})
                info[r["id"]] = (c, r)
                chk.count("price files: " + c["kind"])
                chk.count("traders made of prices", sum(map(len, r["cats"])))
    for m, j in jobs:
        chk.model("MC_Deal", j.get(), dict(zip(("prices", "half counts", "multiples"), m)))
    ver, st, di = tla.judge("Trace_Stock", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            chk.violation(f, {"files": c, "recorded": full}, "%s -> %s" % (c, full))
        chk.sample(c, cap=3)
    return chk.finish(assumptions=["prices are whole multiples of 1/8, so that no rounding enters"])
