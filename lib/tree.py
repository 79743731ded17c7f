"""Recipe trees: RecipeTree data ("paths", "cut", "deals", "optimum", "derived") and the two recipe-tree auctions
("tree": recipetree.py/prices.py, all counts 1; "int": the integer variants, with counts)."""
import math, re
from fractions import Fraction
import single
import target
from target import M, call, finite

B8 = 100_000_000
PROTOCOL = {"tree": "ascending_auction_recipetree_protocol", "int": "ascending_auction_recipetree_integer_protocol"}
RTREE = {"tree": "recipetree", "int": "recipetree_integer"}
PRICES = {"tree": "prices", "int": "prices_integer"}


# ---------------------------------------------------------------- shapes
def nested(par, cat):
    """Preorder parent array (1-based, 0 = root's) and categories (1-based) -> the nested list the library takes."""
    def kids(v):
        out = []
        for u in range(1, len(par) + 1):
            if par[u - 1] == v:
                k = kids(u)
                out += [cat[u - 1] - 1, k if k else None]
        return out
    return kids(0)


def flat(struct):
    """The nested list of a legal tree -> (par, cat) in preorder."""
    par, cat = [], []
    def go(lst, p):
        for i in range(0, len(lst), 2):
            cat.append(lst[i] + 1)
            par.append(p)
            me = len(cat)
            if lst[i + 1] is not None:
                go(lst[i + 1], me)
    go(struct, 0)
    return par, cat


def spec_tree(struct, counts=None):
    par, cat = flat(struct)
    return {"cat": cat, "par": par, "w": [counts[c - 1] if counts else 1 for c in cat]}


def paths(t):
    out = []
    for v in range(1, len(t["cat"]) + 1):
        if v not in t["par"]:
            p, x = [], v
            while x:
                p.append(x)
                x = t["par"][x - 1]
            out.append(p[::-1])
    return out


def recipes(t, ncat):
    out = []
    for p in paths(t):
        r = [0] * ncat
        for v in p:
            r[t["cat"][v - 1] - 1] = t["w"][v - 1]
        out.append(r)
    return out


def gen_par(rng, n):
    style = rng.choice(["any", "any", "any", "chain", "star", "caterpillar"])
    par = [0]
    for k in range(2, n + 1):
        chain, x = [], k - 1
        while x:
            chain.append(x)
            x = par[x - 1]
        if style == "chain":
            p = k - 1
        elif style == "star":
            p = 1
        elif style == "caterpillar":
            p = k - 1 if k % 2 == 0 else chain[min(1, len(chain) - 1)]
        else:
            p = rng.choice(chain)
        par.append(p)
    return par


def gen_tree(rng, kind, maxn=7, spare=True):
    n = rng.choice([1] * 2 + [2] * 4 + [3] * 8 + [4] * 8 + [5] * 6 + [6, 6, 7, 8, 10, 13])
    n = n if n <= maxn or maxn >= 7 else maxn
    par = gen_par(rng, n)
    ncat = n + (rng.choice([0, 0, 0, 1, 2]) if spare else 0)
    cats = list(range(1, n + 1)) if rng.random() < .5 else rng.sample(range(1, ncat + 1), n)
    struct = nested(par, cats)
    counts = None
    if kind == "int" and rng.random() < .85:
        pool = rng.choice([[1, 1, 2], [1, 2, 3], [1, 1, 1, 2], [2, 4], [1, 2, 4], [1, 2, 3, 4, 5], [1, 6, 7, 10]])
        counts = [rng.choice(pool) for _ in range(ncat)]
    return struct, counts, ncat


def gen_shared_tree(rng, kind):
    """A tree in which a category may occur in several branches (but once on a path)."""
    n = rng.choice([3, 4, 5, 6, 7, 8, 11])
    par = gen_par(rng, n)
    ncat = rng.randint(max(2, n // 2), n)
    cats = []
    for v in range(1, n + 1):
        above, x = {cats[y - 1] for y in range(1, v) if par[y - 1] == par[v - 1]}, par[v - 1]
        while x:
            above.add(cats[x - 1])
            x = par[x - 1]
        free = [c for c in range(1, ncat + 2 + len(above)) if c not in above]
        cats.append(rng.choice(free[:ncat]))
    ncat = max(cats)
    counts = [rng.choice([1, 1, 2, 3]) for _ in range(ncat)] if kind == "int" and rng.random() < .8 else None
    return nested(par, cats), counts, ncat


def gen_values(rng, struct, counts, ncat, distinct=False, maxsize=14, decimals=0, crowds=False):
    t = spec_tree(struct, counts)
    style = rng.choice(["ties", "small", "medium", "medium", "float", "large", "close"] + ["decimal"] * decimals)
    res = single.decimal_residues(rng, recipes(t, ncat))
    if distinct and style in ("ties", "small"):
        style = "medium"
    span = {"ties": 4, "small": 12, "medium": 900, "float": 60, "large": 20000, "close": 500, "decimal": 60}[style]
    sides = rng.choice(["two", "two", "two", "two", "mixed", "allpos", "leafbuyers"])
    base = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8] * 2 + [12, 22])
    maxsize = maxsize if base < 10 or maxsize < 14 else 30
    if crowds and ncat <= 5 and rng.random() < .04:
        base, maxsize = rng.choice([(34, 60), (34, 60), (50, 130), (90, 200)])
    depth = max(len(p) for p in paths(t))
    vals = []
    leaves = {t["cat"][p[-1] - 1] for p in paths(t)}
    root = t["cat"][0]
    for c in range(1, ncat + 1):
        w = counts[c - 1] if counts else 1
        k = max(0, base * w + rng.choice([-2, -1, 0, 0, 0, 1, 2]))
        if c == root and rng.random() < .4:
            k += base
        if rng.random() < .05:
            k = 0
        k = min(k, maxsize)
        pos = {"two": c == root, "leafbuyers": c in leaves and c != root, "allpos": True, "mixed": None}[sides]
        out, used = [], set()
        for _ in range(k):
            for _t in range(60):
                x = rng.randint(int(span * .9), int(span * 1.1)) if style == "close" else \
                    rng.randint(0, span * 8) / 8 if style == "float" else rng.randint(0 if style in ("ties", "small") else 1, span)
                if pos and rng.random() < .9:
                    x *= rng.choice([1, depth - 1 or 1, depth])
                if pos is False or (pos is None and rng.random() < .5):
                    x = -x
                if style == "decimal" and res:
                    x = (16 * int(x) + res[c - 1]) / 100
                if not distinct or x not in used:
                    break
            else:
                continue
            used.add(x)
            out.append(x)
        rng.shuffle(out)
        vals.append(out)
    return vals


def special_cases(kind):
    out = []
    def add(struct, values, counts=None):
        if kind == "int" or not counts:
            out.append({"struct": struct, "values": values, "counts": counts})
    add([0, None], [[3, 2, -1]])
    add([0, None], [[]])
    add([0, [1, None]], [[], []])
    add([0, [1, None]], [[5, 4], []])
    add([0, [1, None]], [[9, 8, 7], [-1, -2, -3]])
    add([1, [0, None]], [[-1, -2, -3], [9, 8, 7]])
    add([0, [1, None, 2, None]], [[9, 8, 7], [], [-1, -2, -3]])
    add([0, [1, None, 2, [3, None]]], [[27, 21, 17, 11, 3], [-4, -5, -11], [-2, -3, -11], [-1, -2, -8]])
    add([0, [1, [2, None, 3, None], 4, [5, None]]], [[456], [-70, -54], [], [], [299.5, -26, -106], [-80, -8]])
    add([0, [1, [2, None, 3, None], 4, [5, None, 6, None]]], [[20, 19, 18, 17, 16], [-1, -2], [-1, -3], [-2, -2], [-3, -1, -1], [-1, -2], [-5]])
    add([0, [1, [2, [3, [4, None]]]]], [[90, 80, 70], [-1, -2, -3], [-4, -5, -6], [-1, -1, -1], [-2, -3, -4]])
    add([0, [1, None, 2, None, 3, None, 4, None]], [[9] * 8, [-1, -2], [-1, -2], [-3, -8], [-2, -9]])
    add([0, [1, None]], [[5] * 6, [-5] * 6])
    add([0, [1, None]], [[0] * 3, [0] * 3])
    add([0, [1, None]], [[17, 14, 13, 9, 6], [-1, -2, -3, -4, -5, -7, -8, -10, -11]], [1, 2])
    add([0, [1, None, 2, [3, None]]], [[27, 21, 17, 11, 3], [-4, -5, -11, -12], [-2, -3, -11], [-1, -2, -8, -9]], [1, 2, 1, 2])
    add([0, [1, None, 2, None]], [[40, 30, 20, 10], [-1, -2, -3, -4, -5], [-2, -3, -4]], [2, 3, 1])
    add([2, [0, None, 1, None]], [[-1, -2, -3], [-2, -3], [40, 30, 20, 10, 5]], [2, 1, 4])
    add([3, [0, None, 1, [2, None]]], [[-1, -2, -3], [-2, -3], [-1, -4], [40, 30, 20, 10, 5]], [2, 1, 1, 1])
    add([0, [1, [2, None, 3, None]]], [[50, 40, 30], [-1, -1, -2, -3], [-1, -5, -6], [-2, -2, -7, -9]], [1, 1, 2, 2])
    add([0, [1, [2, None, 3, None], 4, None]], [[50, 40, 30, 30, 20], [-1, -1, -2, -3], [-1, -5, -6], [-2, -2, -7, -9], [-11, -12, -13]], [1, 2, 1, 3, 2])
    return out


# ---------------------------------------------------------------- auctions
def make_market(values, names=None):
    A, Mk = M.agents.AgentCategory, M.markets.Market
    names = names or ["c%d" % i for i in range(len(values))]
    return Mk([A(n, list(v)) for n, v in zip(names, values)])


def run_on(kind, market, struct, counts=None):
    f = getattr(M, PROTOCOL[kind]).budget_balanced_ascending_auction
    if kind == "int" and counts is not None:
        return call(f, market, struct, counts)
    return call(f, market, struct)


def observe(status, trade):
    if status != "ok":
        return {"st": status, "why": trade}
    def read():
        deals = trade.num_of_deals()
        opt = trade.optimal_trade()
        return {"st": "ok", "deals": deals, "gft": trade.gain_from_trade(), "kmin": trade.min_num_of_deals(), "kmax": trade.max_num_of_deals(),
                "cats": [list(c.values) for c in trade.categories], "prices": list(trade.prices), "text": repr(trade),
                "optk": opt[1], "optgft": opt[2]}
    s, o = call(read)
    return o if s == "ok" else {"st": s, "why": o}


def execute(kind, case):
    """One auction; with a scale, on values times 2^scale (its outcome in the units of case["values"], but for the prices)."""
    k = case.get("scale", 0)
    v = single.scaled(case["values"], k) if k else case["values"]
    obs = observe(*run_on(kind, make_market(v, case.get("names")), case["struct"], case.get("counts")))
    if k and obs["st"] == "ok":
        s, o = call(lambda: dict(obs, **{f: single.scaled(obs[f], -k) for f in ("cats", "gft", "optgft")}))
        obs = o if s == "ok" else {"st": "garbled", "why": o}
    return obs


def start_prices(kind, struct, counts, ncat):
    """The library's start prices for this tree (None where they cannot be had)."""
    t = spec_tree(struct, counts)
    s, r = call(lambda: list(getattr(M, PRICES[kind]).SimultaneousAscendingPriceVectors(recipes(t, ncat), -B8).map_category_index_to_price()))
    return r if s == "ok" and len(r) == ncat and all(finite(x) and abs(x) < 1e11 for x in r) else None


_starts = {}


def start_for(kind, struct, counts, ncat):
    key = repr((kind, struct, counts, ncat))
    if key not in _starts:
        _starts[key] = start_prices(kind, struct, counts, ncat)
    return _starts[key]


def weighted(p, w, u, big, clamp, k=0):
    """A price -> its weighted, mapped integer m*big + s, and whether it lies on the integer grid."""
    if p is None or not finite(p):
        return clamp, False
    x = float(p) * w
    m = round(x / B8)
    if abs(m) > 60:
        return (clamp if m > 0 else -clamp), False
    s = math.ldexp(x - m * B8, -k) * u
    if abs(s) > 1e12:
        return (clamp if s > 0 else -clamp), False
    r = round(s)
    ok = abs(s - r) <= 2e-3
    if abs(r) > big // 2:
        return (clamp if r > 0 else -clamp), False
    return max(-clamp, min(clamp, m * big + r)), ok


def canonical(t, big):
    def pw(v):
        s = 0
        while v:
            s += t["w"][v - 1]
            v = t["par"][v - 1]
        return s
    n = len(t["cat"])
    top = max(pw(v) for v in range(1, n + 1))
    return [-big * ((top - pw(v) + t["w"][v - 1]) if v not in t["par"] else t["w"][v - 1]) for v in range(1, n + 1)]


def encode(cid, kind, case, obs):
    struct, counts, values, scale = case["struct"], case.get("counts"), case["values"], case.get("scale", 0)
    t = spec_tree(struct, counts)
    n = len(t["cat"])
    fl = [Fraction(x).limit_denominator(1000) if isinstance(x, float) else Fraction(x) for v in values for x in v]
    u = single.lcm([f.denominator for f in fl] or [1])
    top = max([abs(x) for x in fl], default=0) * u * max(t["w"])
    big = 64 * n * (int(top) + 1)
    path = max(sum(t["w"][v - 1] for v in p) for p in paths(t))
    room = 1_800_000_000 // max(2, max(len(p) for p in paths(t)))      # the clocks of a path can be summed
    if big * (path + 2) > room or sum(abs(x) for x in fl) * u > 400_000_000:
        return None
    clamp = min(room, max(60_000_000, big * (path + 2)))
    st = start_for(kind, struct, counts, len(values))
    if st is None:
        start = canonical(t, big)
        startok = False
    else:
        start = [weighted(st[c - 1], w, u, big, big * (path + 2))[0] for c, w in zip(t["cat"], t["w"])]
        startok = True
    pow2 = all(w & (w - 1) == 0 for w in t["w"]) and all(f.denominator & (f.denominator - 1) == 0 for f in fl)
    r = {"id": cid, "tree": t, "mkt": [sorted((int(round(Fraction(x).limit_denominator(1000) * u)) for x in v), reverse=True) for v in values],
         "start": start, "big": big, "st": obs["st"], "deals": 0, "cats": [], "q": [], "grid": True, "fragile": not pow2,
         "gft": 0, "gtol": 0 if pow2 else 1, "optk": 0, "optgft": 0}
    if not startok and obs["st"] == "ok":
        r["st"] = "nostart"
    if r["st"] != "ok":
        return r
    try:
        tot = sum(len(v) for v in values)
        if sum(len(c) for c in obs["cats"]) > tot + 5 or not 0 <= obs["deals"] <= tot or int(obs["deals"]) != obs["deals"] or int(obs["optk"]) != obs["optk"]:
            raise ValueError
        r["deals"] = int(obs["deals"])
        r["cats"] = [[single.enc(x, u)[0] for x in c] for c in obs["cats"]]
        for c, w in zip(t["cat"], t["w"]):
            q, ok = weighted(obs["prices"][c - 1], w, u, big, clamp, scale)
            r["q"].append(q)
            r["grid"] = r["grid"] and (ok or r["deals"] == 0)
        for k in ("gft", "optgft"):
            x = float(obs[k]) * u
            r[k] = int(max(-10 ** 9, min(10 ** 9, round(x)))) if finite(x) else 10 ** 9
            if pow2 and abs(x - r[k]) > 1e-6:
                r[k] = 10 ** 9
        r["optk"] = int(min(10 ** 6, obs["optk"]))
    except (TypeError, ValueError, IndexError):
        r["st"] = "garbled"
    return r


def same(c, obs, kind, struct, counts):
    """Does the implementation end as the behaviour c of the specification did? (Doubt goes to the trace specification.)"""
    o = c["out"]
    if obs["st"] != "ok" or obs["deals"] != o["deals"] or obs["gft"] != o["gft"]:
        return False
    t = c["tree"]
    for v, (cat, w) in enumerate(zip(t["cat"], t["w"])):
        if sorted(obs["cats"][cat - 1], reverse=True) != o["cats"][cat - 1]:
            return False
        if o["deals"] > 0:
            m = round(o["q"][v] / c["big"])
            if abs(obs["prices"][cat - 1] * w - (m * B8 + o["q"][v] - m * c["big"])) > 1e-5:
                return False
    return True


# ---------------------------------------------------------------- data of a tree
LINE = re.compile(r"^(.*?): (?:(\d+) potential deals, price=(.*)|all (\d+) (?:traders|deals) selected(?:, price=(.*))?|(\d+) out of (\d+) (?:traders|deals) selected(?:, price=(.*))?)$")


def parse_explanation(text, names, prices):
    """-> (lines as records, overall number of deals or -1)"""
    idx = {n: i + 1 for i, n in enumerate(names)}
    shown = {str(p): p for p in prices}
    lines, overall = [], -1
    for l in text.strip().split("\n"):
        m = re.match(r"^(\d+) deals overall$", l)
        if m:
            overall = int(m.group(1))
            continue
        m = LINE.match(l)
        if not m:
            lines.append({"what": "unreadable", "node": [], "sel": 0, "of": 0, "price": 0})
            continue
        who, pot, pp, al, ap, sel, of, op = m.groups()
        nodes = [idx.get(x, 0) for x in who.split(" + ")]
        price = pp or ap or op
        pr = shown.get(price, -999999) if price is not None else 0
        if pot is not None:
            lines.append({"what": "leaf", "node": nodes, "sel": int(pot), "of": int(pot), "price": pr})
        else:
            a, b = (int(al), int(al)) if al is not None else (int(sel), int(of))
            lines.append({"what": "node" if price is not None else "kids", "node": nodes, "sel": a, "of": b, "price": pr})
    return lines, overall


def malform(rng, struct):
    """A description in which some list has odd length (a category without its children entry)."""
    import copy
    s = copy.deepcopy(struct)
    lists = []
    def go(l):
        lists.append(l)
        for x in l[1::2]:
            if x is not None:
                go(x)
    go(s)
    l = rng.choice(lists)
    if rng.random() < .6:
        l.pop()
    else:
        l.append(max(y for y in l[0::2]))
    return s


def build(kind, categories, struct, counts):
    R = (target.load_file("recipetree.old.py") if kind == "old" else getattr(M, RTREE[kind])).RecipeTree
    return R(categories, struct, counts) if kind == "int" and counts is not None else R(categories, struct)


def as_deal(x):
    return [x] if not isinstance(x, (list, tuple)) else list(x)


def read_data(topic, kind, case, names=None):
    """One observation of RecipeTree (or tree_calculations), as a record for Trace_TreeData (values must be whole numbers)."""
    struct, counts, values = case["struct"], case.get("counts"), case["values"]
    n = len(values)
    names = names or ["c%d" % i for i in range(n)]
    t = spec_tree(struct, counts)
    A = M.agents.AgentCategory
    rec = {"topic": topic, "tree": t, "ncat": n, "mkt": [sorted(v, reverse=True) for v in values], "sizes": [len(v) for v in values],
           "skipzero": kind == "int"}

    def go():
        cats = list(names) if case.get("plain") else [A(x, list(v)) for x, v in zip(names, values)]
        if topic == "derived":
            TC = M.tree_calculations
            d, i = TC.get_depth_and_agents_size(struct)
            return {"depth": d, "index": i, "children": list(TC.get_children_counts(struct, [1] * n)),
                    "counts": list(TC.get_agents_analyze(struct))}
        if topic == "malformed":
            build(kind, cats, case["bad"], counts)
            return {}
        before = case.get("before")
        if before:          # [traders who leave, traders who come] of each category after the first questions
            for c, v, (more, fewer) in zip(cats, values, before):
                c.values = sorted(v, reverse=True)[:max(0, len(v) - fewer)] if fewer else sorted(v + [min(v, default=0) - 1 - i for i in range(more)], reverse=True)
        tree = build(kind, cats, struct, counts)
        if before:
            for q in ("num_of_deals", "largest_categories", "combined_values", "optimal_trade", "optimal_trade_GFT", "optimal_trade_with_counters"):
                if kind != "old" or hasattr(tree, q) and (q != "optimal_trade" or struct[1] is not None):
                    getattr(tree, q)()
            tree.largest_categories(indices=True), tree.num_of_deals_explained([0] * n)
            for c, v, (more, fewer) in zip(cats, values, before):
                if fewer:
                    c.append(sorted(v, reverse=True)[max(0, len(v) - fewer):])
                else:
                    for _ in range(more):
                        c.remove_lowest_agent()
        if topic == "paths":
            pos = {x: i + 1 for i, x in enumerate(names)}
            return {"paths": [[i + 1 for i in p] for p in tree.paths_to_leaf(indices=True)],
                    "names": [[pos[x] for x in p] for p in tree.paths_to_leaf()],
                    "recipes": [list(r) for r in tree.recipes()]}
        if topic == "archive":
            pos = {x: i + 1 for i, x in enumerate(names)}
            prices = case["prices"]
            e = tree.num_of_deals_explained(list(prices))
            lines, overall = parse_explanation(e[1], names, prices)
            large, comb, cut = tree.largest_categories(indices=True)
            asked = struct[1] is not None
            ds, k, g = tree.optimal_trade() if asked else ([], 0, 0)
            return {"paths": [[i + 1 for i in p] for p in tree.paths_to_leaf(indices=True)],
                    "names": [[pos[x] for x in p] for p in tree.paths_to_leaf()],
                    "recipes": [list(r) for r in tree.recipes()],
                    "cut": [i + 1 for i in cut], "cutnames": [pos[x] for x in tree.largest_categories()[-1]], "largest": large, "combined": comb,
                    "deals": tree.num_of_deals(), "edeals": e[0], "lines": lines, "overall": overall, "prices": list(prices),
                    "values": tree.combined_values(), "gftonly": tree.optimal_trade_GFT(), "asked": int(asked),
                    "listed": [as_deal(d) for d in ds], "k": k, "gft": g}
        if topic == "cut":
            pos = {x: i + 1 for i, x in enumerate(names)}
            return {"cut": [i + 1 for i in tree.largest_categories(indices=True)[-1]],
                    "cutnames": [pos[x] for x in tree.largest_categories()[-1]]}
        if topic == "deals":
            prices = case["prices"]
            e = tree.num_of_deals_explained(list(prices))
            lines, overall = parse_explanation(e[1], names, prices)
            return {"deals": tree.num_of_deals(), "edeals": e[0], "lines": lines, "overall": overall, "kmin": e[2], "kmax": e[3],
                    "prices": list(prices)}
        if topic == "optimum":
            ds, k, g = tree.optimal_trade()
            g2 = tree.optimal_trade_GFT()
            comb = [sum(as_deal(x)) for x in tree.combined_values()]
            cl, ck, cg, kmin, kmax = tree.optimal_trade_with_counters()
            return {"listed": [as_deal(d) for d in ds], "k": k, "gft": g, "gftonly": g2, "combined": comb,
                    "clisted": [sum(as_deal(x[0])) for x in cl], "ck": ck, "cgft": cg, "ckmin": kmin, "ckmax": kmax}
        raise KeyError(topic)
    s, o = call(go)
    rec["st"] = s
    if s == "ok":
        try:
            rec.update(clean(o))
        except (TypeError, ValueError):
            rec["st"] = "garbled"
    else:
        rec["why"] = o
    if topic == "optimum":
        L = len(paths(t))
        rec["cost"] = min(10 ** 6, (len(values[t["cat"][0] - 1]) + 1) ** max(1, L - 1))
    return rec


def clean(x):
    """Whole numbers only (a float that is whole becomes an int)."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, str):
        return x
    if x is None or not finite(x) or int(x) != x or abs(x) > 10 ** 9:
        raise ValueError(x)
    return int(x)
