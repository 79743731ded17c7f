"""C15: what a trade says about itself (number of deals, gains, description)."""
import ast, math, multiprocessing, random, re
import check_single, single, tla
from check_base import Check, SEED, THOROUGH
from target import M, call, finite

BIG = 10 ** 9
U = 8
LINE = re.compile(r"^(.*?): (\[.*\]): (?:all (\d+) agents trade and pay (.*)|random (\d+) out of (\d+) agents trade and pay (.*))$")


def num(x, k=1):
    """x * 8 * k as an integer (garbage where it is none)."""
    if x is None or not finite(x) or abs(x) * U * k > BIG:
        return BIG
    y = x * U * k
    return round(y) if abs(y - round(y)) < 1e-4 else BIG


def describe(text):
    if text == "No trade":
        return []
    out = []
    for l in text.split("\n"):
        m = LINE.match(l)
        if not m:
            return [{"values": [], "all": False, "sel": -1, "of": -1, "price": 0}]
        name, vals, al, p1, sel, of, p2 = m.groups()
        out.append({"values": [num(x) for x in ast.literal_eval(vals)], "all": al is not None, "sel": int(al or sel), "of": int(al or of),
                    "price": num(float(p1 or p2))})
    return out


def lcm_of(cats, rec):
    return single.lcm([len(c) for c, r in zip(cats, rec) if r and c] or [1])


def observe(cats, rec, prices, names=None):
    A = M.agents.AgentCategory
    L = lcm_of(cats, rec)
    names = names or ["c%d" % i for i in range(len(cats))]

    def go():
        t = M.trade.TradeWithSinglePrice([A(n, list(c)) for n, c in zip(names, cats)], rec, prices)
        first = repr(t)
        o = {"k": t.num_of_deals(), "gdefault": num(t.gain_from_trade(), L), "total": num(t.gain_from_trade(including_auctioneer=True), L),
             "market": num(t.gain_from_trade(including_auctioneer=False), L), "lines": describe(repr(t)), "text": first}
        if repr(t) != first or t.num_of_deals() != o["k"]:
            o["k"] = -1
        return o
    s, o = call(go)
    return dict(o, st="ok") if s == "ok" else {"st": s, "why": o}


def record(cid, cats, rec, prices, obs):
    """prices of categories without traders in the recipe may be absent"""
    r = {"id": cid, "kind": "single", "cats": [sorted((num(x) for x in c), reverse=True) for c in cats], "rec": list(rec),
         "prices": [num(p) if p is not None else 0 for p in prices], "tol": 1, "st": obs["st"], "k": 0, "total": 0, "market": 0, "gdefault": 0, "lines": []}
    if obs["st"] == "ok":
        for k in ("total", "market", "gdefault", "lines"):
            r[k] = obs[k]
        r["k"] = obs["k"] if obs["k"] == int(obs["k"]) else -1
    return r


def observe_list(cid, deals):
    r = {"id": cid, "kind": "list", "deals": [[num(x) for x in d] for d in deals], "k": 0, "gft": 0, "said": 0, "shown": [], "st": "ok"}

    def go():
        t = M.trade.TradeWithMaterialBalance([tuple(d) for d in deals])
        m = re.match(r"^(\d+) deals: (\[.*\])$", repr(t))
        return {"k": t.num_of_deals(), "gft": num(t.gain_from_trade()), "said": int(m.group(1)) if m else -1,
                "shown": [[num(x) for x in d] for d in ast.literal_eval(m.group(2))] if m else []}
    s, o = call(go)
    if s != "ok":
        r["st"] = s
    else:
        r.update(o)
    return r


def gen(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    rec = [rng.choice([0, 1, 1, 1, 2, 2, 3]) for _ in range(n)]
    if not any(rec):
        rec[rng.randrange(n)] = rng.choice([1, 2])
    top = rng.choice([3, 50, 400])
    frac = rng.random() < .3
    num_ = lambda a, b: rng.randint(a * 8, b * 8) / 8 if frac else rng.randint(a, b)
    m = rng.choice([0, 1, 1, 2, 2, 3, 4])
    cats = []
    for r in rec:
        k = max(0, m * r + rng.choice([0, 0, 0, 1, 2, 3])) if rng.random() < .9 else rng.randint(0, 8)
        cats.append([num_(-top, top) for _ in range(min(k, 9 if len(rec) < 4 else 6))])
    prices = [num_(-top, top) if r or rng.random() < .5 else None for r in rec]
    if rng.random() < .3 and sum(rec) > 1:       # balanced prices
        i = rng.choice([i for i, r in enumerate(rec) if r])
        rest = sum(r * p for j, (r, p) in enumerate(zip(rec, prices)) if j != i and r)
        if (rest * 8) % rec[i] == 0:
            prices[i] = -rest / rec[i] if frac else -(rest // rec[i]) if rest % rec[i] == 0 else -rest / rec[i]
    return cats, tuple(rec) if rng.random() < .3 else rec, prices


def gen_large(rng):
    """Many traders per deal, many deals."""
    while True:
        n = rng.choice([1, 2, 2, 3])
        rec = [rng.choice([0, 1, 1, 2, 5, 7, 12, rng.randint(3, 60), 49]) for _ in range(n)]
        m = rng.choice([1, 1, 2, 3, 4, 8, 40])
        size = [m * r + rng.choice([0, 0, 0, 1, r - 1, r // 2]) if r else rng.choice([0, 1, 7]) for r in rec]
        if any(rec) and sum(size) < 260 and min(size) >= 0 and single.lcm([k for k, r in zip(size, rec) if r and k] or [1]) <= 400:
            return [[rng.randint(-50, 50) for _ in range(k)] for k in size], rec, [rng.randint(-50, 50) for _ in rec]


def special():
    return [([[], []], [1, 1], [0, 0]), ([[5], []], [1, 1], [3, -3]), ([[], [3, 2]], [0, 1], [None, 1]), ([[], [3, 2]], [0, 2], [5, 1]),
            ([[7, 4, 3, 2], [-1, -3, -5]], [1, 1], [1, -1]), ([[7, 4, 3, 2], [-1, -3, -5]], [2, 3], [1, -1]), ([[7, 4, 3, 2], [-1, -3]], [3, 1], [2, -6]),
            ([[0, 0], [0, 0]], [1, 1], [0, 0]), ([[4]], [1], [0]), ([[4, 3, 2]], [2], [1]), ([[9, 8, 7, 6, 5], [-1] * 7, [-2] * 3], [2, 3, 1], [4, -2, -2]),
            ([[9, 8], [-1, -2], [-5, -6, -7]], [1, 1, 0], [6, -6, -100])]


def _replay(cases):
    diff, n = [], 0
    for c in cases:
        u = c["unit"]
        nat = lambda x: x / u if x % u else x // u
        cats, prices = [[nat(x) for x in k] for k in c["cats"]], [nat(p) for p in c["prices"]]
        o = observe(cats, list(c["rec"]), prices)
        n += 1
        if not (o["st"] == "ok" and o["k"] == c["k"] and (o["total"], o["gdefault"], o["market"]) == (c["total"] * 8 // u, c["total"] * 8 // u, c["market"] * 8 // u)
                and [(l["sel"], l["of"], l["all"], l["price"], l["values"]) for l in o["lines"]]
                == [(l["sel"], l["of"], l["all"], l["price"] * 8 // u, [x * 8 // u for x in l["values"]]) for l in c["lines"]]):
            diff.append((cats, list(c["rec"]), prices, o))
            if len(diff) > 60:
                break
    return diff, n


def sp(rec, lo, hi, n, prices):
    return {"rec": rec, "vals": (lo, hi), "n": n, "prices": prices, "unit": 1}


QUICK = [sp([1, 1], -2, 2, [3, 2], (-1, 1)), sp([1, 2], -1, 1, [3, 4], (-1, 1)), sp([2, 0, 1], -1, 1, [3, 1, 2], (0, 1)), sp([3], -2, 2, [5], (-1, 1))]
DEEP = [sp([1, 1], -3, 3, [4, 3], (-1, 1)), sp([1, 2], -2, 2, [3, 5], (-1, 1)), sp([2, 3], -2, 2, [4, 4], (-1, 1)), sp([2, 0, 1], -2, 1, [4, 1, 3], (-1, 1)),
        sp([1, 1, 1], -1, 2, [2, 3, 2], (-1, 1)), sp([3], -3, 3, [7], (-2, 2))]


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(s, tla.Job("MC_Trades", "MC_Trades", defs={"SpacesDef": "TLA:{[rec |-> %s, vals |-> (%d)..%d, unit |-> 1, n |-> %s, prices |-> (%d)..%d]}" % (
        tla.tla(s["rec"]), *s["vals"], tla.tla(s["n"]), *s["prices"])}, timeout=3000, heap="4g")) for s in (DEEP if THOROUGH else QUICK)]
    recs, info = [], {}

    def add(cats, rec, prices, obs):
        cid = "t%d" % len(recs)
        recs.append(record(cid, cats, rec, prices, obs))
        info[cid] = {"categories": cats, "recipe": list(rec), "prices": prices, "got": obs}
    cases = special() + [gen(rng) for _ in range(8000 if THOROUGH else 900)] + [gen_large(rng) for _ in range(900 if THOROUGH else 90)]
    for cats, rec, prices in cases:
        obs = observe(cats, rec, prices, ["x: y"] * len(cats) if rng.random() < .05 else None)
        add(cats, rec, prices, obs)
        chk.count("trades with a price per category")
        if obs["st"] == "ok" and obs["k"]:
            chk.count("of these with deals")
    for i in range(800 if THOROUGH else 150):
        deals = [[rng.randint(-400, 400) / 8 if rng.random() < .3 else rng.randint(-50, 50) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([0, 1, 2, 5, 9]))]
        r = observe_list("l%d" % i, deals)
        recs.append(r)
        info[r["id"]] = {"deals": deals, "got": r}
        chk.count("plain lists of deals")
    for s, j in jobs:
        r = j.get()
        chk.model("MC_Trades", r, s)
        for c in r.cases:
            c["unit"] = s["unit"]
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay, [r.cases[i::8] for i in range(8)]):
                chk.validated += n
                chk.count("trades of the specification replayed", n)
                for d in diff[:40]:
                    add(*d)
    ver, st, di = tla.judge("Trace_Trades", recs, shards=6, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        for f in ver[r["id"]]["fails"]:
            chk.violation(f, dict(info[r["id"]], specified=ver[r["id"]]["want"]), str(info[r["id"]]))
        if r["st"] == "ok" and r["k"] > 1:
            chk.sample(info[r["id"]], cap=3)
    # the trades that the auctions return
    judged = check_single.collect(pid, chk, ["asc", "tr", "mc"], 1500 if THOROUGH else 240, "quick", models=False)
    check_single.report(chk, pid, judged)
    return chk.finish(assumptions=["values and prices are multiples of 1/8 of moderate size"])
