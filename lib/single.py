"""The mechanisms with one recipe: McAfee ("mc"), trade reduction ("tr"), ascending prices ("asc").
Runs of the implementation are encoded in integers and judged by Trace_{Mc,Tr,Asc}.tla;
the behaviours TLC enumerates from MC_{Mc,Tr,Asc}.tla are replayed into the implementation."""
import math, multiprocessing, random
from fractions import Fraction
import target
from target import M, call, finite
from check_base import SEED, THOROUGH

MOD = {"asc": "Asc", "tr": "Tr", "mc": "Mc"}
EXACT = {"asc": "C11", "tr": "C10", "mc": "C09"}
CLAMP = 50_000_000
LIMIT = 400_000_000


def lcm(xs):
    r = 1
    for x in xs:
        if x:
            r = r * x // math.gcd(r, x)
    return r


def run_impl(kind, values, rec, opt, names=None, **kw):
    """One run through the public interface. values are as the user gives them (any order)."""
    A, Mk = M.agents.AgentCategory, M.markets.Market
    names = names or (["buyer", "seller", "mediator", "broker", "carrier", "insurer"] + ["agent%d" % i for i in range(6, len(values))])[:len(values)]
    market = Mk([A(n, list(v)) for n, v in zip(names, values)])
    return run_on(kind, market, rec, opt, **kw)


def run_on(kind, market, rec, opt, **kw):
    if kind == "asc":
        return call(M.ascending_auction_protocol.budget_balanced_ascending_auction, market, rec, **kw)
    if kind == "tr":
        if opt is not True:
            kw = dict(kw, including_gft_0=opt)
        return call(M.trade_reduction_protocol.budget_balanced_trade_reduction, market, rec, **kw)
    if opt is not True:
        kw = dict(kw, price_heuristic=opt)
    return call(M.mcafee_protocol.mcafee_trade_reduction, market, rec, **kw)


def observe(status, trade):
    """The observable outcome of a run, as plain Python numbers."""
    if status != "ok":
        return {"st": status, "why": trade}
    def read():
        deals = trade.num_of_deals()
        return {"st": "ok", "deals": deals,
                "cats": [list(c.values) for c in trade.categories],
                "prices": list(trade.prices) if deals else [0] * len(trade.categories),   # without deals prices mean nothing
                "gft": trade.gain_from_trade(), "gftm": trade.gain_from_trade(including_auctioneer=False),
                "text": repr(trade)}
    s, o = call(read)
    return o if s == "ok" else {"st": s, "why": o}


def unit_for(values, rec, kind):
    """The integer unit: fine enough for every value and every price the mechanism can set."""
    flat = [abs(Fraction(x)) for v in values for x in v]
    if any(f.denominator > 1024 for f in flat):      # decimals
        flat = [f.limit_denominator(1000) for f in flat]
    den = lcm([f.denominator for f in flat] or [1])
    u = den * (len(rec) if kind == "mc" else lcm([r for r in rec if r > 0]))
    tot, big = sum(flat), max(flat, default=0)
    big *= max(1, sum(rec))          # a price that balances the others can be that large
    if u * tot > LIMIT or u * big > CLAMP:
        return None
    for k in (840, 120, 12, 4):
        if u * k * tot <= LIMIT and u * k * big <= CLAMP // 4:
            return u * k
    return u


def enc(x, u, slack=0.0):
    """-> (integer in unit 1/u, exact?)"""
    if x is None or isinstance(x, (str, list, tuple)) or not finite(x):
        return CLAMP, False
    y = float(x) * u
    if abs(y) > CLAMP:
        return (CLAMP if y > 0 else -CLAMP), False
    r = round(y)
    return r, abs(y - r) <= 1e-6 * max(1.0, abs(y) * 1e-6) + slack


def encode(cid, kind, values, rec, opt, obs):
    u = unit_for(values, rec, kind)
    if u is None:
        return None
    r = {"id": cid, "mkt": [sorted((enc(x, u)[0] for x in v), reverse=True) for v in values],
         "rec": list(rec), "opt": bool(opt), "st": obs["st"], "deals": 0, "cats": [], "prices": [], "grid": True,
         "gft": 0, "gftm": 0, "gtol": 2}
    if sum(len(v) for v in values) > 500:
        r["heavy"] = True
    if obs["st"] != "ok":
        return r
    n = sum(len(v) for v in values)
    try:
        if sum(len(c) for c in obs["cats"]) > 2 * n + 10 or not 0 <= obs["deals"] <= n or obs["deals"] != int(obs["deals"]):
            raise ValueError
        # clocks that start at -1e8 leave rounding errors of about 1e-8 on values that binary fractions cannot represent
        slack = min(.2, 1e-7 * u) if any(Fraction(x).denominator > 1024 for v in values for x in v) else 0.0
        r["deals"] = int(obs["deals"])
        r["cats"] = [[enc(x, u)[0] for x in c] for c in obs["cats"]]
        for i, p in enumerate(obs["prices"]):
            v, g = enc(p, u, slack)
            r["prices"].append(v)
            if obs["deals"] > 0 and i < len(rec) and rec[i] > 0:
                r["grid"] = r["grid"] and g
        if obs["deals"] == 0:
            r["prices"] = [0] * len(obs["prices"])
        for k in ("gft", "gftm"):
            v = float(obs[k]) * u
            r[k] = int(max(-10 ** 9, min(10 ** 9, round(v)))) if finite(v) else 10 ** 9
        if obs["deals"] > 0:    # gftm of a run with absurd prices must stay within 32 bits
            if abs(sum(c * p for c, p in zip(rec, r["prices"]))) * obs["deals"] > 1_000_000_000:
                r["gftm"], r["gtol"] = -10 ** 9, 0
    except (TypeError, ValueError):
        r["st"], r["cats"], r["prices"] = "garbled", [], []
    return r


# ---------------------------------------------------------------- random markets
def gen_recipe(rng, kind, ones=False):
    if kind == "mc":
        return [1] * rng.choice([2] * 12 + [3, 3, 3, 4, 4, 5, 7, 9, 12])
    n = rng.choice([2] * 12 + [3] * 8 + [4] * 4 + [5] * 3 + [6, 6, 8, 8, 10, 12])
    style = rng.random()
    if style < .05 and n < 4 and not ones:      # a big party on one side
        return [rng.choice([1, 1, 2, 3, 6, 7, 9, 10, 11, 12, 16, 20]) for _ in range(n)]
    if ones or style < .35:
        return [1] * n
    if style < .8:
        return [rng.choice([1, 1, 2, 2, 3, 4, 5, 8] if n < 4 else [1, 1, 2, 2, 3, 4]) for _ in range(n)]
    if style < .97:
        r = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
        if not any(r):
            r[rng.randrange(n)] = rng.choice([1, 2])
        return r
    return [rng.choice([1, 2, 3])]


def decimal_residues(rng, recipes):
    """Hundredths modulo 16 per category such that no deal of any of the recipes has a gain of exactly zero, no two halves are equal:
    on decimal values (which floating point cannot represent) the outcome then does not hang on the rounding of a tie."""
    n = len(recipes[0])
    for _ in range(200):
        r = [rng.randrange(16) for _ in range(n)]
        if len(set(r)) == n and all(sum(a * b for a, b in zip(rec, r)) % 16 for rec in recipes):
            return r
    return [1] * n if all(sum(rec) % 16 for rec in recipes) else None


def balanced(rng, rec, size=None):
    """Many deals gain exactly nothing: most traders of a category have one value, and these values balance."""
    base = [0] + [-rec[0] * rng.randint(0, 30) for _ in rec[1:]]
    base[0] = -sum(b * r for b, r in zip(base, rec)) // rec[0]
    k = size or rng.choice([2, 3, 5, 9, 16, 30])
    cats = [[b + rng.choice([0] * 12 + [1, -1, 2, 7]) for _ in range(min(70, k * max(1, r) + rng.choice([0, 0, 0, 1, 3])))] for b, r in zip(base, rec)]
    for c in cats:
        rng.shuffle(c)
    return cats


def giant(rng, rec, distinct=False):
    """Few traders with values of millions, many of them equal or next to each other."""
    top = CLAMP // (sum(rec) + 1) // max(1, lcm([r for r in rec if r > 0]))
    cats = []
    for i, r in enumerate(rec):
        pool = [rng.randint(top // 8, top // 2) * (1 if i else 2) for _ in range(3)]
        pool += [x + rng.choice([-1, 1]) for x in pool]
        k = min(6, max(1, r) * rng.choice([1, 2, 2, 3]) + rng.choice([0, 0, 1, 2]))
        v = [rng.choice(pool) * (-1 if i else 1) for _ in range(k)]
        cats.append(list(dict.fromkeys(v)) if distinct else v)
    return cats


def gen_values(rng, rec, distinct=False, size=None, decimals=0):
    n = len(rec)
    if not distinct and rec[0] > 0 and rng.random() < .05:
        return balanced(rng, rec, size)
    if not size and sum(rec) <= 6 and rng.random() < .05:
        return giant(rng, rec, distinct)
    style = rng.choice(["ties", "small", "medium", "medium", "float", "large", "close", "huge"] + ["decimal"] * decimals)
    if distinct and style in ("ties", "small"):
        style = "medium"
    span = {"ties": 4, "small": 12, "medium": 1000, "float": 60, "large": 100000, "close": 1000, "huge": 2000000, "decimal": 300}[style]
    res = decimal_residues(rng, [rec])
    sides = rng.choice(["two", "two", "two", "one", "mixed", "mixed", "allpos"])
    buyers = set(range(n)) if sides == "allpos" else {rng.randrange(n)} if sides in ("two", "one") else None
    cats = []
    base = size or rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20] * 6 + [60, 110])
    for i in range(n):
        k = max(0, base * max(1, rec[i]) + rng.choice([-2, -1, 0, 0, 0, 1, 2, 5]))
        if rng.random() < .03:
            k = 0
        k = min(k, (45 if rec[i] < 9 else 70) if base < 50 else 160)
        scale = 1
        if sides in ("two", "one") and i in buyers:
            scale = max(1, sum(rec) // max(1, rec[i]))
        vals = []
        used = set()
        for _ in range(k):
            for _t in range(50):
                if style == "close":
                    x = rng.randint(450, 550)
                elif style == "float":
                    x = rng.randint(0, span * 8) / 8
                elif style == "decimal" and res:
                    x = rng.randint(1, span) * (scale if rng.random() < .9 else 1)
                    x = x if (i in buyers if buyers is not None else rng.random() < .5) else -x
                    x = (16 * x + res[i]) / 100
                    break
                else:
                    x = rng.randint(0 if style in ("ties", "small") else 1, span)
                x = x * scale if scale > 1 and rng.random() < .9 else x
                if buyers is not None:
                    x = x if i in buyers else -x
                elif rng.random() < (.5 if i else .3):
                    x = -x
                if not distinct or x not in used:
                    break
            used.add(x)
            vals.append(x)
        if rng.random() < .1 and not distinct:
            vals = [float(x) for x in vals]
        if distinct:
            vals = list(dict.fromkeys(vals))
        rng.shuffle(vals)
        cats.append(vals)
    return cats


NAMINGS = [None, None, None, lambda n: ["agent"] * n, lambda n: [str(i) for i in range(n)]]


def room(top):
    """The largest exponent of a scale that keeps every value and price below the library's bound of 1e8."""
    return int(math.floor(math.log2(90_000_000 / max(top, 1))))


def gen_case(rng, kind):
    rec = gen_recipe(rng, kind)
    values = gen_values(rng, rec, decimals=1)
    opt = True if kind == "asc" else rng.random() < .6
    nm = rng.choice(NAMINGS)
    as_tuple = rng.random() < .2
    case = {"kind": kind, "values": values, "rec": rec, "opt": opt, "names": nm(len(rec)) if nm else None, "tuple": as_tuple}
    if rng.random() < .15 and all(x == int(x) for v in values for x in v):
        top = max([abs(x) for v in values for x in v] or [0]) * max(1, sum(rec))
        case["scale"] = rng.choice([-17, -17, -20, -3, 4, room(top), room(top), room(top)]) if top < 1000000 else -17
        if kind == "asc" and case["scale"] == -20:
            case["scale"] = -17
    if kind == "asc" and rng.random() < .1:
        case["iters"] = rng.choice([0, 1, 2, 5])     # bounds the optimal trade which is only logged
    return case


def special_cases(kind):
    """Unusual but legal markets: sizes and shapes that random choice rarely meets."""
    out = []
    def add(values, rec, opt=True):
        out.append({"kind": kind, "values": values, "rec": rec, "opt": opt, "names": None, "tuple": False})
    for opt in ((True, False) if kind != "asc" else (True,)):
        add([[], []], [1, 1], opt)
        add([[5], []], [1, 1], opt)
        add([[5, 4, 3], [-3, -4, -5]], [1, 1], opt)
        add([[5] * 6, [-5] * 6], [1, 1], opt)
        add([[0] * 3, [0] * 3], [1, 1], opt)
        add([[9, 8, 0], [0, -1, -9]], [1, 1], opt)
        add([list(range(1, 41)), [-x for x in range(1, 41)]], [1, 1], opt)
        add([list(range(100, 160)), [-x for x in range(20, 80)]], [1, 1], opt)
        add([[1000000, 999999, 5], [-1, -2, -999998]], [1, 1], opt)
        add([[9, 8, 7], [-1, -2, -3], [-1, -2, -3]], [1, 1, 1], opt)
        add([[9, 8, 7], [6, 5, 4]], [1, 1], opt)
        add([[-9, -8, -7], [-6, -5, -4]], [1, 1], opt)
        add([[20, 18, 16, 14], [-1, -2], [-2, -3, -4, -5, -6], [-1, -1, -1, -7]], [1, 1, 1, 1], opt)
        if kind != "mc":
            add([[17, 14, 13, 9, 6], [-1, -2, -3, -4, -5, -7, -8, -10, -11]], [1, 2], opt)
            add([[20, 18, 16, 9, 2, 1], [-2, -4, -6, -8, -10, -12, -14]], [3, 2], opt)
            add([[9, 8, 7], [], [-1, -2, -3]], [1, 0, 1], opt)
            add([[9, 8, 7], [-1, -2, -3], []], [1, 1, 0], opt)
            add([[3, 2, 1, -1, -2]], [1], opt)
            add([[3, 2, 1, -1, -2]], [2], opt)
            add([[], [3, 2, 1, -1, -2, -3], []], [0, 2, 0], opt)
            add([[100, 99, 98, 97, 96, 95, 94], [-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, -13]], [2, 5], opt)
            add([[100] * 4, [-10] * 30], [1, 7], opt)
            add([[7, 7, 7, 7], [-3, -3, -3, -4, -4, -4], [-1] * 12], [1, 1, 3], opt)
    out += large_cases(kind)
    return out


def large_cases(kind):
    """Thousands of traders: more rounds than any fixed limit, buffer or recursion depth a change might introduce."""
    out = []
    rng = random.Random("large/%s/%d" % (kind, SEED))
    sizes = {"asc": [1180, 2350], "mc": [1180, 2350], "tr": [1130]}[kind]
    if THOROUGH:
        sizes = {"asc": [1180, 5200, 10400], "mc": [1180, 5200, 10400], "tr": [1130, 2350, 4200]}[kind]
    for n in sizes:
        extra = rng.randint(3, 40)
        for rec in ([[1, 1]] if n > 1200 else [[1, 1], [1, 1, 1]] if kind == "mc" else [[1, 1], [1, 2]]):
            if n > 1200 and not THOROUGH and kind == "tr":
                continue
            vals = [[rng.randint(4000, 9000) for _ in range(n + extra)]]
            vals += [[-rng.randint(1, 1000) for _ in range(n * r)] for r in rec[1:]]
            if rng.random() < .5:                     # a few bad deals at the end of the market
                vals[0][:extra] = [rng.randint(1, 50) for _ in range(extra)]
            out.append({"kind": kind, "values": vals, "rec": rec, "opt": True, "names": None, "tuple": False})
    return out


def scaled(x, k):
    """A number, or nested lists of numbers, times 2^k (exact: nothing is rounded)."""
    if isinstance(x, (list, tuple)):
        return [scaled(y, k) for y in x]
    return math.ldexp(x, k) if not isinstance(x, (str, bool, type(None))) and finite(x) else x


def execute(c):
    rec = tuple(c["rec"]) if c.get("tuple") else list(c["rec"])
    k = c.get("scale", 0)
    obs = observe(*run_impl(c["kind"], scaled(c["values"], k) if k else c["values"], rec, c["opt"], names=c.get("names"), **({"max_iterations": c["iters"]} if "iters" in c else {})))
    if k and obs["st"] == "ok":      # the outcome, in the units of c["values"]
        s, o = call(lambda: dict(obs, **{f: scaled(obs[f], -k) for f in ("cats", "prices", "gft", "gftm")}))
        obs = o if s == "ok" else {"st": "garbled", "why": o}
    return obs


def _replay_chunk(args):
    kind, cases = args
    out = []
    nh = 0
    for c in cases:
        if nh >= 3:
            break
        u = c.get("unit", 1)
        values = [[x / u if x % u else x // u for x in v] for v in c["mkt"]]
        obs = observe(*run_impl(kind, values, list(c["rec"]), c["opt"]))
        nh += obs["st"] == "hang"
        out.append((c, values, obs, same(c, obs, u)))
    return [(c, v, o) for c, v, o, s in out if not s], len(out)


def same(c, obs, u):
    """Does the implementation do what the specification's behaviour did? (Any doubt goes to the trace checker.)"""
    if obs["st"] != "ok" or obs["deals"] != c["out"]["deals"]:
        return False
    want = c["out"]
    if len(obs["cats"]) != len(c["rec"]) or len(obs["prices"]) != len(c["rec"]):
        return False
    if want["deals"] == 0:
        return obs["gft"] == 0 and obs["gftm"] == 0
    tot = pay = 0
    for i, r in enumerate(c["rec"]):
        if r:
            if sorted((x * u for x in obs["cats"][i]), reverse=True) != want["cats"][i]:
                return False
            if abs(float(obs["prices"][i]) * u - want["prices"][i]) > 1e-6:
                return False
            tot += Fraction(sum(want["cats"][i]) * want["deals"] * r, len(want["cats"][i]))
            pay += want["deals"] * r * want["prices"][i]
    return abs(obs["gft"] * u - tot) < 1e-6 and abs(obs["gftm"] * u - (tot - pay)) < 1e-6


def replay(kind, cases, procs=4):
    """Run the specification's behaviours on the implementation -> (those that differ, number run)."""
    chunks = [(kind, cases[i::procs * 2]) for i in range(procs * 2)]
    with multiprocessing.Pool(procs) as p:
        res = p.map(_replay_chunk, [c for c in chunks if c[1]])
    diff = [x for r in res for x in r[0]]
    return diff, sum(r[1] for r in res)
