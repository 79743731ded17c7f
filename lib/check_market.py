"""C12 (optimal trade of a market)."""
import multiprocessing, random
import single, tla
from check_base import Check, SEED, THOROUGH
from check_single import sp, tla_spaces
from target import M, call

QUICK = [sp([1, 1], -2, 2, [3, 3], 1), sp([1, 2], -2, 1, [2, 4], 1), sp([2, 1, 1], -1, 1, [3, 2, 1], 1), sp([2], -2, 2, [5], 1),
         sp([1, 0, 2], -1, 1, [2, 1, 4], 1)]
DEEP = [sp([1, 1], -3, 3, [4, 4], 1), sp([1, 2], -3, 2, [3, 5], 1), sp([2, 3], -2, 2, [4, 6], 1), sp([1, 1, 1], -2, 2, [3, 2, 2], 1),
        sp([2, 1, 1], -2, 1, [4, 2, 2], 1), sp([3], -3, 3, [7], 1), sp([1, 0, 2], -2, 2, [2, 2, 4], 1), sp([1, 1, 1, 1], -1, 1, [2, 2, 2, 2], 1)]


def compute(values, rec, zero, limit, style=0, scale=0):
    obs = compute1(single.scaled(values, scale) if scale else values, rec, zero, limit, style)
    if scale and obs["st"] == "ok":       # in the units of values again
        s, o = call(lambda: dict(obs, **{f: single.scaled(obs[f], -scale) for f in ("deals", "gft", "rem")}))
        obs = o if s == "ok" else {"st": "garbled", "why": o}
    return obs


def compute1(values, rec, zero, limit, style=0):
    """One computation of the optimal trade -> observed numbers. style: how the options are passed."""
    A, Mk = M.agents.AgentCategory, M.markets.Market
    m = Mk([A("c%d" % i, list(v)) for i, v in enumerate(values)])
    kw = {}
    if not zero or style == 1:
        kw["include_zero_gft_ps"] = zero
    if limit < 1000 or style == 1:
        kw["max_iterations"] = limit
    if style == 2:
        s, r = call(m.optimal_trade, rec, limit, zero)
    else:
        s, r = call(m.optimal_trade, rec, **kw)
    if s != "ok":
        return {"st": s, "why": r}
    def read():
        trade, rest = r
        return {"st": "ok", "deals": [list(d) for d in trade.procurement_sets], "k": trade.num_of_deals(), "gft": trade.gain_from_trade(),
                "rem": [list(c.values) for c in rest.categories], "text": repr(trade)}
    s, o = call(read)
    return o if s == "ok" else {"st": s, "why": o}


def encode(cid, values, rec, zero, limit, obs):
    u = single.unit_for(values, rec, "asc")
    if u is None:
        return None
    u = single.lcm([single.Fraction(x).denominator for v in values for x in v] or [1])
    e = lambda x: single.enc(x, u)[0]
    r = {"id": cid, "mkt": [sorted((e(x) for x in v), reverse=True) for v in values], "rec": list(rec), "zero": zero, "limit": limit,
         "heavy": sum(len(v) for v in values) > 500, "st": obs["st"], "deals": [], "rem": [], "k": 0, "gft": 0}
    if obs["st"] != "ok":
        return r
    try:
        n = sum(len(v) for v in values)
        if sum(len(d) for d in obs["deals"]) > 2 * n + 10 or len(obs["deals"]) > n + 5 or sum(len(c) for c in obs["rem"]) > 2 * n + 10:
            raise ValueError
        r["deals"] = [[e(x) for x in d] for d in obs["deals"]]
        r["rem"] = [sorted([e(x) for x in c], reverse=True) for c in obs["rem"]]
        r["k"] = int(obs["k"])
        x = float(obs["gft"]) * u
        r["gft"] = round(x) if single.finite(x) and abs(x) < 10 ** 9 and abs(x - round(x)) < 1e-6 else 10 ** 9
    except (TypeError, ValueError):
        r["st"] = "garbled"
    return r


def _replay(cases):
    diff, n = [], 0
    for c in cases:
        obs = compute(c["mkt"], list(c["rec"]), c["zero"], c["limit"], n % 3)
        n += 1
        o = c["out"]
        if not (obs["st"] == "ok" and obs["k"] == len(o["deals"]) and sorted(obs["deals"]) == sorted(o["deals"]) and obs["rem"] == o["rem"]
                and obs["gft"] == o["gain"] and all(sum(a) <= sum(b) for a, b in zip(obs["deals"], obs["deals"][1:]))):
            diff.append((c, obs))
            if len(diff) > 60 or obs["st"] == "hang":
                break
    return diff, n


def collect(pid, chk, n_random, deep=False, models=True):
    rng = random.Random("%s/opt/%d" % (pid, SEED))
    jobs = []
    if models:
        jobs = [(s, tla.Job("MC_Opt", "MC_Opt", defs={"SpacesDef": tla_spaces(s)}, timeout=3000, heap="4g")) for s in (DEEP if deep else QUICK)]
    recs, info = [], {}

    def add(values, rec, zero, limit, obs):
        cid = "o%d" % len(recs)
        r = encode(cid, values, rec, zero, limit, obs)
        if r is not None:
            recs.append(r)
            info[cid] = {"values": values, "rec": list(rec), "zero": zero, "limit": limit, "got": obs}
    hangs = 0
    cases = [(c["values"], c["rec"]) for c in single.special_cases("asc")]
    for _ in range(n_random):
        rec = single.gen_recipe(rng, "asc")
        cases.append((single.gen_values(rng, rec), rec))
    for values, rec in cases:
        zero, limit = rng.random() < .6, rng.choice([1000, 1000, 1000, 0, 1, 1, 2, 3, 5])
        if sum(len(v) for v in values) > 500:
            limit = 1000000
        obs = compute(values, tuple(rec) if rng.random() < .2 else rec, zero, limit, 0 if limit > 1000 else rng.randrange(3), rng.choice([0] * 9 + [-17, -30]))
        chk.count("optimal trades computed")
        if obs["st"] == "ok" and obs["k"]:
            chk.count("optimal trades with deals")
        if obs["st"] == "ok" and any(sum(d) == 0 for d in obs["deals"]):
            chk.count("optimal trades with deals of zero gain")
        add(values, rec, zero, limit, obs)
        hangs += obs["st"] == "hang"
        if hangs > 2:
            break
    for s, j in jobs:
        r = j.get()
        chk.model("MC_Opt", r, s)
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay, [r.cases[i::8] for i in range(8)]):
                chk.validated += n
                chk.count("computations of the specification replayed", n)
                for c, obs in diff[:40]:
                    add(c["mkt"], c["rec"], c["zero"], c["limit"], obs)
    ver, st, di = tla.judge("Trace_Opt", recs, shards=6, timeout=3000)
    chk.traces(len(recs), st, di)
    return [(info[r["id"]], r, ver[r["id"]]) for r in recs]


def report(chk, pid, judged):
    for c, r, v in judged:
        for f in v["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"market": c["values"], "recipe": c["rec"], "zero": c["zero"], "limit": c["limit"], "got": c["got"],
                                  "specified": v["want"]}, "%s %s zero=%s limit=%s -> %s" % (c["values"], c["rec"], c["zero"], c["limit"], c["got"]))
        if r["st"] == "ok" and r["k"] > 1:
            chk.sample({"market": c["values"], "recipe": c["rec"], "zero": c["zero"], "limit": c["limit"], "trade": c["got"].get("text")})


def run12(pid):
    chk = Check(pid)
    judged = collect(pid, chk, 6000 if THOROUGH else 700, deep=THOROUGH)
    report(chk, pid, judged)
    return chk.finish(assumptions=["the recipe has at least one positive count", "values are whole or binary fractions, so that sums are exact"])
