"""C37: the unit of money does not matter."""
import math, multiprocessing, random
from fractions import Fraction
import single, tla, tree
import check_history as H
from check_base import Check, SEED, THOROUGH
from check_single import sp as ssp
from check_tree import T, space_def, struct_of, sp as tsp
from check_truth import tla_space
from target import call, finite

MECHS = list(H.SINGLE) + list(H.OPT) + list(H.AUCTION) + list(H.DATA)
FAR = 1e6       # clocks that never left their start are no prices


def u(rec, lo, hi, n, unit):
    return ssp(rec, lo, hi, n, unit)


SPACES = {"Asc": ("asc", [u([1, 1], -2, 2, [2, 2], 1), u([1, 2], -2, 2, [2, 3], 2), u([1, 1, 1], -1, 2, [2, 1, 1], 1)]),
          "Mc": ("mc", [u([1, 1], -3, 3, [2, 3], 2)]),
          "Tr": ("tr", [u([1, 1], -2, 2, [2, 2], 1), u([1, 1, 1], -1, 2, [2, 1, 1], 1)]),
          "Opt": ("opt", [u([1, 1], -2, 2, [2, 2], 1), u([2, 1], -2, 2, [3, 2], 1)])}
DEEP = {"Asc": ("asc", [u([1, 1], -3, 3, [3, 3], 1), u([1, 2], -2, 2, [2, 4], 2), u([2, 3], -2, 2, [3, 4], 6), u([1, 1, 1], -2, 2, [2, 2, 1], 1)]),
        "Mc": ("mc", [u([1, 1], -4, 4, [3, 3], 2), u([1, 1, 1], -2, 2, [2, 2, 2], 3)]),
        "Tr": ("tr", [u([1, 1], -3, 3, [3, 3], 1), u([1, 1, 1], -2, 2, [2, 2, 1], 1), u([1, 2], -2, 2, [2, 3], 2)]),
        "Opt": ("opt", [u([1, 1], -3, 3, [3, 3], 1), u([2, 1, 1], -2, 2, [3, 2, 2], 1)])}
TREES = [("tree", tsp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -2, 2, [2, 1, 1])), ("int", tsp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -2, 2, [1, 2, 1]))]
TREES_DEEP = [("tree", tsp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -2, 2, [2, 2, 2])), ("tree", tsp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -2, 2, [2, 1, 1, 1])),
              ("int", tsp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -2, 2, [2, 3, 2]))]


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def split(mech, o):
    """An answer -> (numbers that are no money, amounts, positions of amounts that are clocks)"""
    if mech in H.OPT:
        return [o["k"], len(o["deals"])] + [len(c) for c in o["rem"]], list(flat(o["deals"])) + [o["gft"]] + list(flat(o["rem"])), []
    if mech in H.DATA:
        return [o["k"], len(o["deals"]), o["n"], o["ck"], o["ck1"], o["ck2"], -1] + list(flat([o["cut"], -2, o["paths"], -3, o["recipes"]])), \
            list(flat(o["deals"])) + [o["gft"], o["gft2"], o["cg"]], []
    cats = [sorted(c, reverse=True) for c in o["cats"]]
    money = list(flat(cats)) + [o["gft"]] + ([o["gftm"]] if "gftm" in o else [])
    clocks = list(o["prices"]) if o["deals"] else []
    return [o["deals"]] + [len(c) for c in cats] + [len(clocks)], money + clocks, list(range(len(money), len(money) + len(clocks)))


def times(values, f):
    def one(x):
        y = Fraction(x) * f
        return int(y) if y.denominator == 1 else float(y)
    return [[one(x) for x in c] for c in values]


def answer(mech, values, arg):
    names = ["x%d" % i for i in range(len(values))]
    s, _, o, _ = H.ask(mech, H.build(values, names), arg)
    return o if s == "ok" else {"st": s}


def record(cid, mech, values, arg, f, base=None):
    """values: integers, or binary fractions; f: the factor (power of two, or whole when the values are)"""
    a, b = base or answer(mech, values, arg), answer(mech, times(values, f), arg)
    rec = {"id": cid, "st": a["st"], "dst": b["st"], "counts": [], "dcounts": [], "money": [], "dmoney": [], "slack": 3}
    if a["st"] != "ok" or b["st"] != "ok":
        return rec, a, b
    def read():
        ca, ma, ka = split(mech, a)
        cb, mb, kb = split(mech, b)
        big = max([abs(x) for i, x in enumerate(ma) if finite(x) and i not in ka] + [1])
        unit = 1
        while unit < 1728 and big * unit * 12 < 5e8:
            unit *= 12
        fl = float(f)
        def enc(x, g):
            return max(-10 ** 9, min(10 ** 9, round(float(x) / g * unit))) if x is not None and finite(x) else 10 ** 9 + 7
        rec["counts"], rec["dcounts"] = [int(x) for x in ca], [int(x) for x in cb]
        skip = {i for i in ka if ma[i] is None or not finite(ma[i]) or abs(ma[i]) > FAR} if ca == cb else set()
        rec["money"] = [enc(x, 1) for i, x in enumerate(ma) if i not in skip]
        rec["dmoney"] = [enc(x, fl) for i, x in enumerate(mb) if i not in skip]
    s, why = call(read)
    if s != "ok":
        rec["dst"] = "garbled"
    return rec, a, b


def factors(values, weight):
    """Factors that keep every sum below the documented largest value, and exact."""
    big = max([abs(x) for c in values for x in c] + [1]) * weight
    whole = all(Fraction(x).denominator == 1 for c in values for x in c)
    up = [Fraction(2) ** k for k in range(1, 25) if big * 2 ** k < 4e7]
    down = [Fraction(2) ** -k for k in (1, 2, 3, 5, 8, 10, 12, 14, 16)]      # at -1e8 floats are 2^-26 apart
    odd = [Fraction(k) for k in (3, 7, 10, 100, 1000, 10000, 25000) if whole and big * k < 4e7]
    return [x for x in (up[-1:] + up[len(up) // 2:len(up) // 2 + 1] + up[:1]) if x] + odd[-1:], down, odd


def gen(rng):
    while True:
        mech = rng.choice(MECHS)
        if mech in H.SINGLE or mech in H.OPT:
            kind = H.SINGLE[mech][0] if mech in H.SINGLE else "tr"
            arg = list(single.gen_recipe(rng, kind))
            if max(arg) > 8 or len(arg) > 6:
                continue
            values, weight = single.gen_values(rng, arg), sum(arg) + 1
        else:
            kind = H.AUCTION.get(mech) or H.DATA[mech]
            n = rng.choice([1, 2, 3, 3, 4, 5, 6])
            par = tree.gen_par(rng, n)
            counts = [rng.choice([1, 1, 2, 4]) for _ in range(n)]
            arg = list(par) + (counts if mech in ("int", "rti") else [1] * n)
            struct, cn = H.args_of(mech, arg)
            values, weight = tree.gen_values(rng, struct, cn, n), sum(counts) + 1
        den = single.lcm([Fraction(x).denominator for c in values for x in c] or [1])
        if den > 64 or not any(values) or sum(map(len, values)) > 150:
            continue
        values = [[int(Fraction(x) * den) for x in c] for c in values]
        if max(abs(x) for c in values for x in c) * weight > 1_000_000:
            continue
        return mech, values, arg, weight


def work(args):
    seed, n = args
    rng = random.Random(seed)
    out, hangs = [], 0
    for i in range(n):
        mech, values, arg, weight = gen(rng)
        up, down, odd = factors(values, weight)
        base = answer(mech, values, arg)
        hangs += base["st"] == "hang"
        for f in {rng.choice(up or down), rng.choice(down), rng.choice(odd or down)}:
            r, a, b = record("%s-%d-%s" % (seed.split("/")[-1], i, f), mech, values, arg, f, base)
            hangs += b["st"] == "hang"
            out.append((r, mech, values, arg, str(f), a, b))
        if hangs > 2:
            break
    return out


def replay(args):
    kind, unit, cases = args
    diff, n = [], 0
    for c in cases:
        for f in (Fraction(1), Fraction(c["fac"]), Fraction(1, 1 << 12), Fraction(c["fac"] * 1000)):
            n += 1
            if kind in ("tree", "int"):
                t = c["tree"]
                counts = [1] * len(c["mkt"])
                for x, w in zip(t["cat"], t["w"]):
                    counts[x - 1] = w
                par = [0] * len(c["mkt"])
                for x, p in zip(t["cat"], t["par"]):
                    par[x - 1] = t["cat"][p - 1] if p else 0
                arg, mech, mkt = par + counts, kind, c["mkt"]
                o = answer(mech, times(mkt, f), arg)
                w = c["out"]
                ok = o["st"] == "ok" and o["deals"] == w["deals"] and [sorted(x, reverse=True) for x in o["cats"]] == times(w["cats"], f) and abs(o["gft"] - w["gft"] * f) < 1e-9
            elif kind == "opt":
                arg, mech, mkt = list(c["rec"]), "opt" if c["zero"] else "opt0", times(c["mkt"], Fraction(1, unit))
                o = answer(mech, times(mkt, f), arg)
                w = c["out"]
                g = f / unit
                ok = o["st"] == "ok" and [list(d) for d in o["deals"]] == times(w["deals"], g) and o["gft"] == w["gain"] * g and o["rem"] == times(w["rem"], g)
            else:
                arg, mech, mkt = list(c["rec"]), kind if c["opt"] else kind + "0", times(c["mkt"], Fraction(1, unit))
                o = answer(mech, times(mkt, f), arg)
                ok = single.same({"out": c["out"], "rec": c["rec"]}, o, Fraction(unit) / f)
            if not ok:
                diff.append((mech, mkt, arg, str(f)))
        if len(diff) > 40:
            break
    return diff, n


def run(pid):
    chk = Check(pid)
    fs = {2, 3, 10} if THOROUGH else {3}
    jobs = [(k, s, "MC_Units" + m, tla.Job("MC_Units" + m, "MC_Units" + m, defs={"SpacesDef": tla_space(dict(s, side=[0] * len(s["rec"]))), "FactorsDef": fs}, workers=2, timeout=3000, heap="5g"))
            for m, (k, ss) in (DEEP if THOROUGH else SPACES).items() for s in ss]
    jobs += [(k, s, "MC_UnitsTree", tla.Job("MC_UnitsTree", "MC_UnitsTree", defs={"SpacesDef": space_def(k, s), "FactorsDef": fs}, workers=2, timeout=3000, heap="5g"))
             for k, s in (TREES_DEEP if THOROUGH else TREES)]
    recs, info = [], {}

    def add(r, *what):
        r["id"] = "u%d" % len(recs)
        recs.append(r)
        info[r["id"]] = dict(zip(("mechanism", "market", "argument", "factor", "answer", "answer in the other unit"), what))
    with multiprocessing.Pool(6) as p:
        for out in p.map(work, [("%s/%d/%d" % (pid, SEED, i), 2400 if THOROUGH else 300) for i in range(12)], chunksize=1):
            for x in out:
                add(*x)
                chk.count("%s pairs" % x[1])
    for k, s, m, j in jobs:
        r = j.get()
        chk.model(m, r, s)
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(replay, [(k, s.get("unit", 1), r.cases[i::8]) for i in range(8)]):
                chk.validated += n
                chk.count("%s behaviours of the specification replayed in several units" % k, n)
                for mech, mkt, arg, f in diff[:20]:
                    f = Fraction(f)
                    q, a, b = record("", mech, mkt, arg, f)
                    add(q, mech, mkt, arg, str(f), a, b)
    ver, st, di = tla.judge("Trace_Units", recs, shards=6, timeout=3000)
    chk.traces(2 * len(recs), st, di)
    for r in recs:
        i = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            chk.violation(f, i, "%s %s %s times %s" % (i["mechanism"], i["market"], i["argument"], i["factor"]))
        if r["st"] == "ok":
            chk.sample({k: i[k] for k in ("mechanism", "market", "argument", "factor")}, cap=3)
    return chk.finish(assumptions=["values, times their number in a deal, stay well below the largest value the library documents (1e8); factors that keep them exact in binary"])
