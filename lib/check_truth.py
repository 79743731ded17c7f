"""C04 (ascending auction) and C05 (trade reduction, McAfee): no trader gains by a false report."""
import random
import time
import multiprocessing
from fractions import Fraction
import single, tla
from check_base import Check, SEED, THOROUGH
from check_single import sp

KINDS = {"C04": ["asc"], "C05": ["tr", "mc"]}


def ts(rec, lo, hi, n, unit, side):
    return dict(sp(rec, lo, hi, n, unit), side=side)


QUICK = {"asc": [ts([1, 1], -3, 3, [2, 2], 2, [0, 0]), ts([1, 2], -2, 2, [2, 3], 4, [0, 0]), ts([1, 1, 1], -1, 2, [2, 1, 1], 2, [0, 0, 0])],
         "tr": [ts([1, 1], -2, 2, [2, 2], 2, [0, 0]), ts([1, 1, 1], -1, 2, [2, 1, 1], 2, [0, 0, 0])],
         "mc": [ts([1, 1], -4, 4, [3, 3], 4, [1, -1])]}
DEEP = {"asc": [ts([1, 1], -3, 3, [3, 3], 2, [0, 0]), ts([1, 2], -2, 3, [2, 4], 4, [0, 0]), ts([2, 3], -2, 2, [3, 4], 12, [0, 0]),
                ts([1, 1, 1], -2, 2, [2, 2, 1], 2, [0, 0, 0]), ts([1, 2, 1], -1, 2, [2, 2, 2], 4, [0, 0, 0])],
        "tr": [ts([1, 1], -3, 3, [3, 3], 2, [0, 0]), ts([1, 1, 1], -2, 2, [2, 2, 1], 2, [0, 0, 0]), ts([1, 0, 1], -2, 2, [2, 1, 2], 2, [0, 0, 0])],
        "mc": [ts([1, 1], -6, 6, [4, 4], 4, [1, -1])]}


def tla_space(s):
    lo, hi = s["vals"][1:].split("..")
    return "TLA:{[rec |-> %s, vals |-> (%s)..%s, unit |-> %d, n |-> %s, side |-> %s]}" % (
        tla.tla(s["rec"]), lo, hi, s["unit"], tla.tla(s["n"]), tla.tla(s["side"]))


def swap(values, c, v, r):
    out = [list(x) for x in values]
    out[c][out[c].index(v)] = r
    return out


def outcome(obs, u):
    if obs["st"] != "ok":
        return None
    try:
        cats = [[single.enc(x, u)[0] for x in c] for c in obs["cats"]]
        pr = [single.enc(p, u) for p in obs["prices"]]
    except TypeError:
        return None
    return {"deals": int(obs["deals"]), "cats": cats, "prices": [p for p, _ in pr] if obs["deals"] else [0] * len(pr)}, \
        all(g for _, g in pr) or not obs["deals"]


def pair(cid, pid, values, rec, cat, v, r, base, dev):
    flat = [Fraction(x) for c in values for x in c] + [Fraction(r)]
    u = single.lcm([x.denominator for x in flat]) * single.lcm([c for c in rec if c]) * 2
    if max(abs(x) for x in flat) * u > 400_000:
        return None
    b, d = outcome(base, u), outcome(dev, u)
    ok = b is not None and d is not None
    rc = {"id": cid, "pid": pid, "rec": list(rec), "cat": cat + 1, "val": int(v * u), "rep": int(r * u), "st": "ok" if ok else "err",
          "slack": 0, "base": b[0] if ok else {}, "dev": d[0] if ok else {}}
    if ok:
        if not (b[1] and d[1]):
            rc["slack"] = 1
        for o in (rc["base"], rc["dev"]):
            o["prices"] = [max(-2_000_000, min(2_000_000, p)) for p in o["prices"]]
    return rc


def gen(rng, kind, pid):
    while True:
        rec = [1, 1] if kind == "mc" else single.gen_recipe(rng, kind, ones=(kind == "tr"))
        if kind == "tr" and rng.random() < .1:
            rec = rec + [0]
        n = len(rec)
        top = rng.choice([12, 60, 600, 2000])
        den = rng.choice([1, 1, 1, 4])
        values = []
        hib = rng.randrange(n) if kind != "mc" else rng.randrange(2)
        mixed = kind != "mc" and rng.random() < .3
        for i in range(n):
            k = min(10, max(0, rng.choice([1, 2, 2, 3, 3, 4, 5]) * max(1, rec[i]) + rng.choice([-1, 0, 0, 1])))
            s = rng.sample(range(1, top * den + 1), min(k, top * den))
            scale = 1 if i != hib else max(1, sum(rec) - 1)
            s = [Fraction(x * scale, den) * (1 if i == hib else -1) for x in s]
            if mixed:
                s = [x - top // 3 for x in s] if i == hib else [x + top // 3 for x in s]
            values.append([int(x) if x.denominator == 1 else float(x) for x in s])
        if any(values):
            return values, rec, (True if kind == "asc" else rng.random() < .6)


def deviations(rng, values, rec, base, limit):
    rel = [i for i in range(len(rec)) if rec[i] > 0 and values[i]]
    out = []
    eps = Fraction(1, 8)
    for _ in range(limit * 4):
        if len(out) >= limit or not rel:
            break
        c = rng.choice(rel)
        v = rng.choice(values[c])
        pts = [Fraction(x) for x in values[c]] + [-Fraction(x) for i in rel if i != c for x in values[i][:4]]
        if base["st"] == "ok" and base["deals"] and single.finite(base["prices"][c]) and abs(base["prices"][c]) < 1e5:
            pts += [Fraction(round(float(base["prices"][c]) * 8), 8)] * 3
        pts += [Fraction(max(values[c])) + 5, Fraction(min(values[c])) - 5]
        r = rng.choice(pts) + rng.choice([-1, 1]) * eps * rng.choice([1, 1, 3, 4, 12])
        r = int(r) if r.denominator == 1 else float(r)
        if r in values[c]:
            continue
        out.append((c, v, r))
    return out


def _replay(args):
    kind, unit, cases = args
    diff, n = [], 0
    nat = lambda m: [[x // unit if x % unit == 0 else x / unit for x in c] for c in m]
    for c in cases:
        b, d = nat(c["mkt"]), nat(c["dmkt"])
        ob = single.observe(*single.run_impl(kind, b, list(c["rec"]), c["opt"]))
        od = single.observe(*single.run_impl(kind, d, list(c["rec"]), c["opt"]))
        n += 1
        if not (single.same({"out": c["out"], "rec": c["rec"]}, ob, unit) and single.same({"out": c["dout"], "rec": c["rec"]}, od, unit)):
            diff.append((c, b, ob, od))
            if len(diff) > 400:
                break
    return diff, n


# A wide, cheap search for misreports worth judging: whatever looks like a gain goes to the specification, which decides.
def scout_market(rng, kind):
    values, rec, opt = gen(rng, kind, None)
    if rng.random() < .6:        # longer categories, closely packed around the margin
        lo = rng.choice([6, 10, 20, 40])
        hib = rng.randrange(len(rec))
        few, base, coarse = rng.random() < .8 or max(rec) > 3, rng.choice([10, 14, 20, 30]), rng.choice([1, 1, 1, 7, 1000])
        values = []
        for i in range(len(rec)):
            k = max(1, rec[i]) * (rng.choice([3, 4, 5, 6, 7, 8]) if few else base) + rng.choice([-1, 0, 0, 1])
            shift = rng.choice([0, 0, 0, lo // 2])
            m = max(1, sum(rec) - 1) if i == hib else 1
            s = rng.sample(range(1, 2 * max(lo, k) + 1), k)
            values.append([coarse * (m * (x + shift) if i == hib else -x) for x in s])
    return values, rec, opt


def utility(o, rec, c, rep, val):
    if o["st"] != "ok" or not o["deals"] or rep not in o["cats"][c]:
        return 0.0
    return (val - float(o["prices"][c])) * o["deals"] * rec[c] / len(o["cats"][c])


def scout(args):
    kind, seed, n, secs = args
    rng = random.Random(seed)
    hits, runs, t0 = [], 0, time.monotonic()
    for _ in range(n):
        if time.monotonic() - t0 > secs or len(hits) >= 12:
            break
        values, rec, opt = scout_market(rng, kind)
        go = lambda m: single.observe(*single.run_impl(kind, m, rec, opt))
        base = go(values)
        if base["st"] != "ok":
            break
        k = base["deals"]
        for c in range(len(rec)):
            if not rec[c] or not values[c]:
                continue
            mine = sorted(values[c], reverse=True)
            near = [mine[j] for j in {0, len(mine) - 1, k * rec[c] - 1, k * rec[c], (k + 1) * rec[c] - 1, (k + 1) * rec[c], rng.randrange(len(mine))} if 0 <= j < len(mine)]
            pts = set(mine) | {-x for i in range(len(rec)) if i != c and rec[i] for x in values[i]} | {mine[0] + 3, mine[-1] - 3}
            if kind == "mc":
                pts = {x for x in pts if (x > 0) == (mine[0] > 0)}
            pts = sorted(pts)
            reps = [x + rng.choice([-.125, .125, .375, -.375]) for x in rng.sample(pts, min(8, len(pts)))]
            for v in near:
                u0 = utility(base, rec, c, v, v)
                for r in rng.sample(reps, min(4, len(reps))):
                    if r in mine or (kind == "mc" and (r == 0 or (r > 0) != (v > 0))):
                        continue
                    dev = go(swap(values, c, v, r))
                    runs += 1
                    if dev["st"] == "ok" and utility(dev, rec, c, r, v) > u0 + 1e-6:
                        hits.append((values, rec, opt, c, v, r, base, dev))
                        break
    return kind, hits, runs


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    kinds = KINDS[pid]
    jobs = [(k, s, tla.Job("MC_Truth" + single.MOD[k], "MC_Truth" + single.MOD[k], defs={"SpacesDef": tla_space(s)},
                           workers=2, timeout=3000, heap="6g" if THOROUGH else "2g"))
            for k in kinds for s in (DEEP if THOROUGH else QUICK)[k]]
    recs, info = [], {}

    def add(k, values, rec, opt, c, v, r, base, dev):
        cid = "%s-%d" % (k, len(recs))
        p = pair(cid, pid, values, rec, c, v, r, base, dev)
        if p is None:
            return
        recs.append(p)
        info[cid] = {"mechanism": k, "market": values, "recipe": rec, "option": opt, "category": c, "value": v, "report": r,
                     "truthful": base, "misreport": dev}
    for k in kinds:
        hangs = 0
        for i in range((3000 if THOROUGH else 260) // len(kinds)):
            values, rec, opt = gen(rng, k, pid)
            base = single.observe(*single.run_impl(k, values, rec, opt))
            chk.count("%s markets" % k)
            for c, v, r in deviations(rng, values, rec, base, 10):
                if k == "mc" and (r == 0 or (r > 0) != (v > 0)):
                    continue
                dev = single.observe(*single.run_impl(k, swap(values, c, v, r), rec, opt))
                add(k, values, rec, opt, c, v, r, base, dev)
                hangs += dev["st"] == "hang"
                if dev["st"] == "ok" and base["st"] == "ok" and (dev["deals"], dev["cats"], dev["prices"]) != (base["deals"], base["cats"], base["prices"]):
                    chk.count("%s misreports that changed the outcome" % k)
            if hangs >= 3 or base["st"] == "hang":
                break
    with multiprocessing.Pool(6) as p:
        W = 6 if len(kinds) == 1 else 3
        for k, hits, n in p.map(scout, [(k, "%s/%s/%d/%d" % (pid, k, SEED, i), 20000 if THOROUGH else 700, 240 if THOROUGH else 25) for k in kinds for i in range(W)], chunksize=1):
            chk.count("%s misreports screened" % k, n)
            for h in hits:
                add(k, *h)
    for k, s, j in jobs:
        r = j.get()
        chk.model("MC_Truth" + single.MOD[k], r, s)
        cs = r.cases
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay, [(k, s["unit"], cs[i::8]) for i in range(8)]):
                chk.validated += 2 * n
                chk.count("%s misreport behaviours of the specification replayed" % k, n)
                for c, b, ob, od in diff[:60]:
                    u = s["unit"]
                    nat = lambda x: x // u if x % u == 0 else x / u
                    add(k, b, c["rec"], c["opt"], c["cat"] - 1, nat(c["val"]), nat(c["rep"]), ob, od)
    ver, st, di = tla.judge("Trace_Truth", recs, shards=6, timeout=3000)
    chk.traces(2 * len(recs), st, di)
    for r in recs:
        for f in ver[r["id"]]["fails"]:
            i = info[r["id"]]
            chk.violation(f, i, "%s %s %s: trader %s of category %d reports %s" % (i["mechanism"], i["market"], i["recipe"], i["value"], i["category"], i["report"]))
        if r["st"] == "ok" and r["base"]["deals"]:
            i = info[r["id"]]
            chk.sample({k: i[k] for k in ("mechanism", "market", "recipe", "category", "value", "report")}, cap=3)
    return chk.finish(assumptions=["traders' values within a category are distinct and a false report does not tie with another trader",
                                   "utilities are expected values over the uniform choice of who trades in an over-supplied category"])
