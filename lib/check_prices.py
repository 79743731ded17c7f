"""C16 (single price clock), C17 (simultaneous clocks), C18 (initial prices): both price modules."""
import math, multiprocessing, random
import single, tla, tree
from check_base import Check, SEED, THOROUGH
from check_tree import T, struct_of
from target import M, call, finite

BAD = 200_000_000
MODS = ("prices", "prices_integer")


def grid(x, u):
    """An integer in unit 1/u; a value off the grid becomes one that fits nothing."""
    if x is None or not finite(x) or abs(float(x) * u) > 150_000_000:
        return BAD
    y = float(x) * u
    r = round(y)
    return r if abs(y - r) <= 2e-3 else BAD


def status_of(x):
    return str(x).split(".")[-1]


# ---------------------------------------------------------------- one clock
def run_single(mod, recipe, counts, initial, ops, u):
    """ops: (category, target, bound, bound given?) -> record for Trace_Clock"""
    w = [r * c for r, c in zip(recipe, counts)] if counts else list(recipe)
    P = getattr(M, mod).AscendingPriceVector
    s, pv = call(lambda: P(list(recipe), initial if not isinstance(initial, list) else list(initial), counts) if counts else P(list(recipe), initial if not isinstance(initial, list) else list(initial)))
    first = [grid(x, u) for x in (initial if isinstance(initial, list) else [initial] * len(recipe))]
    rec = {"kind": "single", "w": w, "first": first, "steps": [], "st": s}
    if s != "ok":
        rec["steps"] = [{"st": s, "p": first, "c": 1, "x": 0, "b": 0, "status": "", "sum": 0, "wo": 0, "sumafter": 0, "item": 0}]
        return rec
    for c, x, b, give in ops:
        def step():
            if give == 2:
                pv[c] = x          # set directly, then raise to the same price
            after = pv.price_sum_after_increase(c, x)
            if give:
                pv.increase_price_up_to_balance(c, x, "c", b)
            else:
                pv.increase_price_up_to_balance(c, x, "c")
            return after
        s, after = call(step)
        st = {"st": s, "c": c + 1, "x": grid(x, u), "b": grid(b, u), "p": [grid(y, u) for y in pv.prices], "status": status_of(pv.status),
              "sum": 0, "wo": 0, "sumafter": 0, "item": 0}
        if s == "ok":
            s2, o = call(lambda: (pv.price_sum(), pv.price_sum_without_category(c), pv[c]))
            st["st"] = s2
            if s2 == "ok":
                st["sum"], st["wo"], st["item"] = grid(o[0], u), grid(o[1], u), grid(o[2], u)
                st["sumafter"] = grid(after, u)
        rec["steps"].append(st)
    return rec


def gen_single(rng):
    mod = rng.choice(MODS)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    recipe = [rng.choice([0, 1, 1, 1, 2, 3]) for _ in range(n)]
    if not any(recipe):
        recipe[rng.randrange(n)] = 1
    counts = [rng.choice([1, 1, 2]) for _ in range(n)] if mod == "prices_integer" and rng.random() < .5 else None
    w = [r * c for r, c in zip(recipe, counts)] if counts else recipe
    u = min(single.lcm([x for x in w if x]), 60) ** 2
    d = rng.choice([1, 1, 2, 4, 8])         # targets are multiples of 1/d
    fine = rng.random() < .15               # of a millionth: nearly at the balance is not at the balance
    if fine:
        recipe, counts, d = [min(1, x) for x in recipe], None, 1 << 20
        w, u = recipe, 1
    u *= d
    span = 5 if fine else rng.choice([5, 30, 400 if d == 1 else 30])
    initial = rng.choice([-span, -3 * span, [rng.randint(-3 * span, 0) for _ in range(n)]])
    cur = list(initial) if isinstance(initial, list) else [initial] * n
    cur = [float(x) for x in cur]
    bound, hits, ops = 0, 0, []
    if sum(a * b for a, b in zip(w, cur)) > 0:
        return gen_single(rng)
    for _ in range(rng.choice([1, 2, 3, 5, 8]) if not fine else rng.choice([1, 2, 3, 4])):
        tot = sum(a * b for a, b in zip(w, cur))
        if tot >= bound - 1e-9:
            if hits >= 2:
                break
            bound = bound + rng.randint(1, span)
        c = rng.randrange(n)
        low = math.ceil(cur[c] * d - 1e-7) / d if d > 1 else math.ceil(cur[c])
        x = low + rng.choice([0, 1, 1, 2, 5, span // 4, span, 3 * span]) * rng.choice([1, 1 / d if d > 1 else 1])
        if w[c] and rng.random() < (.7 if fine else .3):      # next to the balance
            x = max(low, math.floor((cur[c] + (bound - tot) / w[c]) * d) / d + rng.choice([-1, 0, 1, 2]) * rng.choice([1, 1 / d]))
        if x == int(x):
            x = int(x)
        give = 1 if bound else rng.choice([0, 1])
        if rng.random() < .1 and w[c] and tot + w[c] * (x - cur[c]) < bound:
            give = 2
        ops.append((c, x, bound, give))
        if w[c] and tot + w[c] * (x - cur[c]) >= bound:
            cur[c] += (bound - tot) / w[c]
            hits += 1
        else:
            cur[c] = x
    return mod, recipe, counts, initial, ops, u


def same_single(case, rec):
    return rec["st"] == "ok" and all(
        s["st"] == "ok" and s["p"] == h["price"] and s["status"] == h["status"] and s["sum"] == sum(a * b for a, b in zip(case["w"], h["price"]))
        for s, h in zip(rec["steps"], case["hist"])) and len(rec["steps"]) == len(case["hist"])


def _replay_single(args):
    u, cases = args
    diff, n = [], 0
    for c in cases:
        for mod, recipe, counts in [("prices", c["w"], None), ("prices_integer", c["w"], None)] + \
                ([("prices_integer", [min(1, x) for x in c["w"]], [max(1, x) for x in c["w"]])] if max(c["w"]) > 1 else []):
            ops = [(h["c"] - 1, h["x"] // u if h["x"] % u == 0 else h["x"] / u, h["b"] // u, 1) for h in c["hist"]]
            first = [x // u for x in c["first"]]
            rec = run_single(mod, recipe, counts, first, ops, u)
            n += 1
            if not same_single(c, rec):
                diff.append((mod, recipe, counts, first, ops, rec))
                if len(diff) > 60:
                    return diff, n
    return diff, n


SINGLE = [([[1, 1]], [-2], [-1, 0, 2], [0, 1], 4, 1), ([[2, 1], [1, 0, 3]], [-2], [-1, 1, 3], [0], 3, 36)]
SINGLE_DEEP = [([[1, 1], [1, 1, 1]], [-2], [-2, -1, 0, 2], [0, 1], 5, 1), ([[2, 1], [1, 0, 3], [2, 3]], [-3, -2], [-2, -1, 1, 3], [0, 1], 4, 1296)]


def run16(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Clock", "MC_Clock", timeout=3000, heap="4g",
                        defs={"RecipesDef": {tuple(x) for x in a[0]}, "StartsDef": set(a[1]), "TargetsDef": set(a[2]), "BoundsDef": set(a[3]), "DepthDef": a[4], "UnitDef": a[5]}))
            for a in (SINGLE_DEEP if THOROUGH else SINGLE)]
    recs, info = [], {}

    def add(args, rec):
        rec["id"] = "s%d" % len(recs)
        recs.append(rec)
        info[rec["id"]] = args
    for _ in range(8000 if THOROUGH else 1500):
        a = gen_single(rng)
        add(a, run_single(*a))
        chk.count("random histories on %s" % a[0])
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Clock", r, dict(zip(("recipes", "start", "targets", "bounds", "depth", "unit"), a)))
        cases = r.cases if THOROUGH else rng.sample(r.cases, min(len(r.cases), 6000))
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay_single, [(a[5], cases[i::8]) for i in range(8)]):
                chk.validated += n
                chk.count("histories of the specification replayed", n)
                for mod, recipe, counts, first, ops, rec in diff:
                    add((mod, recipe, counts, first, ops, a[5]), rec)
    finish(chk, pid, recs, info, ("module", "recipe", "counts", "initial", "operations (category, target, bound, given)", "unit"))
    return chk.finish(assumptions=["a raise targets a price not below the current one, from a price-sum not above its bound"])


def finish(chk, pid, recs, info, keys):
    ver, st, di = tla.judge("Trace_Clock", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        for f in ver[r["id"]]["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"case": dict(zip(keys, info[r["id"]])), "recorded": r}, "%s -> %s" % (info[r["id"]], r["steps"][-2:]))
        chk.sample(dict(zip(keys, info[r["id"]])), cap=3)


# ---------------------------------------------------------------- simultaneous clocks
def run_joint(mod, struct, counts, ncat, bound0, script, u):
    """script(pv prices as weighted ints per node, sum) -> next op or None; op = ([(node, target price)], bound, given?, legal?)"""
    t = tree.spec_tree(struct, counts)
    rs = tree.recipes(t, ncat)
    rec = {"kind": "joint", "tree": t, "steps": [], "st": "ok", "first": [], "fragile": any(w & (w - 1) for w in t["w"])}
    s, pv = call(lambda: getattr(M, mod).SimultaneousAscendingPriceVectors(rs, bound0))
    if s != "ok":
        rec["first"] = [0] * len(t["cat"])
        rec["steps"] = [{"st": s, "legal": True, "p": rec["first"], "inc": [], "b": 0, "status": "", "before": "", "sum": 0, "othersfixed": True}]
        return rec, []
    def look():
        ok, m = call(lambda: list(pv.map_category_index_to_price()))
        if ok != "ok" or len(m) != ncat:
            return [None] * ncat, [BAD] * len(t["cat"])
        return m, [grid(m[c - 1] * w if finite(m[c - 1]) else None, u) for c, w in zip(t["cat"], t["w"])]
    m, q = look()
    rec["first"] = q
    done = []
    while True:
        op = script(t, m, q)
        if op is None:
            break
        inc, b, give, legal = op
        done.append(op)
        before = status_of(pv.status)
        arg = [(t["cat"][v - 1] - 1, x, "c") for v, x in inc]
        s, _ = call(lambda: pv.increase_prices(arg, b) if give else pv.increase_prices(arg))
        m2, q = look()
        intree = {c - 1 for c in t["cat"]}
        rec["steps"].append({"st": s, "legal": legal, "p": q, "b": b * u, "status": status_of(pv.status), "before": before,
                             "inc": [{"node": v, "to": round(x * u * t["w"][v - 1])} for v, x in inc],
                             "sum": grid(call(pv.price_sum)[1], u), "othersfixed": all(m2[i] == m[i] for i in range(ncat) if i not in intree)})
        m = m2
        if BAD in q:
            break
    return rec, done


def random_cut(rng, t, v=1):
    cs = [u for u in range(1, len(t["cat"]) + 1) if t["par"][u - 1] == v]
    if not cs or rng.random() < .4:
        return [v]
    return sum((random_cut(rng, t, c) for c in cs), [])


def bad_increase(rng, t):
    """A set of nodes that is not one per path, or None."""
    n = len(t["cat"])
    for _ in range(20):
        ns = rng.sample(range(1, n + 1), rng.randint(0, n))
        if any(sum(v in ns for v in p) != 1 for p in tree.paths(t)):
            return ns
    return None


def joint_script(rng, span, length, allow_bad, d=1):
    """Targets are multiples of 1/d, prices are recorded in units of 1/d."""
    left = [length]
    up = (lambda x: math.ceil(x * d - 1e-7) / d) if d > 1 else (lambda x: math.ceil(x - 1e-7))
    state = {"bound": 0}
    def script(t, m, q):
        if left[0] == 0:
            return None
        left[0] -= 1
        p0 = tree.paths(t)[0]
        tot = sum(q[v - 1] for v in p0) / d
        b = state["bound"]
        if BAD in q:
            return None
        if tot >= b:
            if rng.random() < .5:
                return None
            b = state["bound"] = max(b, math.ceil(tot)) + rng.choice([0, 1, span])
        if allow_bad and rng.random() < .15:
            ns = bad_increase(rng, t)
            if ns is not None:
                return [(v, math.ceil(m[t["cat"][v - 1] - 1]) + rng.randint(0, span)) for v in ns], b, True, False
        inc = []
        for v in random_cut(rng, t):
            low = up(m[t["cat"][v - 1] - 1])
            x = low + rng.choice([0, 1, 1, 2, 3, span // 2, span, 4 * span]) / rng.choice([1, d])
            if rng.random() < (.6 if d > 2000 else .2):        # next to the balance
                x = max(low, math.floor((m[t["cat"][v - 1] - 1] + (b - tot) / t["w"][v - 1]) * d + 1e-7) / d + rng.choice([-2, -1, 0, 1, 2]) / d)
            inc.append((v, int(x) if x == int(x) else x))
        rng.shuffle(inc)
        return inc, b, (True if b else rng.random() < .5), True
    return script


def scripted(ops):
    it = iter(ops)
    return lambda t, m, q: next(it, None)


JOINT = [(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), [-3, -1, 2], [0], 3, -3), (T([1, 2, 3], [0, 1, 1], [1, 2, 1]), [-2, 1], [0, 2], 3, -2),
         (T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), [-2, 1], [0], 3, -2)]
JOINT_DEEP = [(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), [-3, -2, -1, 2], [0, 1], 4, -3), (T([1, 2, 3], [0, 1, 1], [1, 2, 3]), [-2, -1, 1], [0, 2], 4, -2),
              (T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), [-2, 0, 1], [0], 4, -2), (T([1, 2, 3, 4], [0, 1, 1, 3], [1, 2, 1, 2]), [-2, 1], [0], 4, -2),
              (T([1, 2, 3, 4, 5], [0, 1, 2, 2, 1], [1] * 5), [-2, 1], [0], 3, -2)]


def counts_of(t, ncat):
    c = [1] * ncat
    for x, w in zip(t["cat"], t["w"]):
        c[x - 1] = w
    return c


def start_of(mod, t, bound0):
    n = max(t["cat"])
    s, r = call(lambda: list(getattr(M, mod).calculate_initial_prices(tree.recipes(t, n), bound0)))
    return [round(r[c - 1] * w) for c, w in zip(t["cat"], t["w"])] if s == "ok" and all(finite(x) for x in r) else tree.canonical(t, -bound0)


def _replay_joint(args):
    mod, t, bound0, cases = args
    diff, n = [], 0
    ncat = max(t["cat"])
    for c in cases:
        ops = [([(i["node"], i["to"] // t["w"][i["node"] - 1]) for i in h["inc"]], h["b"], True, True) for h in c["hist"]]
        rec, _ = run_joint(mod, struct_of(t), counts_of(t, ncat), ncat, bound0, scripted(ops), 1)
        n += 1
        ok = len(rec["steps"]) == len(c["hist"]) and all(
            s["st"] == "ok" and s["p"] == h["q"] and (s["status"] == h["status"] or (rec["fragile"] and h["tie"])) for s, h in zip(rec["steps"], c["hist"]))
        if not ok:
            diff.append((ops, rec))
            if len(diff) > 60:
                break
    return diff, n


def run17(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = []
    for a in (JOINT_DEEP if THOROUGH else JOINT):
        t = a[0]
        for mod in MODS:
            if mod == "prices" and any(w != 1 for w in t["w"]):
                continue
            if mod == "prices_integer" and not THOROUGH and len(t["cat"]) == 4 and all(w == 1 for w in t["w"]):
                continue
            st = start_of(mod, t, a[4])
            jobs.append((mod, a, tla.Job("MC_Joint", "MC_Joint", timeout=3000, heap="4g",
                                         defs={"TreeDef": t, "StartDef": st, "TargetsDef": set(a[1]), "BoundsDef": set(a[2]), "DepthDef": a[3]})))
    recs, info = [], {}

    def add(args, rec):
        rec["id"] = "j%d" % len(recs)
        recs.append(rec)
        info[rec["id"]] = args
    for _ in range(6000 if THOROUGH else 1000):
        mod = rng.choice(MODS)
        struct, counts, ncat = tree.gen_tree(rng, "tree" if mod == "prices" else "int")
        span = rng.choice([3, 20, 200])
        bound0 = -rng.choice([1, 2, 5, 10]) * span
        d = rng.choice([1, 1, 8, 1024]) if span <= 20 else 1
        if span == 3 and bound0 >= -6 and rng.random() < .6:
            d = 1 << rng.choice([14, 17, 20])
        rec, done = run_joint(mod, struct, counts, ncat, bound0, joint_script(rng, span, rng.choice([1, 2, 4, 8, 12]), mod == "prices", d), d)
        add((mod, struct, counts, bound0, done), rec)
        chk.count("random histories on %s" % mod)
        chk.count("refused increases", sum(not s["legal"] for s in rec["steps"]))
    for mod, a, j in jobs:
        r = j.get()
        chk.model("MC_Joint", r, dict(zip(("tree", "targets", "bounds", "depth", "initial bound"), a), module=mod))
        cases = r.cases if THOROUGH else rng.sample(r.cases, min(len(r.cases), 4000))
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay_joint, [(mod, a[0], a[4], cases[i::8]) for i in range(8)]):
                chk.validated += n
                chk.count("histories of the specification replayed", n)
                for ops, rec in diff:
                    add((mod, struct_of(a[0]), counts_of(a[0], max(a[0]["cat"])), a[4], ops), rec)
    finish(chk, pid, recs, info, ("module", "tree", "counts", "initial bound", "operations (increases, bound, given, legal)"))
    return chk.finish(assumptions=["a raise targets prices not below the current ones, from price-sums not above the bound",
                                   "where a target and the bound are met together and counts are no powers of two, either status is accepted"])


# ---------------------------------------------------------------- initial prices
def run_initial(mod, struct, counts, ncat, bound):
    t = tree.spec_tree(struct, counts)
    rs = tree.recipes(t, ncat)
    s, r = call(lambda: [list(getattr(M, mod).calculate_initial_prices(rs, bound)),
                         list(getattr(M, mod).SimultaneousAscendingPriceVectors(rs, bound).map_category_index_to_price())])
    out = []
    for i in (0, 1):
        v = r[i] if s == "ok" else []
        u = 1000 if abs(bound) <= 2000 else 1
        rec = {"kind": "initial", "tree": t, "steps": [], "st": s, "ncat": ncat, "bound": bound * u, "plain": [], "first": [], "tol": 2 * len(t["cat"]) * max(t["w"])}
        if s == "ok":
            def g(x):
                return int(max(-2 * 10 ** 8, min(10 ** 8, round(float(x))))) if finite(x) else 10 ** 8
            rec["plain"] = [math.ceil(max(-2e9, x * u) - 1e-3) if finite(x) else 10 ** 8 for x in v]
            if len(v) == ncat:
                # the difference of path sums is what matters: computed from the weighted prices relative to the bound
                rec["first"] = [g((v[c - 1] - bound) * w * u) for c, w in zip(t["cat"], t["w"])]
                base = [bound * w * u for w in t["w"]]
                rec["first"] = [max(-10 ** 9, min(10 ** 9, a + b)) for a, b in zip(rec["first"], base)] if abs(bound) * max(t["w"]) * u < 2e7 else rec["first"]
                if rec["first"] and abs(bound) * max(t["w"]) * u >= 2e7:     # large bounds: sums of (price - bound) plus the bound's own share, in units of 1
                    ps = tree.paths(t)
                    sums = [sum(v[t["cat"][n - 1] - 1] * t["w"][n - 1] for n in p) for p in ps]
                    rec["first"] = [0] * len(t["cat"])
                    for p, sm in zip(ps, sums):
                        d = sm - sums[0]
                        rec["first"][p[-1] - 1] = int(max(-10 ** 9, min(10 ** 9, round(d)))) if finite(d) else 10 ** 9
            else:
                rec["st"] = "garbled"
        out.append(rec)
    return out


def run18(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Start", "MC_Start", timeout=3000, defs={"MaxNodesDef": a[0], "MaxWDef": a[1], "BigDef": 10}))
            for a in ([(5, 2), (4, 3), (6, 1), (7, 1)] if THOROUGH else [(4, 2), (5, 1)])]
    recs, info = [], {}

    def add(args):
        for rec in run_initial(*args):
            rec["id"] = "i%d" % len(recs)
            recs.append(rec)
            info[rec["id"]] = args
    for _ in range(8000 if THOROUGH else 1200):
        mod = rng.choice(MODS)
        struct, counts, ncat = tree.gen_tree(rng, "tree" if mod == "prices" else "int")
        add((mod, struct, counts, ncat, -rng.choice([0, 1, 3, 100, 1000, 12345, 10 ** 6, 10 ** 8])))
        chk.count("random trees on %s" % mod)
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Start", r, {"nodes": a[0], "counts": a[1]})
        for c in r.cases:
            t = c["tree"]
            n = len(t["cat"])
            perm = rng.sample(range(1, n + 1), n)
            t = T([perm[x - 1] for x in t["cat"]], t["par"], t["w"])
            add(("prices_integer", struct_of(t), counts_of(t, n), n, -rng.choice([7, 100, 10 ** 8])))
            if max(t["w"]) == 1:
                add(("prices", struct_of(t), None, n, -rng.choice([7, 100, 10 ** 8])))
            chk.count("trees of the model")
    finish18(chk, pid, recs, info)
    return chk.finish(assumptions=["bounds are at most zero and at least -1e8"])


def finish18(chk, pid, recs, info):
    keys = ("module", "tree", "counts", "categories", "bound")
    ver, st, di = tla.judge("Trace_Clock", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        for f in ver[r["id"]]["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"case": dict(zip(keys, info[r["id"]])), "recorded": r}, "%s -> %s" % (info[r["id"]], r["plain"]))
        chk.sample(dict(zip(keys, info[r["id"]])), cap=3)
