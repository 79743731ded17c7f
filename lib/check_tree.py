"""C23-C25 (recipe-tree auctions; also their part of C20, C22, C27) and C19-C22, C30 (data of a recipe tree)."""
import multiprocessing, random
import single, tla, tree
from check_base import Check, SEED, THOROUGH


def T(cat, par, w):
    return {"cat": cat, "par": par, "w": w}


def sp(t, lo, hi, n, big=None):
    return {"tree": t, "vals": "R%d..%d" % (lo, hi), "n": n, "big": big or 64 * 4 * len(t["cat"]) * max(max(abs(lo), abs(hi)), 1) * max(t["w"])}


QUICK = {"tree": [sp(T([1, 2], [0, 1], [1, 1]), -2, 2, [3, 3]), sp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -1, 2, [2, 2, 1]),
                  sp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -1, 1, [2, 1, 1, 1]), sp(T([1], [0], [1]), -2, 2, [3])],
         "int": [sp(T([1, 2], [0, 1], [1, 2]), -2, 1, [2, 4]), sp(T([1, 2], [0, 1], [2, 3]), -1, 1, [4, 4]),
                 sp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -1, 1, [2, 3, 2])]}
DEEP = {"tree": [sp(T([1, 2], [0, 1], [1, 1]), -3, 3, [4, 3]), sp(T([1, 2, 3], [0, 1, 1], [1, 1, 1]), -2, 2, [3, 2, 2]),
                 sp(T([1, 2, 3], [0, 1, 2], [1, 1, 1]), -2, 2, [2, 2, 2]),
                 sp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 1, 1, 1]), -1, 1, [3, 2, 2, 2]),
                 sp(T([1, 2, 3, 4], [0, 1, 1, 1], [1, 1, 1, 1]), -1, 1, [3, 2, 2, 2]),
                 sp(T([1, 2, 3, 4, 5], [0, 1, 2, 2, 1], [1] * 5), -1, 1, [2, 2, 1, 1, 1])],
        "int": [sp(T([1, 2], [0, 1], [1, 2]), -3, 3, [3, 4]), sp(T([1, 2], [0, 1], [2, 3]), -2, 2, [4, 4]),
                sp(T([1, 2, 3], [0, 1, 1], [1, 2, 1]), -1, 1, [3, 4, 3]), sp(T([1, 2, 3], [0, 1, 1], [2, 1, 3]), -1, 1, [4, 3, 4]),
                sp(T([1, 2, 3], [0, 1, 2], [1, 2, 4]), -1, 1, [3, 3, 4]),
                sp(T([1, 2, 3, 4], [0, 1, 1, 3], [1, 2, 1, 2]), -1, 1, [2, 2, 2, 3])]}
USES = {"C23": ["tree", "int"], "C24": ["tree", "int"], "C25": ["tree", "int"], "C27": ["tree", "int"]}


def struct_of(t):
    return tree.nested(t["par"], t["cat"])


def space_def(kind, s, canonical=False):
    """Start from the library's own start prices (as multiples of the bound); canonical start otherwise."""
    t = s["tree"]
    ncat = len(s["n"])
    counts = [1] * ncat
    for c, w in zip(t["cat"], t["w"]):
        counts[c - 1] = w
    st = None if canonical else tree.start_for(kind, struct_of(t), counts if kind == "int" else None, ncat)
    start = []
    if st is not None:
        m = [round(st[c - 1] * w / tree.B8) for c, w in zip(t["cat"], t["w"])]
        sums = {sum(m[v - 1] for v in p) for p in tree.paths(t)}
        if len(sums) == 1 and all(x <= -w for x, w in zip(m, t["w"])) and min(m) > -60:
            start = m
    lo, hi = s["vals"][1:].split("..")
    return "TLA:{[tree |-> %s, vals |-> (%s)..%s, n |-> %s, start |-> %s, big |-> %d]}" % (
        tla.tla(t), lo, hi, tla.tla(s["n"]), tla.tla(start), s["big"])


def _replay(args):
    kind, cases = args
    diff, n, nh = [], 0, 0
    for c in cases:
        if nh >= 2:
            break
        t = c["tree"]
        struct = struct_of(t)
        counts = None
        if kind == "int":
            counts = [1] * len(c["mkt"])
            for x, w in zip(t["cat"], t["w"]):
                counts[x - 1] = w
        obs = tree.observe(*tree.run_on(kind, tree.make_market(c["mkt"]), struct, counts))
        nh += obs["st"] == "hang"
        n += 1
        if not tree.same(c, obs, kind, struct, counts):
            diff.append(({"struct": struct, "counts": counts, "values": c["mkt"]}, obs))
            if len(diff) > 200:
                break
    return diff, n


def collect(pid, chk, kinds, n_random, deep=False, replays=True, models=True):
    rng = random.Random("%s/tree/%d" % (pid, SEED))
    jobs = []
    if models:
        for k in kinds:
            for s in (DEEP if deep else QUICK)[k]:
                jobs.append((k, s, tla.Job("MC_Tree", "MC_Tree", defs={"SpacesDef": space_def(k, s)}, workers=2 if deep else 1,
                                           timeout=3000, heap="6g" if deep else "2g")))
    recs, info = [], {}

    def add(k, cid, case, obs):
        r = tree.encode(cid, k, case, obs)
        if r is None:
            chk.count("cases left out (numbers too large for TLC)")
            return
        r["kind"] = k
        recs.append(r)
        info[cid] = dict(case, kind=k, got=obs)
    for k in kinds:
        cases = tree.special_cases(k)
        for _ in range(n_random // len(kinds)):
            struct, counts, ncat = tree.gen_tree(rng, k)
            cases.append({"struct": struct, "counts": counts, "values": tree.gen_values(rng, struct, counts, ncat, decimals=1, crowds=True)})
            v = cases[-1]["values"]
            if rng.random() < .15:       # the names do not matter
                cases[-1]["names"] = rng.choice([["agent"] * ncat, [rng.choice(["agent", "buyer", "seller"]) for _ in range(ncat)], ["%d" % ((i * 7 + 3) % ncat) for i in range(ncat)]])
            if rng.random() < .1:        # nor does it matter which of the whole numbers are floats
                v[:] = [[float(x) if rng.random() < .5 else x for x in c] for c in v]
            if rng.random() < .12 and all(x == int(x) and abs(x) < 2000 for c in v for x in c) and all(w & (w - 1) == 0 for w in counts or []):
                path = max(sum(x for x in r) for r in tree.recipes(tree.spec_tree(struct, counts), ncat))
                cases[-1]["scale"] = rng.choice([-17, -17, -3, single.room(path * 2 * max([abs(x) for c in v for x in c] or [1]))])
        hangs = 0
        for i, c in enumerate(cases):
            obs = tree.execute(k, c)
            chk.count("%s auction runs" % k)
            if obs["st"] == "ok" and obs["deals"]:
                chk.count("%s auction runs with a trade" % k)
            add(k, "%s-%d" % (k, i), c, obs)
            hangs += obs["st"] == "hang"
            if hangs >= 3:
                break
    for k, s, j in jobs:
        r = j.get()
        chk.model("MC_Tree", r, {"kind": k, **s})
        if not replays:
            continue
        for c in r.cases:
            c["big"] = s["big"]
        with multiprocessing.Pool(4) as p:
            for diff, n in p.map(_replay, [(k, r.cases[i::8]) for i in range(8)]):
                chk.validated += n
                chk.count("%s auction behaviours of the specification replayed" % k, n)
                for case, obs in diff[:40]:
                    add(k, "%s-r%d" % (k, len(recs)), case, obs)
    ver, st, di = tla.judge("Trace_Tree", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        if ver[r["id"]]["tie"] and r["fragile"]:
            chk.count("runs whose exact outcome is not judged (coinciding events under rounding)")
    return [(info[r["id"]], r, ver[r["id"]]) for r in recs]


def report(chk, pid, judged):
    for c, r, v in judged:
        for f in v["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"market": c["values"], "tree": c["struct"], "counts": c.get("counts"), "auction": c["kind"],
                                  "scale": c.get("scale", 0), "got": c["got"], "specified": v["want"], "encoded": r},
                              "%s %s %s counts=%s -> %s" % (c["kind"], c["values"], c["struct"], c.get("counts"), c["got"]))
        if r["st"] == "ok" and r["deals"] > 0:
            chk.sample({"auction": c["kind"], "market": c["values"], "tree": c["struct"], "counts": c.get("counts"),
                        "outcome": {k: c["got"][k] for k in ("deals", "cats", "prices", "gft")}})


ASSUME = ["categories of a tree are all different; counts are positive", "values stay far below the library's bound 1e8 (MAX_VALUE)",
          "with counts that are no powers of two (or decimal values), runs in which two events coincide exactly are judged by the guarantees only, because floating-point rounding decides them"]


def run(pid):
    chk = Check(pid)
    judged = collect(pid, chk, USES[pid], 10000 if THOROUGH else 2000, deep=THOROUGH)
    report(chk, pid, judged)
    return chk.finish(assumptions=ASSUME)


# ---------------------------------------------------------------- data of a tree
TOPICS = {"C19": "paths", "C20": "optimum", "C21": "cut", "C22": "deals", "C30": "derived", "C36": "archive"}


def data_cases(rng, topic, n):
    out = []
    for k in ("tree", "int"):
        for c in tree.special_cases(k):
            if topic != "archive" or k == "tree":
                out.append((k, c))
    for i in range(n):
        k = rng.choice(["tree", "int"]) if topic != "archive" else "tree"
        struct, counts, ncat = tree.gen_tree(rng, k)
        if topic == "paths" and rng.random() < .5:
            struct, counts, ncat = tree.gen_shared_tree(rng, k)
        big = topic in ("cut", "deals") or topic == "archive" and rng.random() < .5
        values = tree.gen_values(rng, struct, counts, ncat, maxsize=14)
        if big and rng.random() < .5:
            values = [[rng.randint(-9, 9) for _ in range(rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12]))] for _ in range(ncat)]
        if topic in ("cut", "deals") and rng.random() < .2:      # large deals, large categories
            counts = [rng.choice([1, 1, 2, 7, 10, rng.randint(3, 120), rng.choice([49, 98, 100, 103, 107])]) for _ in range(ncat)] if k == "int" else None
            base = rng.choice([1, 1, 2, 3, 5])
            values = [[rng.randint(-9, 9) for _ in range(max(0, rng.choice([base, base, base + 1, 2 * base, 0]) * w + rng.choice([-1, 0, 0, 0, 1])))]
                      for w in counts or [rng.choice([1, 30, 99])] * ncat]
        out.append((k, {"struct": struct, "counts": counts, "values": values}))
    for k, c in out:
        c["values"] = [[int(x * 8) if any(y != int(y) for w in c["values"] for y in w) else int(x) for x in v] for v in c["values"]]
        if topic in ("cut", "deals", "optimum", "archive") and rng.random() < .4:    # the same tree was asked before, when its categories had other traders
            c["before"] = [[rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 0, 1, 2])] for _ in c["values"]]
        if topic == "paths" and rng.random() < .3:
            c["plain"] = True       # a tree of category names
        c["prices"] = [rng.randint(-50, 50) * 100 + i for i in range(len(c["values"]))]
    return [("old" if topic == "archive" else k, c) for k, c in out]


def mc_defs(n, lo, hi, w, s):
    return {"MaxNodesDef": n, "ValsDef": "TLA:(%d)..%d" % (lo, hi), "MaxWDef": w, "MaxNDef": s}


MCT = [(2, -1, 1, 2, 3), (3, -1, 0, 2, 2), (4, 0, 1, 1, 1)]
MCT_DEEP = [(2, -2, 2, 3, 3), (3, -1, 1, 2, 2), (3, -1, 0, 3, 3), (4, -1, 0, 2, 1), (4, -1, 1, 1, 2)]


def run_data(pid):
    chk = Check(pid)
    topic = TOPICS[pid]
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(a, tla.Job("MC_Trees", "MC_Trees", defs=mc_defs(*a), timeout=3000, heap="4g")) for a in (MCT_DEEP if THOROUGH else MCT)]
    recs, info = [], {}

    def add(k, c, topic=topic):
        cid = "d%d" % len(recs)
        r = tree.read_data(topic, k, c)
        r["id"] = cid
        recs.append({x: y for x, y in r.items() if x != "why"})
        info[cid] = (k, c, r)
    for k, c in data_cases(rng, topic, 6000 if THOROUGH else 900):
        add(k, c)
        chk.count("observations of %s" % {"tree": "recipetree", "int": "recipetree_integer", "old": "recipetree.old"}[k])
    # every tree and market of the model, observed
    for a, j in jobs:
        r = j.get()
        chk.model("MC_Trees", r, dict(zip(("nodes", "low", "high", "counts", "traders"), a)))
        cases = r.cases if len(r.cases) <= 1500 or THOROUGH else rng.sample(r.cases, 1500)
        for c in cases:
            t = c["tree"]
            ones = all(x == 1 for x in t["w"])
            case = {"struct": struct_of(t), "counts": list(t["w"]), "values": c["mkt"], "prices": [100 * i + 7 for i in range(len(c["mkt"]))]}
            if pid == "C36":
                if not ones:
                    continue
                add("old", dict(case, counts=None))
            else:
                add("int", case)
                if ones:
                    add("tree", dict(case, counts=None))
            chk.count("trees and markets of the model observed")
    if pid == "C19":
        for k, c in data_cases(rng, topic, 120):
            add(k, dict(c, bad=tree.malform(rng, c["struct"])), "malformed")
            chk.count("malformed descriptions")
    if pid in ("C20", "C22"):      # the same of the traders an auction has left
        report(chk, pid, collect(pid, chk, ["tree", "int"], 3000 if THOROUGH else 400, models=False))
    ver, st, di = tla.judge("Trace_TreeData", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        k, c, full = info[r["id"]]
        for f in ver[r["id"]]["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"tree": c["struct"], "counts": c["counts"], "values": c["values"], "before": c.get("before"), "variant": k, "got": full},
                              "%s %s counts=%s values=%s: %s" % (k, c["struct"], c["counts"], c["values"], {x: y for x, y in full.items() if x not in ("tree", "mkt")}))
        chk.sample({"tree": c["struct"], "counts": c["counts"], "values": c["values"], "variant": k})
    return chk.finish(assumptions=["categories on a path and of siblings are different; counts are positive"] if pid == "C19" else ASSUME[:1])
