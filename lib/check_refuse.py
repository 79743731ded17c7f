"""C28: illegal requests are refused, change nothing, and leave the objects usable."""
import copy, multiprocessing, random
import check_history, check_prices, single, tla, tree
from check_base import Check, SEED, THOROUGH
from check_history import canon, content, n8, nat
from target import M, call, finite

NONE = [[10 ** 9]]
AUCTIONS = (("asc", True), ("tr", True), ("tr", False))


def shape(lst):
    return {"len": len(lst), "kids": [shape(x) for x in lst[1::2] if isinstance(x, list)]}


def texts(market):
    return [c.name for c in market.categories]


def new(ms):
    return check_history.build([[nat(x) for x in c] for c in ms], NAMES)


NAMES = ["buyer", "seller", "mediator", "broker", "carrier", "insurer", "porter"]


def act(o, market):
    """Carry out a request on the market -> (status, what is observed of the answer, were the arguments left alone)"""
    op = o["op"]
    if op == "append":
        a = list(o["vals"])
        a = [nat(x) for x in a]
        a = tuple(a) if o.get("tuple") else a
        b = copy.deepcopy(a)
        s, r = call(market.append_PS, a)
        return s, "", a == b
    if op in ("auction", "mcafee", "optimal"):
        a = tuple(o["rec"]) if o.get("tuple") else list(o["rec"])
        b = copy.deepcopy(a)
        if op == "optimal":
            s, r = call(lambda: market.optimal_trade(a) if o["opt"] else market.optimal_trade(a, include_zero_gft_ps=False))
            mech = "opt"
        else:
            mech = o["mech"]
            s, r = single.run_on(mech, market, a, o["opt"])
        return s, canon(check_history.read(mech, r)) if s == "ok" else "", a == b
    if op == "tree":
        a, c = copy.deepcopy(o["struct"]), copy.deepcopy(o["counts"])
        if o["via"] == "auction":
            s, r = tree.run_on(o["kind"], market, a, c)
            ans = canon(tree.observe("ok", r)) if s == "ok" else ""
        else:
            s, r = call(tree.build, o["kind"], market.categories, a, c)
            ans = ""
            if s == "ok":
                s, ans = call(lambda: canon([r.paths_to_leaf(indices=True), r.recipes(), r.num_of_deals(), r.optimal_trade_GFT()]))
        return s, ans, a == o["struct"] and c == o["counts"]
    if op == "clocks":
        a = copy.deepcopy(o["recipes"])
        s, r = call(lambda: getattr(M, o["mod"]).SimultaneousAscendingPriceVectors(a, o["bound"]))
        ans = ""
        if s == "ok":
            s, ans = call(lambda: canon([list(r.map_category_index_to_price()), r.price_sum()]))
        return s, ans, a == o["recipes"]


def spec_op(o):
    """The request as the specification sees it."""
    op = o["op"]
    if op == "append":
        return {"op": op, "vals": o["vals"]}
    if op == "tree":
        return {"op": op, "shape": shape(o["struct"])}
    if op == "clocks":
        return {"op": op, "lens": [len(r) for r in o["recipes"]]}
    if op == "raise":
        return {"op": op, "hits": o["hits"]}
    return {"op": op, "rec": o["rec"]}


def safe(market):
    s, c = call(lambda: content(market))
    return c if s == "ok" else NONE


def run_history(start, ops):
    market, steps = new(start), []
    for o in ops:
        before = safe(market)
        names = texts(market)
        s, ans, args = act(o, market)
        after = safe(market)
        if texts(market) != names:
            after = NONE
        twin = new(before) if before != NONE else new(start)
        s2, ref, _ = act(o, twin)
        steps.append({"o": spec_op(o), "st": s, "ans": repr(ans), "args": args, "ms": after, "refst": s2, "ref": repr(ref), "refms": safe(twin)})
        if "hang" in (s, s2):
            break
    return steps


def run_raises(mod, struct, counts, ncat, bound, ops):
    """A history of increases, some of them not one per recipe; the twin is asked for the legal ones only."""
    t = tree.spec_tree(struct, counts)
    rs = tree.recipes(t, ncat)
    C = getattr(M, mod).SimultaneousAscendingPriceVectors
    s, two = call(lambda: (C(copy.deepcopy(rs), bound), C(copy.deepcopy(rs), bound)))
    if s != "ok":
        return None
    def look(pv):
        s, r = call(lambda: [check_prices.grid(x, 1) for x in pv.map_category_index_to_price()])
        return [r] if s == "ok" else NONE
    def answer(pv):
        return call(lambda: (check_prices.status_of(pv.status), check_prices.grid(pv.price_sum(), 1)))
    start, steps = look(two[0]), []
    for o in ops:
        hits = [sum(v in p for v in o["nodes"]) + sum(o["nodes"].count(v) - 1 for v in set(o["nodes"]) if v in p) for p in tree.paths(t)]
        arg = [(t["cat"][v - 1] - 1, x, "c") for v, x in zip(o["nodes"], o["to"])]
        keep = list(arg)
        before = answer(two[0])
        s, _ = call(lambda: two[0].increase_prices(arg, o["b"]))
        same = arg == keep
        legal = all(h == 1 for h in hits)
        s2, ref = "err", ""
        if legal:
            s2, _ = call(lambda: two[1].increase_prices(list(keep), o["b"]))
            ref = repr(answer(two[1]))
        ans = repr(answer(two[0]))
        if not legal:
            same = same and answer(two[0]) == before
        steps.append({"o": {"op": "raise", "hits": hits}, "st": s, "ans": ans, "args": same, "ms": look(two[0]), "refst": s2, "ref": ref, "refms": look(two[1])})
    return start, steps


# ---------------------------------------------------------------- random histories
def gen_rec(rng, n):
    style = rng.random()
    if style < .25:
        return [1] * n
    if style < .5:
        return [rng.choice([1, 2, 3]) for _ in range(n)]
    m = rng.choice([0, 1, n - 1, n - 1, n + 1, n + 1, n + 2, 2 * n])
    m = m if m != n else n + 1
    r = [rng.choice([1, 1, 1, 2, 3]) for _ in range(m)]
    if r and rng.random() < .3:
        r[-1] = 0
    if not any(r) and m:
        r[0] = 1
    return r


def not_ones(rng, n):
    r = [1] * n
    i = rng.randrange(n)
    r[i] = rng.choice([0, 2, 3, -1])
    if n > 1 and rng.random() < .4:      # the counts still sum to their number
        j = (i + 1 + rng.randrange(n - 1)) % n
        r[j] = n - sum(r[:j] + r[j + 1:])
    return r


def gen_recipes(rng):
    k = rng.choice(["tree", "int"])
    struct, counts, ncat = tree.gen_tree(rng, k)
    rs = tree.recipes(tree.spec_tree(struct, counts), ncat)
    style = rng.random()
    if style < .15:
        return []
    if style < .3 or len(rs) == 1:
        return rs
    i = rng.randrange(len(rs))
    if rng.random() < .5:
        rs[i] = rs[i] + [0] * rng.choice([1, 1, 2])
    elif rng.random() < .5:
        for j in range(len(rs)):
            if j != i:
                rs[j] = rs[j] + [0]
    else:
        rs[i] = rs[i][:-1]
    return rs


def gen_op(rng, start):
    n = len(start)
    op = rng.choice(["auction"] * 4 + ["optimal"] * 2 + ["mcafee"] * 3 + ["append"] * 2 + ["tree"] * 3 + ["clocks"])
    if op in ("auction", "optimal"):
        mech, opt = rng.choice(AUCTIONS)
        return {"op": op, "rec": gen_rec(rng, n), "mech": mech, "opt": rng.random() < .5 if op == "optimal" else opt, "tuple": rng.random() < .2}
    if op == "mcafee":
        style = rng.random()
        rec = gen_rec(rng, n) if style < .4 else not_ones(rng, n) if style < .8 and n else [1] * n
        return {"op": op, "rec": rec, "mech": "mc", "opt": rng.random() < .6, "tuple": rng.random() < .2}
    if op == "append":
        m = rng.choice([n, n, 0, n - 1, n + 1, n + 2])
        return {"op": op, "vals": [8 * rng.randint(-9, 9) for _ in range(max(0, m))], "tuple": rng.random() < .2}
    if op == "tree":
        kind = rng.choice(["tree", "int"])
        par = tree.gen_par(rng, n)
        cat = list(range(1, n + 1))
        rng.shuffle(cat)
        counts = [rng.choice([1, 1, 2]) for _ in range(n)] if kind == "int" and rng.random() < .7 else None
        struct = tree.nested(par, cat)
        if rng.random() < .65:
            struct = tree.malform(rng, struct)
        return {"op": op, "kind": kind, "struct": struct, "counts": counts, "via": rng.choice(["auction", "new"])}
    mod = rng.choice(check_prices.MODS)
    return {"op": op, "mod": mod, "recipes": gen_recipes(rng), "bound": -rng.choice([1, 10, 100, 1000])}


def ones_only(o):
    return o["op"] != "clocks" or o["mod"] != "prices" or all(x in (0, 1) for r in o["recipes"] for x in r)


def gen(rng):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4])
    start = check_history.gen_values8(rng, n)
    if rng.random() < .15:
        start = [[] for _ in range(n)]
    start = [sorted(c, reverse=True) for c in start]
    ops = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        o = gen_op(rng, start)
        if n == 1 and o["op"] == "tree":
            continue
        if ones_only(o):
            ops.append(o)
    return start, ops


def gen_raises(rng):
    struct, counts, ncat = tree.gen_tree(rng, "tree")
    t = tree.spec_tree(struct, counts)
    span = rng.choice([3, 20, 200])
    ops, bound = [], 0
    for _ in range(rng.choice([2, 3, 5])):
        bad = check_prices.bad_increase(rng, t) if rng.random() < .6 else None
        nodes = bad if bad is not None else check_prices.random_cut(rng, t)
        nodes = list(nodes)
        if bad is None and rng.random() < .15:
            nodes.append(rng.choice(nodes))      # the same category twice
        rng.shuffle(nodes)
        ops.append({"nodes": nodes, "to": [rng.randint(-span, 2 * span) for _ in nodes], "b": bound})
        bound += rng.choice([0, 0, 5])
    # targets below the current prices are no legal increase: raise everything from far below
    return "prices", struct, counts, ncat, -50 * span, ops


S = [[40, 32, 16], [-8, -24]]
SHAPES = [{"len": 2, "kids": []}, {"len": 1, "kids": []}, {"len": 2, "kids": [{"len": 2, "kids": []}]}, {"len": 2, "kids": [{"len": 3, "kids": []}]},
          {"len": 2, "kids": [{"len": 2, "kids": [{"len": 1, "kids": []}]}]}, {"len": 2, "kids": [{"len": 4, "kids": [{"len": 2, "kids": []}, {"len": 1, "kids": []}]}]}]
MODEL = {"StartDef": S, "RecsDef": "TLA:{<<>>, <<1>>, <<1,1>>, <<1,2>>, <<2,0>>, <<1,1,1>>, <<1,1,0>>}", "AddsDef": "TLA:{<<8,-8>>, <<8>>, <<8,-8,-8>>, <<>>}",
         "ShapesDef": "TLA:{%s}" % ",".join(tla.tla(x) for x in SHAPES), "LensDef": "TLA:{<<>>, <<2>>, <<3,3>>, <<3,2>>, <<2,3,3>>}", "DepthDef": 2}


def concrete(rng, o):
    """A request of the specification as a request to the implementation."""
    op = o["op"]
    if op in ("auction", "optimal", "mcafee"):
        mech, opt = rng.choice(AUCTIONS) if op == "auction" else ("mc", True)
        return {"op": op, "rec": list(o["rec"]), "mech": mech, "opt": rng.random() < .5 if op != "auction" else opt}
    if op == "append":
        return {"op": op, "vals": list(o["vals"])}
    if op == "clocks":
        base = [[1, 1, 0], [1, 0, 1], [1, 0, 1]]
        return {"op": op, "mod": rng.choice(check_prices.MODS), "bound": -100,
                "recipes": [(base[i] + [0])[:n] if n > 2 else [1, 1] for i, n in enumerate(o["lens"])]}
    def lst(d, c):
        out, kids = [], list(d["kids"])
        for i in range(d["len"]):
            out.append(c % 2 if i % 2 == 0 else lst(kids.pop(0), c + 1) if kids else None)
        return out
    return {"op": op, "kind": rng.choice(["tree", "int"]), "counts": None, "via": "new", "struct": lst(o["shape"], 0)}


def _chunk(jobs):
    return [run_history(*j) for j in jobs]


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    job = tla.Job("MC_Refuse", "MC_Refuse", defs=dict(MODEL, DepthDef=3 if THOROUGH else 2), timeout=3000, heap="4g")
    todo = [gen(rng) for _ in range(9000 if THOROUGH else 1300)]
    # every kind of refusal at least on these
    for n in (1, 2, 3):
        st = [[40, 32, 16], [-8, -16, -24], [-8, -8, -16]][:n]
        for m in range(0, n + 3):
            for mech, opt in AUCTIONS + (("mc", True), ("mc", False)):
                todo.append((st, [{"op": "mcafee" if mech == "mc" else "auction", "rec": [1] * m, "mech": mech, "opt": opt}]))
            for opt in (True, False):
                todo.append((st, [{"op": "optimal", "rec": [1] * m, "opt": opt}]))
        todo.append(([[] for _ in range(n)], [{"op": "auction", "rec": [1] * (n + 1), "mech": "asc", "opt": True}, {"op": "auction", "rec": [1] * (n + 1), "mech": "tr", "opt": True},
                                              {"op": "mcafee", "rec": [1] * (n + 1), "mech": "mc", "opt": True}, {"op": "optimal", "rec": [1] * (n + 1), "opt": True}]))
    nraw = len(todo)
    r = job.get()
    chk.model("MC_Refuse", r, {"start": S, "depth": 3 if THOROUGH else 2})
    cases = r.cases if THOROUGH or len(r.cases) < 1500 else rng.sample(r.cases, 1500)
    for c in cases:
        todo.append((c["start"], [concrete(rng, h["o"]) for h in c["hist"]]))
    chk.count("histories of the specification replayed", len(cases))
    chk.count("random histories of requests", nraw)
    with multiprocessing.Pool(6) as p:
        parts = p.map(_chunk, [todo[i::24] for i in range(24)])
    recs, info = [], {}

    def add(start, steps, what):
        cid = "r%d" % len(recs)
        recs.append({"id": cid, "start": start, "steps": steps})
        info[cid] = what
    for i, part in enumerate(parts):
        for (start, ops), steps in zip(todo[i::24], part):
            add(start, steps, {"market": start, "requests": ops, "unit": 8})
            for s in steps:
                chk.count("requests %s" % s["o"]["op"])
                chk.count("refused", s["st"] == "err")
    for _ in range(4000 if THOROUGH else 500):
        a = gen_raises(rng)
        x = run_raises(*a)
        if x:
            add(x[0], x[1], dict(zip(("module", "tree", "counts", "categories", "bound", "increases"), a)))
            chk.count("histories of increases")
    ver, st, di = tla.judge("Trace_Refuse", recs, shards=6, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        v = ver[r["id"]]
        for f in v["fails"]:
            chk.violation(f, {"case": info[r["id"]], "step": v["at"], "recorded": r["steps"][v["at"] - 1]},
                          "%s at step %d: %s" % (info[r["id"]], v["at"], r["steps"][v["at"] - 1]))
        chk.sample(info[r["id"]], cap=3)
    return chk.finish(assumptions=["any exception counts as a refusal",
                                   "a description names one root; a list of children that is empty is neither called legal nor malformed",
                                   "the integer price module does not refuse increases that do not hit every recipe once; only prices.py does"])
