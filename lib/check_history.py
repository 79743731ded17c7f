"""C13: computations leave their inputs alone and depend only on the content of the market."""
import copy, multiprocessing, random
import single, tla, tree
from check_base import Check, SEED, THOROUGH
from target import M, call, finite, logging_on

SINGLE = {"asc": ("asc", True), "tr": ("tr", True), "tr0": ("tr", False), "mc": ("mc", True), "mc0": ("mc", False)}
OPT = {"opt": True, "opt0": False}
AUCTION = {"tree": "tree", "int": "int"}
DATA = {"rt": "tree", "rti": "int"}
LOGGED = ("ascending_auction_protocol", "trade_reduction_protocol", "mcafee_protocol", "ascending_auction_recipetree_protocol",
          "ascending_auction_recipetree_integer_protocol", "prices", "prices_integer", "recipetree", "recipetree_integer")


def n8(x):
    return int(x * 8) if finite(x) and abs(x) < 1e8 and x * 8 == int(x * 8) else 10 ** 9


def content(m):
    return [[n8(x) for x in c.values] for c in m.categories]


def canon(x):
    """An outcome without names and rounding noise."""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items()) if k not in ("text", "why")}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if not finite(x):
        return str(x)
    r = round(float(x), 5)
    return int(r) if r == int(r) else r


def args_of(mech, arg):
    """arg: a flat list of integers. Recipe, or parents (0 = root) of a tree with node i in category i, then its counts."""
    if mech in SINGLE or mech in OPT:
        return list(arg)
    n = len(arg) // 2
    struct = tree.nested(list(arg[:n]), list(range(1, n + 1)))
    return struct, (list(arg[n:]) if mech in ("int", "rti") else None)


def read(mech, r):
    """The outcome object of a call, as plain numbers."""
    if mech in SINGLE:
        return single.observe("ok", r)
    if mech in OPT:
        s, o = call(lambda: {"st": "ok", "deals": [list(d) for d in r[0].procurement_sets], "k": r[0].num_of_deals(), "gft": r[0].gain_from_trade(),
                             "rem": [list(c.values) for c in r[1].categories]})
        return o if s == "ok" else {"st": s}
    if mech in AUCTION:
        return tree.observe("ok", r)
    return r


def tree_data(kind, market, struct, counts, held=None):
    key = repr((struct, counts, kind))
    if held is not None and key in held:      # the tree built for an earlier question: it shows the market as it is now
        t = held[key]
    else:
        t = tree.build(kind, market.categories, struct, counts)
        if held is not None:
            held[key] = t
    def once():
        ds, k, g = t.optimal_trade()
        c = t.optimal_trade_with_counters()
        return {"deals": [tree.as_deal(d) for d in ds], "k": k, "gft": g, "gft2": t.optimal_trade_GFT(), "n": t.num_of_deals(),
                "cut": list(t.largest_categories(indices=True)[-1]), "paths": t.paths_to_leaf(indices=True), "recipes": t.recipes(),
                "ck": c[1], "cg": c[2], "ck1": c[3], "ck2": c[4], "values": canon(t.combined_values())}
    a = once()
    b = once()
    return dict(a, st="ok", again=canon(a) == canon(b))


def ask(mech, market, arg, held=None):
    """-> (status, outcome object or None, numbers, were the arguments left alone)"""
    a = args_of(mech, arg)
    before = copy.deepcopy(a)
    if mech in SINGLE:
        k, o = SINGLE[mech]
        s, r = single.run_on(k, market, a, o)
    elif mech in OPT:
        s, r = call(lambda: market.optimal_trade(a) if OPT[mech] else market.optimal_trade(a, include_zero_gft_ps=False))
    elif mech in AUCTION:
        s, r = tree.run_on(AUCTION[mech], market, a[0], a[1])
    else:
        s, r = call(tree_data, DATA[mech], market, a[0], a[1], held)
    if s != "ok":
        return s, None, {"st": s, "why": r}, a == before
    o = read(mech, r)
    return o["st"], r, o, a == before


def build(values, names, order=None):
    A, Mk = M.agents.AgentCategory, M.markets.Market
    return Mk([A(n, order(v) if order else list(v)) for n, v in zip(names, values)])


def nat(v):
    return v // 8 if v % 8 == 0 else v / 8


def reference(job):
    """In a process of its own: the answers to the questions of a history, each on a new market, last question first."""
    out = []
    for mech, mkt, arg in job:
        s, _, o, _ = ask(mech, build([[nat(x) for x in c] for c in mkt], ["x%d" % i for i in range(len(mkt))]), arg)
        out.append(canon(o))
    return out


class Ids:
    def __init__(self):
        self.d = {}

    def of(self, x):
        return self.d.setdefault(repr(x), len(self.d) + 1)


def run_history(start, hist, rng, ids):
    names = ["buyer", "seller", "mediator", "broker", "carrier", "insurer", "notary", "packer", "guard", "clerk"]
    ms = [build([[nat(x) for x in c] for c in s], names) for s in start]
    kept, steps, rest, held = [], [], None, {}
    tracing = False
    outs = []
    for o in hist:
        e = {"o": o, "st": "ok", "args": True, "kept": True, "ans": 0, "ms": []}
        def go():
            nonlocal rest, tracing
            m = ms[o["m"] - 1]
            if o["op"] == "call":
                s, r, num, a = ask(o["mech"], m, o["arg"], held.setdefault(o["m"], {}))
                e["st"], e["args"], e["ans"] = s, a, ids.of(canon(num))
                outs.append(num)
                if r is not None and o["mech"] not in DATA:
                    kept.append((o["mech"], r, canon(num)))
                    if o["mech"] in OPT:
                        rest = r[1]
            elif o["op"] == "append":
                m.append_trader(o["c"] - 1, nat(o["v"]))
            elif o["op"] in ("drop", "replace"):
                c = m.categories[o["c"] - 1]
                if o["top"]:
                    c.remove_highest_agents(1)
                else:
                    c.remove_lowest_agent()
                if o["op"] == "replace":
                    m.append_trader(o["c"] - 1, nat(o["v"]))
            elif o["op"] == "clone":
                ms.append(m.clone())
            elif o["op"] == "permute":
                def shuffled(v):
                    v = list(v)
                    rng.shuffle(v)
                    return v
                ms.append(build([c.values for c in m.categories], names, shuffled))
            elif o["op"] == "rename":
                ms.append(build([c.values for c in m.categories], rng.choice([["agent"] * 10, list("zyxwvutsrq"), names[::-1]])))
            elif o["op"] == "spoil":
                if rest is not None:      # a remaining market that was returned is the caller's
                    kept[:] = [k for k in kept if not (k[0] in OPT and k[1][1] is rest)]
                    for i in range(len(rest.categories)):
                        rest.append_trader(i, 4)
            elif o["op"] == "trace":
                tracing = not tracing
        if tracing or o["op"] == "trace":
            with logging_on(*LOGGED):
                s, why = call(go, limit=40)
        else:
            s, why = call(go, limit=40)
        if s != "ok":
            e["st"] = s
        s, c = call(lambda: [content(m) for m in ms])
        e["ms"] = c if s == "ok" else []
        if kept and len(kept) < 40:
            s, k = call(lambda: all(canon(read(x, r)) == n for x, r, n in kept))
            e["kept"] = s == "ok" and bool(k)
        steps.append(e)
        if e["st"] != "ok":
            break
    return steps, outs


def questions(start, hist):
    ms = [[sorted(c, reverse=True) for c in s] for s in start]
    out = []
    for o in hist:
        if o["op"] == "call":
            q = (o["mech"], [list(c) for c in ms[o["m"] - 1]], list(o["arg"]))
            if q not in out:
                out.append(q)
        elif o["op"] == "append":
            ms[o["m"] - 1][o["c"] - 1] = sorted(ms[o["m"] - 1][o["c"] - 1] + [o["v"]], reverse=True)
        elif o["op"] in ("drop", "replace"):
            c = ms[o["m"] - 1][o["c"] - 1]
            c.pop(0 if o["top"] else -1)
            if o["op"] == "replace":
                c.append(o["v"])
                c.sort(reverse=True)
        elif o["op"] in ("clone", "permute", "rename"):
            ms.append([list(c) for c in ms[o["m"] - 1]])
    return out[::-1]


def gen_values8(rng, n, k=None):
    span = rng.choice([4, 12, 100, 100, 1000])
    k = k or rng.choice([1, 2, 3, 4, 5, 7])
    out = []
    for i in range(n):
        out.append([8 * (rng.randint(1, span) * (1 if i == 0 else -1)) + rng.choice([0, 0, 0, 4]) for _ in range(max(0, k + rng.choice([-1, 0, 0, 1, 2])))])
        if i == 0 and n > 2:
            out[0] = [x * (n - 1) for x in out[0]]
    return out


def gen(rng):
    n = rng.choice([2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8])
    many = rng.choice([60, 160, 280]) if n == 2 and rng.random() < .12 else None      # hundreds of traders
    recs = [[1] * n, [rng.choice([1, 1, 2]) for _ in range(n)]]
    ts = []
    for _ in range(2):
        ts.append(tree.gen_par(rng, n) + [rng.choice([1, 1, 2]) for _ in range(n)])
    v = gen_values8(rng, n, many)
    if rng.random() < .4 or many:        # markets that share most of their traders
        w = [list(c) for c in v]
        i = rng.randrange(n)
        w[i] = w[i][:-1] + [rng.choice(w[i] or [8]) + rng.choice([-8, 8])]
    else:
        w = gen_values8(rng, n)
    start, count, hist = [v, w], 2, []
    sizes = [[len(c) for c in x] for x in start]
    for _ in range(6 if many else rng.choice([4, 8, 12, 20])):
        op = rng.choice(["call"] * 9 + ["append", "append", "drop", "replace", "replace", "clone", "permute", "rename", "spoil", "trace"])
        m = rng.randint(1, count)
        if op == "call":
            mech = rng.choice(["asc", "tr", "tr0", "mc", "mc0", "opt", "opt0", "tree", "int", "rt", "rti"])
            arg = rng.choice(recs) if mech in SINGLE or mech in OPT else rng.choice(ts)
            if mech in ("mc", "mc0"):
                arg = recs[0]
            hist.append({"op": op, "m": m, "mech": mech, "arg": arg})
            if rng.random() < .25:
                hist.append(dict(hist[-1], m=rng.randint(1, count)))
            if rng.random() < .3:      # the same question again after the market has changed
                q = hist[-1]
                c = rng.randint(1, n)
                if sizes[q["m"] - 1][c - 1]:
                    hist.append({"op": "replace", "m": q["m"], "c": c, "top": rng.random() < .5,
                                 "v": 8 * rng.randint(1, rng.choice([12, 200])) * (1 if c == 1 else -1)})
                    hist.append(dict(q))
        elif op in ("drop", "replace"):
            c = rng.randint(1, n)
            if sizes[m - 1][c - 1]:
                hist.append({"op": op, "m": m, "c": c, "top": rng.random() < .5})
                if op == "replace":
                    hist[-1]["v"] = 8 * rng.randint(1, rng.choice([12, 200])) * (1 if c == 1 else -1)
                else:
                    sizes[m - 1][c - 1] -= 1
        elif op == "append":
            c = rng.randint(1, n)
            sizes[m - 1][c - 1] += 1
            hist.append({"op": op, "m": m, "c": c, "v": 8 * rng.randint(1, 12) * (1 if c == 1 else -1)})
        elif op in ("clone", "permute", "rename"):
            if count >= 6:
                continue
            count += 1
            sizes.append(list(sizes[m - 1]))
            hist.append({"op": op, "m": m})
        else:
            hist.append({"op": op, "m": m})
    return start, hist


ONES, TWO, TREE2 = [1, 1], [1, 2], [0, 1, 1, 1]
S2 = [[[72, 56, 48, 16], [-8, -24, -32, -64]], [[80, 40], [-8, -16, -80]]]
S3 = [[[160, 120, 56, 16], [-8, -24, -32], [-8, -16, -40]], [[80, 40], [-8, -16], [-8]]]
MODELS = [(S2, ["asc", "tr", "mc", "opt"], [ONES], 3, 64), (S2, ["asc", "opt", "tr0"], [TWO], 3, 64), (S2, ["tree", "int", "rt", "rti"], [TREE2], 3, 64),
          (S3, ["int", "tree", "rti"], [[0, 1, 1, 1, 1, 1]], 3, 88)]
DEEP = [(S2, ["asc", "tr", "mc", "opt"], [ONES], 4, 64), (S2, ["asc", "opt", "tr0"], [ONES, TWO], 3, 64), (S2, ["tree", "int", "rt", "rti"], [TREE2], 4, 64),
        (S3, ["int", "tree", "rti"], [[0, 1, 1, 1, 1, 1], [0, 1, 2, 1, 1, 1]], 3, 88)]


def _replay(args):
    cases, seed, known = args
    rng, ids = random.Random(seed), Ids()
    for k, a in known:
        ids.of(a)
    out = []
    for c in cases:
        out.append(run_history(c["start"], c["hist"], rng, ids)[0])
    return out, ids.d


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(s, tla.Job("MC_History", "MC_History", defs={"StartDef": s[0], "MechsDef": set(s[1]), "ArgsDef": "TLA:{%s}" % ",".join(tla.tla(a) for a in s[2]),
                                                          "DepthDef": s[3], "ExtraDef": s[4]}, timeout=3000, heap="4g")) for s in (DEEP if THOROUGH else MODELS)]
    todo = [gen(rng) for _ in range(2500 if THOROUGH else 320)]
    chk.count("random histories", len(todo))
    for s, j in jobs:
        r = j.get()
        chk.model("MC_History", r, dict(zip(("start", "mechanisms", "arguments", "depth", "appended"), s)))
        chk.count("histories of the specification replayed", len(r.cases))
        cs = r.cases if THOROUGH or len(r.cases) < 900 else rng.sample(r.cases, 900)
        todo += [(c["start"], c["hist"]) for c in cs]
    # the references, each history in a process of its own
    qs = [questions(*h) for h in todo]
    flat = {}
    for q in qs:
        for x in q:
            flat.setdefault(repr(x), x)
    allq = list(flat.values())
    rng.shuffle(allq)
    chunks = [allq[i::40] for i in range(40)]
    with multiprocessing.Pool(6, maxtasksperchild=1) as p:
        answers = p.map(reference, chunks, chunksize=1)
    ref = {}
    for c, a in zip(chunks, answers):
        for x, y in zip(c, a):
            ref[repr(x)] = y
    chk.count("questions asked in a separate process", len(allq))
    ids = Ids()
    recs, info = [], {}
    for i, (start, hist) in enumerate(todo):
        steps, outs = run_history(start, hist, rng, ids)
        cid = "h%d" % i
        recs.append({"id": cid, "start": [[sorted(c, reverse=True) for c in s] for s in start], "steps": steps,
                     "refs": [{"mech": a, "mkt": b, "arg": c, "ans": ids.of(ref[repr((a, b, c))])} for a, b, c in qs[i]]})
        info[cid] = (start, hist, outs)
        chk.count("calls", len(outs))
        chk.count("calls that made a deal", sum(bool(o.get("deals")) for o in outs))
        if sum(any(e["st"] == "hang" for e in r["steps"]) for r in recs[-3:]) == 3:
            break
    ver, st, di = tla.judge("Trace_History", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        v = ver[r["id"]]
        start, hist, outs = info[r["id"]]
        for f in v["fails"]:
            k = v["at"]
            e = r["steps"][k - 1]
            if f == "C13:error":       # raising or hanging is another property's business, unless a new market gives an answer
                q = [x for x in r["refs"] if e["o"]["op"] == "call" and x["mech"] == e["o"]["mech"] and x["arg"] == e["o"]["arg"]
                     and x["mkt"] == v["markets"][e["o"]["m"] - 1]]
                if q and q[0]["ans"] == e["ans"]:
                    continue
            chk.violation(f, {"start": start, "history": hist, "step": k, "observed": e, "outcomes": outs, "specified": v["markets"]},
                          "start %s, history %s, at step %d" % (start, hist[:k], k))
        chk.sample({"start": start, "history": hist}, cap=2)
    return chk.finish(assumptions=["outcomes are compared by the numbers they report (rounded to 1e-5), not by names or texts"])
