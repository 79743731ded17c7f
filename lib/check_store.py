"""C14: categories and markets under histories of operations."""
import math, random
import tla
from check_base import Check, SEED, THOROUGH
from target import M, call, finite

BIG = 10 ** 9




class Objects:
    """The real objects of a history."""
    def __init__(self, rng, e=-3):
        self.cats, self.mkts, self.rng, self.e = [], [], rng, e       # recorded value v stands for v * 2^e

    def num(self, x):
        """The recorded number of a value of the library."""
        if x is None or not finite(x) or abs(x) > 10 ** 8:
            return BIG
        x = math.ldexp(x, -self.e)
        return int(x) if x == int(x) and abs(x) < BIG else BIG

    def val(self, v):
        if self.e == -3 and (v % 8 or self.rng.random() < .1):
            return v / 8
        return v // 8 if self.e == -3 else math.ldexp(v, self.e)

    def do(self, o):
        """-> (status, were the arguments left alone)"""
        A, Mk = M.agents.AgentCategory, M.markets.Market
        rng, op = self.rng, o["op"]
        mutable = []

        def lst(vs):
            l = [self.val(v) for v in vs]
            mutable.append((l, list(l)))
            return l

        def go():
            if op == "new":
                self.cats.append(A("c%d" % len(self.cats), lst(o["vs"])))
            elif op == "append":
                self.cats[o["k"] - 1].append(self.val(o["v"]))
            elif op == "extend":
                self.cats[o["k"] - 1].append(lst(o["vs"]))
            elif op == "pophigh":
                self.cats[o["k"] - 1].remove_highest_agent()
            elif op == "pophighs":
                self.cats[o["k"] - 1].remove_highest_agents(o["n"])
            elif op == "poplow":
                self.cats[o["k"] - 1].remove_lowest_agent()
            elif op == "clone":
                self.cats.append(self.cats[o["k"] - 1].clone())
            elif op == "market":
                self.mkts.append(Mk([c.clone() for c in self.cats]))
            elif op == "mappend":
                self.mkts[o["m"] - 1].append_trader(o["i"] - 1, self.val(o["v"]))
            elif op == "mps":
                ps = lst(o["vs"])
                self.mkts[o["m"] - 1].append_PS(tuple(ps) if rng.random() < .5 else ps)
            elif op == "mremove":
                self.mkts[o["m"] - 1].remove_highest_agents(list(o["vs"]))
            elif op == "mclone":
                self.mkts.append(self.mkts[o["m"] - 1].clone())
            elif op == "mempty":
                self.mkts.append(Mk(self.mkts[o["m"] - 1].empty_agent_categories()))
            elif op == "mtrade":
                self.mkts.append(self.mkts[o["m"] - 1].optimal_trade(list(o["vs"]))[1])
            else:
                raise KeyError(op)
        s, r = call(go)
        if s == "err" and op == "mps" and r.startswith("ValueError"):
            s = "refused"
        args = all(a == b for a, b in mutable)
        for a, _ in mutable:        # what the caller does to its own list later is its own business
            if rng.random() < .5:
                a.append(12345)
            elif a:
                a[0] = -54321
        return s, args

    def contents(self):
        num = self.num
        c = [[num(x) for x in c.values] for c in self.cats]
        m = [[[num(x) for x in c.values] for c in k.categories] for k in self.mkts]
        if sum(len(x) for x in c) + sum(len(y) for x in m for y in x) > 20000:
            raise ValueError
        return c, m

    def answers(self, q, rec):
        num, cq, mq = self.num, [], []
        for c in self.cats:
            hs = c.highest_agent_values(q)
            a = {"size": c.size(), "high": [num(c.highest_agent_value())] if len(c) else [], "low": [num(c.lowest_agent_value())] if c.size() else [],
                 "highs": [num(x) for x in hs]}
            hs.append(777)          # the answer is the caller's
            cq.append(a)
        for m in self.mkts:
            n = len(m.categories)
            b = m.get_highest_agents(rec if len(rec) == n else [1] * n)
            mq.append({"best": [[num(x) for x in b]] if b is not None else [], "hasempty": bool(m.has_empty_category()), "n": m.num_categories})
        return cq, mq


def run_history(cid, hist, rng):
    obj = Objects(rng, rng.choice([-3] * 8 + [-13, -20, 5]))
    steps = []
    rec = {"id": cid, "steps": steps}
    for o in hist:
        s, args = obj.do(o)
        q, r = rng.choice([0, 1, 2, 3, 7]), rng.choice([[1, 1], [1, 2], [2, 0], [3, 1], [1, 1, 1], [1, 0, 2]])
        e = {"o": o, "st": s, "args": args, "cats": [], "mkts": [], "cq": [], "mq": [], "q": q, "rec": r}
        if s in ("ok", "refused"):
            s2, c = call(lambda: (obj.contents(), obj.answers(q, r), obj.contents()))
            if s2 == "ok":
                (e["cats"], e["mkts"]), (e["cq"], e["mq"]), again = c
                if again != (e["cats"], e["mkts"]):
                    e["cq"] = []       # a query changed what is held
                    e["st"] = "querychanges"
            else:
                e["st"] = s2
        steps.append(e)
        if e["st"] not in ("ok", "refused"):
            break
    return rec


def gen_history(rng, n):
    """A random legal history (sizes are tracked to stay legal)."""
    vals = rng.choice([[8, 16], [-8, 0, 8], list(range(-40, 41, 4)), [x * 8 for x in range(-300, 301)]])
    cats, mkts, hist = [], [], []
    many = n < 20 and rng.random() < .06          # categories of hundreds of traders
    if many:
        vals = list(range(-600, 601))
    pick = lambda: [rng.choice(vals) for _ in range(rng.choice([30, 45, 105, 230]) if many and len(cats) < 3 and rng.random() < .7 else rng.choice([0, 1, 1, 2, 3, 5, 9]))]
    while len(hist) < n:
        op = rng.choice(["new", "append", "append", "extend", "pophigh", "pophighs", "poplow", "clone", "market", "mappend", "mappend", "mps", "mps",
                         "mremove", "mclone", "mempty", "mtrade"])
        if op == "new":
            if len(cats) >= 4:
                continue
            v = pick()
            cats.append(sorted(v, reverse=True))
            hist.append({"op": op, "vs": v})
        elif op == "market":
            if not cats or len(mkts) >= 4:
                continue
            mkts.append([list(c) for c in cats])
            hist.append({"op": op})
        elif op[0] == "m":
            if not mkts:
                continue
            k = rng.randrange(len(mkts))
            m = mkts[k]
            o = {"op": op, "m": k + 1}
            if op == "mappend":
                i = rng.randrange(len(m))
                o.update(i=i + 1, v=rng.choice(vals))
                m[i] = sorted(m[i] + [o["v"]], reverse=True)
            elif op == "mps":
                o["vs"] = [rng.choice(vals) for _ in range(len(m) if rng.random() < .75 else rng.choice([0, 1, 2, 3, 4, 5]))]
                if len(o["vs"]) == len(m):
                    for i, v in enumerate(o["vs"]):
                        m[i] = sorted(m[i] + [v], reverse=True)
            elif op == "mremove":
                o["vs"] = [rng.randint(0, min(3, len(c))) for c in m]
                for c, r in zip(m, o["vs"]):
                    del c[:r]
            elif len(mkts) >= 4:
                continue
            elif op == "mclone":
                mkts.append([list(c) for c in m])
            elif op == "mempty":
                mkts.append([[] for _ in m])
            elif op == "mtrade":
                o["vs"] = [rng.choice([1, 1, 2]) for _ in m]
                c = [list(x) for x in m]
                while all(len(x) >= r for x, r in zip(c, o["vs"])) and sum(sum(x[:r]) for x, r in zip(c, o["vs"])) >= 0:
                    for x, r in zip(c, o["vs"]):
                        del x[:r]
                mkts.append(c)
            hist.append(o)
        else:
            if not cats:
                continue
            k = rng.randrange(len(cats))
            c = cats[k]
            o = {"op": op, "k": k + 1}
            if op == "append":
                o["v"] = rng.choice(vals)
                c.append(o["v"])
            elif op == "extend":
                o["vs"] = pick()
                c.extend(o["vs"])
            elif op == "clone":
                if len(cats) >= 4:
                    continue
                cats.append(list(c))
            elif op == "pophighs":
                o["n"] = rng.randint(0, min(3, len(c)))
                del c[:o["n"]]
            elif not c:
                continue
            elif op == "pophigh":
                del c[0]
            else:
                del c[-1]
            c.sort(reverse=True)
            hist.append(o)
    return hist


SPACES = [("cats", 4, "{16, 8}", "{<<8, 16>>, <<>>}"), ("mkts", 3, "{16, -24}", "{<<>>}")]
DEEP = [("cats", 5, "{16, 8}", "{<<8, 16>>, <<>>}"), ("cats", 4, "{16, 8, -8}", "{<<8, 16>>, <<>>, <<-8, 16, 8>>}"), ("mkts", 4, "{16, -24}", "{<<>>}")]


def run(pid):
    chk = Check(pid)
    rng = random.Random("%s/%d" % (pid, SEED))
    jobs = [(s, tla.Job("MC_Store", "MC_Store", defs={"FocusDef": s[0], "DepthDef": s[1], "ValsDef": "TLA:" + s[2], "ListsDef": "TLA:" + s[3]},
                        timeout=3000, heap="4g")) for s in (DEEP if THOROUGH else SPACES)]
    recs, hists = [], {}
    for i in range(4000 if THOROUGH else 500):
        h = gen_history(rng, rng.choice([3, 8, 15, 30]))
        cid = "h%d" % i
        recs.append(run_history(cid, h, rng))
        hists[cid] = h
        chk.count("random histories")
        chk.count("operations in random histories", len(recs[-1]["steps"]))
        chk.count("refused procurement-sets", sum(e["st"] == "refused" for e in recs[-1]["steps"]))
    for s, j in jobs:
        r = j.get()
        chk.model("MC_Store", r, dict(zip(("focus", "depth", "values", "lists"), s)))
        n = 0
        for c in r.cases:
            rec = run_history("m%d" % len(recs), c["hist"], rng)
            n += 1
            last = rec["steps"][-1]
            if len(rec["steps"]) == len(c["hist"]) and all(e["args"] and e["st"] == ("ok" if e["o"]["op"] != "mps" or len(e["o"]["vs"]) == 2 else "refused") for e in rec["steps"]) \
                    and last["cats"] == c["st"]["cats"] and last["mkts"] == c["st"]["mkts"] and n % 25:
                continue       # ends as in the specification (every 25th is judged step by step as well)
            if len(recs) < 6000:
                hists[rec["id"]] = c["hist"]
                recs.append(rec)
        chk.validated += n
        chk.count("histories of the specification replayed", n)
    ver, st, di = tla.judge("Trace_Store", recs, shards=7, timeout=3000)
    chk.traces(len(recs), st, di)
    for r in recs:
        v = ver[r["id"]]
        for f in v["fails"]:
            if f.startswith("harness"):
                raise tla.MachineryError("illegal history %s at %s" % (hists[r["id"]], v["at"]))
            k = v["at"]
            chk.violation(f, {"history": hists[r["id"]], "step": k, "observed": r["steps"][k - 1], "specified": v["store"]},
                          "after %s: %s, specified %s" % (hists[r["id"]][:k], {x: r["steps"][k - 1][x] for x in ("st", "cats", "mkts")}, v["store"]))
        chk.sample({"history": hists[r["id"]]}, cap=3)
    return chk.finish(assumptions=["only legal histories: traders are removed where there are some; categories are operated on through the object that owns them"])
