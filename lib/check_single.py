"""Checks C01-C03 and C06-C11 (and the single-recipe part of C15 and C27)."""
import itertools, random
import single, tla, target
from check_base import Check, SEED, THOROUGH

USES = {"C01": ["asc", "tr"], "C02": ["mc"], "C03": ["asc", "tr", "mc"], "C06": ["asc", "tr", "mc"],
        "C07": ["asc", "tr", "mc"], "C08": ["asc", "tr", "mc"], "C09": ["mc"], "C10": ["tr"], "C11": ["asc"],
        "C15": ["asc", "tr", "mc"], "C27": ["asc", "tr", "mc"]}
TITLES = {"asc": "ascending auction", "tr": "trade reduction", "mc": "McAfee"}


def sp(rec, lo, hi, n, unit):
    return {"rec": rec, "vals": "R%d..%d" % (lo, hi), "n": n, "unit": unit}


SPACES = {
    "asc": [sp([1, 1], -3, 3, [3, 3], 1), sp([1, 2], -2, 2, [2, 4], 2), sp([1, 1, 1], -1, 2, [2, 2, 2], 1),
            sp([2, 3], -1, 2, [3, 3], 6), sp([1, 0, 1], -2, 2, [2, 1, 2], 1)],
    "tr": [sp([1, 1], -2, 2, [3, 3], 1), sp([1, 2], -1, 2, [2, 4], 2), sp([1, 1, 1], -1, 2, [2, 1, 2], 1),
           sp([2, 1, 1], -1, 1, [3, 2, 1], 2), sp([1, 0, 1], -1, 1, [2, 1, 2], 1)],
    "mc": [sp([1, 1], -3, 3, [3, 3], 2), sp([1, 1, 1], -1, 2, [2, 2, 1], 3)],
}
DEEP = {
    "asc": [sp([1, 1], -4, 4, [4, 4], 1), sp([1, 2], -3, 3, [3, 5], 2), sp([2, 1], -3, 3, [4, 3], 2), sp([1, 1, 1], -2, 2, [3, 2, 2], 1),
            sp([2, 3], -2, 2, [4, 4], 6), sp([1, 2, 1], -2, 2, [2, 3, 2], 2), sp([1, 0, 2], -2, 2, [3, 1, 4], 2),
            sp([1, 1, 1, 1], -1, 2, [2, 1, 2, 1], 1)],
    "tr": [sp([1, 1], -3, 3, [4, 3], 1), sp([1, 2], -2, 2, [3, 4], 2), sp([2, 1], -2, 2, [4, 3], 2), sp([1, 1, 1], -2, 2, [2, 2, 2], 1),
           sp([2, 3], -2, 2, [4, 4], 6), sp([1, 2, 1], -1, 2, [2, 3, 2], 2), sp([1, 0, 2], -2, 2, [2, 1, 4], 2),
           sp([1, 1, 1, 1], -1, 1, [2, 1, 2, 1], 1)],
    "mc": [sp([1, 1], -4, 4, [4, 4], 2), sp([1, 1, 1], -2, 2, [2, 2, 2], 3), sp([1, 1, 1, 1], -1, 1, [2, 1, 2, 1], 4)],
}


def tla_spaces(s):
    lo, hi = s["vals"][1:].split("..")
    return "TLA:{[rec |-> %s, vals |-> (%s)..%s, unit |-> %d, n |-> %s]}" % (tla.tla(s["rec"]), lo, hi, s["unit"], tla.tla(s["n"]))


def start_models(kinds, deep=False):
    jobs = []
    for k in kinds:
        for s in (DEEP if deep else SPACES)[k]:
            jobs.append((k, s, tla.Job("MC_" + single.MOD[k], "MC_" + single.MOD[k], defs={"SpacesDef": tla_spaces(s)},
                                       workers=2 if deep else 1, timeout=3000, heap="6g" if deep else "2g")))
    return jobs


def collect(pid, chk, kinds, n_random, seed_tag, deep=False, replays=True, models=True):
    """Model checking, replay of the enumerated behaviours, and judged random runs. -> judged records"""
    rng = random.Random("%s/%s/%d" % (pid, seed_tag, SEED))
    jobs = start_models(kinds, deep) if models else []
    recs, info = [], {}
    for k in kinds:
        cases = single.special_cases(k) + [single.gen_case(rng, k) for _ in range(n_random // len(kinds))]
        hangs = 0
        for i, c in enumerate(cases):
            obs = single.execute(c)
            cid = "%s-%d" % (k, i)
            r = single.encode(cid, k, c["values"], c["rec"], c["opt"], obs)
            if r is None:
                continue
            r["kind"] = k
            recs.append(r)
            info[cid] = dict(c, got=obs)
            chk.count("%s runs" % TITLES[k])
            if obs["st"] == "ok" and obs["deals"]:
                chk.count("%s runs with a trade" % TITLES[k])
            if obs["st"] == "hang":
                hangs += 1
                if hangs >= 3:
                    break
    # the behaviours of the specification, replayed
    byk = {}
    for k, s, j in jobs:
        r = j.get()
        chk.model("MC_%s" % single.MOD[k], r, s)
        for c in r.cases:
            c["unit"] = s["unit"]
        byk.setdefault(k, []).extend(r.cases)
    for k, cases in byk.items():
        if not replays:
            continue
        diff, n = single.replay(k, cases)
        chk.validated += n
        chk.count("%s behaviours of the specification replayed" % TITLES[k], n)
        for i, (c, values, obs) in enumerate(diff[:300]):
            cid = "%s-r%d" % (k, i)
            r = single.encode(cid, k, values, c["rec"], c["opt"], obs)
            r["kind"] = k
            recs.append(r)
            info[cid] = {"kind": k, "values": values, "rec": c["rec"], "opt": c["opt"], "got": obs}
    out = []
    for k in kinds:
        mine = [r for r in recs if r["kind"] == k]
        ver, st, di = tla.judge("Trace_" + single.MOD[k], mine, shards=max(2, 6 // len(kinds) + 1), timeout=3000)
        chk.traces(len(mine), st, di)
        for r in mine:
            out.append((info[r["id"]], r, ver[r["id"]]))
    return out


def report(chk, pid, judged):
    for c, r, v in judged:
        for f in v["fails"]:
            if f.startswith(pid + ":"):
                chk.violation(f, {"market": c["values"], "recipe": c["rec"], "mechanism": c["kind"], "option": c["opt"],
                                  "names": c.get("names"), "scale": c.get("scale", 0), "got": c["got"], "specified": v["want"], "encoded": r},
                              "%s %s %s -> %s" % (c["kind"], c["values"], c["rec"], c["got"]))
    for c, r, v in judged:
        if r["st"] == "ok" and r["deals"] > 0:
            chk.sample({"mechanism": c["kind"], "market": c["values"], "recipe": c["rec"], "option": c["opt"],
                        "outcome": {k: c["got"][k] for k in ("deals", "cats", "prices", "gft")}})


def run(pid):
    chk = Check(pid)
    kinds = USES[pid]
    judged = collect(pid, chk, kinds, (8000 if THOROUGH else 1500) * len(kinds), "quick", deep=THOROUGH)
    report(chk, pid, judged)
    return chk.finish(assumptions=["values are numbers whose integer encoding fits 32 bits (magnitudes up to 2e6)",
                                   "agents' absolute values stay far below the library's bound 1e8 (MAX_VALUE)"])
