"""What every check does with its results: evidence, violations, known findings, exit code."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


def known_findings():
    """The 'finding: {json}' lines of known_findings.txt ('fixed: ...' lines suppress nothing)."""
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return []
    return [json.loads(l[len("finding:"):]) for l in open(path) if l.startswith("finding:")]


class Check:
    def __init__(self, pid):
        import tla
        tla.PID = pid
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = 0
        self.validated = 0
        self.mc_runs, self.samples, self.viol, self.notes = [], [], [], []
        self.counts = {}
        self.clauses = {}

    # -- the specification side
    def model(self, name, result, what):
        """Account for a TLC model-checking run. A violated invariant of the specification is an error of ours."""
        if result.violated:
            from tla import MachineryError
            raise MachineryError("specification %s does not have the property: %s\n%s" % (name, result.violated, result.text[-3000:]))
        self.states += result.distinct
        self.transitions += result.states
        self.mc_runs.append({"model": name, "what": what, "distinct_states": result.distinct,
                             "states_generated": result.states, "wall_s": round(result.wall, 1)})

    # -- the implementation side
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def traces(self, n, states=0, distinct=0):
        self.validated += n
        self.transitions += states
        self.states += distinct

    def sample(self, case, cap=4):
        if len(self.samples) < cap:
            self.samples.append(case)

    def violation(self, clause, case, detail=""):
        self.viol.append({"property": self.pid, "clause": clause, "detail": detail, "case": case})

    def finish(self, level="model_checking", assumptions=(), extra=None):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        known = [k for k in known_findings() if k["property"] == self.pid]
        new, seen_known = [], {}
        for v in self.viol:
            hit = next((k for k in known if k["clause"] == v["clause"] and k["match"] == v["case"].get("finding_key")), None)
            if hit:
                seen_known[hit["id"]] = hit
            else:
                new.append(v)
        for h in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, h["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated,
               "samples": self.samples, "model_runs": self.mc_runs, "driver_counts": self.counts}
        if extra:
            cov.update(extra)
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": level, "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shown = 0
        for i, v in enumerate(new):
            path = os.path.join(EVID, "replay", "%s_%d.json" % (self.pid, i))
            if i < 20:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
            if shown < 5:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  clause %s  %s" % (v["clause"], str(v["detail"])[:300]))
                shown += 1
        print("%s %s: %s; %d states, %d transitions, %d implementation runs validated, %.1fs" % (
            self.pid, TIER, "VIOLATED (%d)" % len(new) if new else "held", self.states, self.transitions,
            self.validated, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if new else 0
