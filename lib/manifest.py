"""Rewrites /verif/MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -W ignore check.py "
NOTE = ("TLC explores the specification exhaustively within small constants (every property is an invariant or step property of it); "
        "the enumerated behaviours are replayed into the code of /repo, and recorded runs (random, unusual, larger inputs) are judged "
        "by TLC against the trace specification. Trusts TLC, the Python harness that records public results, and 1/u integer encoding; "
        "beyond the model's constants the assurance is that of the judged runs.")


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in registry.CHECKS:
            checks.append({"property": i, "quick_cmd": PY + i, "thorough_cmd": "VERIF_TIER=thorough " + PY + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": registry.TECHNIQUE.get(i, "TLA+ specification checked by TLC; behaviours replayed and recorded runs trace-checked"),
                           "level": "model_checking", "level_note": registry.NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": registry.REASONS.get(i, "check under construction")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore lib/setup.py",
         "checks": checks, "not_applicable": na,
         "notes": "Specifications in spec/ (TLA+, TLC). check.py <id> runs one check. No hooks in /repo are needed: only public results are observed."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
