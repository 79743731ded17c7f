"""Setup: nothing is compiled; checks that TLC and the implementation are usable."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import tla, target
r = tla.run("MC_Asc", "MC_Asc", defs={"SpacesDef": "TLA:{[rec |-> <<1, 1>>, vals |-> 0..1, unit |-> 1, n |-> <<1, 1>>]}"}, timeout=120)
assert r.distinct > 0 and not r.violated
target.M.agents, target.M.markets
print("TLC runs (%d states); implementation loads from %s" % (r.distinct, target.REPO))
