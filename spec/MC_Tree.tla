---------------------------- MODULE MC_Tree ----------------------------
(* sp = [tree, vals, n (sizes per category), start, big]; start = multiples of -big per node, or <<>> for the canonical start *)
EXTENDS TreeAuction, Json
CONSTANT Spaces, EmitCases
RECURSIVE Mk(_, _)
Mk(sp, i) == IF i = 0 THEN {<<>>}
             ELSE LET S == SortedSeqs(sp.vals, sp.n[i]) P == Mk(sp, i - 1) IN {Append(m, s) : m \in P, s \in S}
StartOf(sp) == IF sp.start = <<>> THEN CanonicalStart(sp.tree, sp.big) ELSE [i \in 1..Len(sp.start) |-> sp.start[i] * sp.big]
MCInit == \E sp \in Spaces : \E m \in Mk(sp, Len(sp.n)) : TreeInit(sp.tree, m, StartOf(sp))
Spec == MCInit /\ [][TreeNext]_tvars
FairSpec == Spec /\ WF_tvars(TreeNext)
Emit == (EmitCases /\ TDone) =>
    PrintT("CASE" \o ToJson([mkt |-> mkt, tree |-> tree, out |-> TOutcome, tie |-> tie]))
=======================================================================
