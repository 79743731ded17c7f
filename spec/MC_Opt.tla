---------------------------- MODULE MC_Opt ----------------------------
EXTENDS Optimal, Json
CONSTANT Spaces, EmitCases
MCInit == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E z \in BOOLEAN : \E l \in {0, 1, 2, 1000} : OptInit(m, sp.rec, z, l)
Spec == MCInit /\ [][OptNext]_ovars
FairSpec == Spec /\ WF_ovars(OptNext)
Emit == (EmitCases /\ Done) =>
    PrintT("CASE" \o ToJson([mkt |-> mkt, rec |-> rec, zero |-> zero, limit |-> limit, out |-> OptOutcome]))
=======================================================================
