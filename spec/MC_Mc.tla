----------------------------- MODULE MC_Mc -----------------------------
EXTENDS McAfee, Json
CONSTANT Spaces, EmitCases
Inits == UNION {{<<m, sp.rec>> : m \in MarketsOf(sp)} : sp \in Spaces}
MCInit == \E x \in Inits : \E h \in BOOLEAN : McInit(x[1], x[2], h)
Spec == MCInit /\ [][McNext]_mvars
FairSpec == Spec /\ WF_mvars(McNext)
Emit == (EmitCases /\ pc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> mkt, rec |-> rec, opt |-> heur, out |-> out]))
McNoDeficit2 == N = 2 => McNoDeficit
======================================================================
