----------------------------- MODULE MC_Tr -----------------------------
EXTENDS TradeReduction, Json
CONSTANT Spaces, EmitCases
Inits == UNION {{<<m, sp.rec>> : m \in MarketsOf(sp)} : sp \in Spaces}
MCInit == \E x \in Inits : \E z \in BOOLEAN : TrInit(x[1], x[2], z)
Spec == MCInit /\ [][TrNext]_tvars
FairSpec == Spec /\ WF_tvars(TrNext)
Emit == (EmitCases /\ pc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> mkt, rec |-> rec, opt |-> zero, out |-> out]))
======================================================================
