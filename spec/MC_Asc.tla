---------------------------- MODULE MC_Asc ----------------------------
(* Exhaustive model: every market of the listed search spaces. *)
EXTENDS Ascending, Json
CONSTANT Spaces, EmitCases
Inits == UNION {{<<m, sp.rec>> : m \in MarketsOf(sp)} : sp \in Spaces}
MCInit == \E x \in Inits : AscInit(x[1], x[2])
Spec == MCInit /\ [][AscNext]_avars
FairSpec == Spec /\ WF_avars(AscNext)
Emit == (EmitCases /\ pc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> mkt, rec |-> rec, opt |-> TRUE, out |-> out]))
======================================================================
