---------------------------- MODULE MC_UnitsOpt ----------------------------
(* The optimal trade in two units at once, in lockstep. *)
EXTENDS Units, Json
CONSTANT Spaces, EmitCases, Factors
VARIABLES bmkt, brec, bzero, blimit, borem, bdeals, bpc, dmkt, drec, dzero, dlimit, dorem, ddeals, dpc, fac
bvars == <<bmkt, brec, bzero, blimit, borem, bdeals, bpc>>
dvars == <<dmkt, drec, dzero, dlimit, dorem, ddeals, dpc>>
B == INSTANCE Optimal WITH mkt <- bmkt, rec <- brec, zero <- bzero, limit <- blimit, orem <- borem, deals <- bdeals, pc <- bpc
D == INSTANCE Optimal WITH mkt <- dmkt, rec <- drec, zero <- dzero, limit <- dlimit, orem <- dorem, deals <- ddeals, pc <- dpc
Init == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E z \in BOOLEAN : \E f \in Factors :
           fac = f /\ B!OptInit(m, sp.rec, z, 1000) /\ D!OptInit(TimesMkt(f, m), sp.rec, z, 1000)
Next == B!OptNext /\ D!OptNext /\ UNCHANGED fac
Spec == Init /\ [][Next]_<<bvars, dvars, fac>>
InStep == bpc = dpc /\ dorem = TimesMkt(fac, borem) /\ ddeals = TimesDeals(fac, bdeals)
Together == ENABLED B!OptNext <=> ENABLED D!OptNext
Emit == (EmitCases /\ bpc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, rec |-> brec, zero |-> bzero, fac |-> fac, out |-> B!OptOutcome, dout |-> D!OptOutcome]))
============================================================================
