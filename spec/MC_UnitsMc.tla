---------------------------- MODULE MC_UnitsMc ----------------------------
(* The McAfee auction in two units at once, in lockstep. *)
EXTENDS Units, Outcome, Json
CONSTANT Spaces, EmitCases, Factors
VARIABLES bmkt, brec, bheur, brem, btrade, bout, bpc, dmkt, drec, dheur, drem, dtrade, dout, dpc, fac
bvars == <<bmkt, brec, bheur, brem, btrade, bout, bpc>>
dvars == <<dmkt, drec, dheur, drem, dtrade, dout, dpc>>
B == INSTANCE McAfee WITH mkt <- bmkt, rec <- brec, heur <- bheur, rem <- brem, trade <- btrade, out <- bout, pc <- bpc
D == INSTANCE McAfee WITH mkt <- dmkt, rec <- drec, heur <- dheur, rem <- drem, trade <- dtrade, out <- dout, pc <- dpc
Init == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E h \in BOOLEAN : \E f \in Factors :
           fac = f /\ B!McInit(m, sp.rec, h) /\ D!McInit(TimesMkt(f, m), sp.rec, h)
Next == B!McNext /\ D!McNext /\ UNCHANGED fac
Spec == Init /\ [][Next]_<<bvars, dvars, fac>>
InStep == /\ bpc = dpc /\ drem = TimesMkt(fac, brem) /\ dtrade = TimesDeals(fac, btrade) /\ dout = TimesOut(fac, bout)
Together == ENABLED B!McNext <=> ENABLED D!McNext
Emit == (EmitCases /\ bpc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, rec |-> brec, opt |-> bheur, fac |-> fac, out |-> bout, dout |-> dout]))
===========================================================================
