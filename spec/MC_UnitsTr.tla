---------------------------- MODULE MC_UnitsTr ----------------------------
(* The trade reduction in two units at once, in lockstep. *)
EXTENDS Units, Outcome, Json
CONSTANT Spaces, EmitCases, Factors
VARIABLES bmkt, brec, bzero, brem, btrade, bqueue, bpivots, bkept, bprices, bfound, bout, bpc, dmkt, drec, dzero, drem, dtrade, dqueue, dpivots, dkept, dprices, dfound, dout, dpc, fac
bvars == <<bmkt, brec, bzero, brem, btrade, bqueue, bpivots, bkept, bprices, bfound, bout, bpc>>
dvars == <<dmkt, drec, dzero, drem, dtrade, dqueue, dpivots, dkept, dprices, dfound, dout, dpc>>
B == INSTANCE TradeReduction WITH mkt <- bmkt, rec <- brec, zero <- bzero, rem <- brem, trade <- btrade, queue <- bqueue, pivots <- bpivots, kept <- bkept, prices <- bprices, found <- bfound, out <- bout, pc <- bpc
D == INSTANCE TradeReduction WITH mkt <- dmkt, rec <- drec, zero <- dzero, rem <- drem, trade <- dtrade, queue <- dqueue, pivots <- dpivots, kept <- dkept, prices <- dprices, found <- dfound, out <- dout, pc <- dpc
Init == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E z \in BOOLEAN : \E f \in Factors :
           fac = f /\ B!TrInit(m, sp.rec, z) /\ D!TrInit(TimesMkt(f, m), sp.rec, z)
Next == B!TrNext /\ D!TrNext /\ UNCHANGED fac
Spec == Init /\ [][Next]_<<bvars, dvars, fac>>
InStep == /\ bpc = dpc /\ drem = TimesMkt(fac, brem) /\ dtrade = TimesDeals(fac, btrade) /\ dqueue = TimesDeals(fac, bqueue)
          /\ dpivots = [i \in 1..Len(bpivots) |-> <<bpivots[i][1], fac * bpivots[i][2]>>]
          /\ dkept = TimesMkt(fac, bkept) /\ dprices = TimesSeq(fac, bprices) /\ dfound = bfound /\ dout = TimesOut(fac, bout)
Together == ENABLED B!TrNext <=> ENABLED D!TrNext
Emit == (EmitCases /\ bpc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, rec |-> brec, opt |-> bzero, fac |-> fac, out |-> bout, dout |-> dout]))
===========================================================================
