---------------------------- MODULE MC_UnitsAsc ----------------------------
(* The ascending auction in two units at once, in lockstep. *)
EXTENDS Units, Outcome, Json
CONSTANT Spaces, EmitCases, Factors
VARIABLES bmkt, brec, brem, bclock, bisset, bout, bpc, dmkt, drec, drem, dclock, disset, dout, dpc, fac
bvars == <<bmkt, brec, brem, bclock, bisset, bout, bpc>>
dvars == <<dmkt, drec, drem, dclock, disset, dout, dpc>>
B == INSTANCE Ascending WITH mkt <- bmkt, rec <- brec, rem <- brem, clock <- bclock, isset <- bisset, out <- bout, pc <- bpc
D == INSTANCE Ascending WITH mkt <- dmkt, rec <- drec, rem <- drem, clock <- dclock, isset <- disset, out <- dout, pc <- dpc
Init == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E f \in Factors :
           fac = f /\ B!AscInit(m, sp.rec) /\ D!AscInit(TimesMkt(f, m), sp.rec)
Next == B!AscNext /\ D!AscNext /\ UNCHANGED fac
Spec == Init /\ [][Next]_<<bvars, dvars, fac>>
InStep == /\ bpc = dpc /\ drem = TimesMkt(fac, brem) /\ disset = bisset
          /\ dclock = TimesSeq(fac, bclock) /\ dout = TimesOut(fac, bout)
(* neither can go on without the other *)
Together == ENABLED B!AscNext <=> ENABLED D!AscNext
Emit == (EmitCases /\ bpc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, rec |-> brec, opt |-> TRUE, fac |-> fac, out |-> bout, dout |-> dout]))
============================================================================
