--------------------------- MODULE MC_UnitsTree ---------------------------
(* The recipe-tree auction in two units at once, in lockstep; the very low *)
(* start is scaled as well.                                               *)
EXTENDS Units, Trees, Json
CONSTANT Spaces, EmitCases, Factors
VARIABLES btree, bmkt, bstart, brem, bq, btie, brounds, bpc, dtree, dmkt, dstart, drem, dq, dtie, drounds, dpc, fac
bvars == <<btree, bmkt, bstart, brem, bq, btie, brounds, bpc>>
dvars == <<dtree, dmkt, dstart, drem, dq, dtie, drounds, dpc>>
B == INSTANCE TreeAuction WITH tree <- btree, mkt <- bmkt, start <- bstart, rem <- brem, q <- bq, tie <- btie, rounds <- brounds, pc <- bpc
D == INSTANCE TreeAuction WITH tree <- dtree, mkt <- dmkt, start <- dstart, rem <- drem, q <- dq, tie <- dtie, rounds <- drounds, pc <- dpc
RECURSIVE Mk(_, _)
Mk(sp, i) == IF i = 0 THEN {<<>>}
             ELSE LET S == SortedSeqs(sp.vals, sp.n[i]) P == Mk(sp, i - 1) IN {Append(m, s) : m \in P, s \in S}
StartOf(sp) == IF sp.start = <<>> THEN B!CanonicalStart(sp.tree, sp.big) ELSE [i \in 1..Len(sp.start) |-> sp.start[i] * sp.big]
Init == \E sp \in Spaces : \E m \in Mk(sp, Len(sp.n)) : \E f \in Factors :
           fac = f /\ B!TreeInit(sp.tree, m, StartOf(sp)) /\ D!TreeInit(sp.tree, TimesMkt(f, m), TimesSeq(f, StartOf(sp)))
Next == B!TreeNext /\ D!TreeNext /\ UNCHANGED fac
Spec == Init /\ [][Next]_<<bvars, dvars, fac>>
(* an exhausted category only moves with others or at the end: its distance is infinite in both units *)
InStep == bpc = dpc /\ drem = TimesMkt(fac, brem) /\ dq = TimesSeq(fac, bq) /\ dtie = btie
Together == ENABLED B!TreeNext <=> ENABLED D!TreeNext
Emit == (EmitCases /\ B!TDone) =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, tree |-> btree, fac |-> fac, out |-> B!TOutcome, dout |-> D!TOutcome, tie |-> btie]))
===========================================================================
