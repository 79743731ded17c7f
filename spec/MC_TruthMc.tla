---------------------------- MODULE MC_TruthMc ----------------------------
(* Truthfulness as a self-composition of the mechanism: the same market is *)
(* run twice, the second time with one trader reporting another value.     *)
(* The trader's gain, at its true value, must not be larger in that run.   *)
(* Values lie on the even grid and false reports on the odd one, so that a *)
(* report never ties with another trader of the category.                  *)
EXTENDS Outcome, Json
CONSTANT Spaces, EmitCases

VARIABLES bmkt, brec, bheur, brem, btrade, bout, bpc, dmkt, drec, dheur, drem, dtrade, dout, dpc,
          cat, val, rep, turn
bvars == <<bmkt, brec, bheur, brem, btrade, bout, bpc>>
dvars == <<dmkt, drec, dheur, drem, dtrade, dout, dpc>>
B == INSTANCE McAfee WITH mkt <- bmkt, rec <- brec, heur <- bheur, rem <- brem, trade <- btrade, out <- bout, pc <- bpc
D == INSTANCE McAfee WITH mkt <- dmkt, rec <- drec, heur <- dheur, rem <- drem, trade <- dtrade, out <- dout, pc <- dpc

Distinct(s) == \A i \in 1..(Len(s) - 1) : s[i] > s[i + 1]
(* sp.side[i]: +1 buyers (positive values only), -1 sellers (negative only), 0 any *)
OnSide(sp, i, v) == v * sp.side[i] > 0 \/ sp.side[i] = 0
Markets(sp) == {m \in MarketsOf(sp) :
    \A i \in 1..Len(m) : Distinct(m[i]) /\ \A j \in 1..Len(m[i]) : OnSide(sp, i, m[i][j])}
Replace(m, c, v, r) == [m EXCEPT ![c] = SortDesc(Append(SelectSeq(@, LAMBDA x : x # v), r))]
(* reports between, below and above the values of the space *)
Reports(sp) == {v * sp.unit + (sp.unit \div 2) : v \in sp.vals \cup {SetMin(sp.vals) - 1}}
TruthInit == \E sp \in Spaces : \E m \in Markets(sp) : \E o \in BOOLEAN :
             \E c \in Relevant(sp.rec) : \E j \in 1..Len(m[c]) : \E r \in {x \in Reports(sp) : OnSide(sp, c, x)} :
               /\ cat = c /\ val = m[c][j] /\ rep = r /\ turn = 1
               /\ B!McInit(m, sp.rec, o) /\ D!McInit(Replace(m, c, m[c][j], r), sp.rec, o)
TruthNext == \/ turn = 1 /\ B!McNext /\ UNCHANGED <<dvars, cat, val, rep, turn>>
             \/ turn = 1 /\ bpc = "done" /\ turn' = 2 /\ UNCHANGED <<bvars, dvars, cat, val, rep>>
             \/ turn = 2 /\ D!McNext /\ UNCHANGED <<bvars, cat, val, rep, turn>>
Spec == TruthInit /\ [][TruthNext]_<<bvars, dvars, cat, val, rep, turn>>

Truthful == (turn = 2 /\ dpc = "done") =>
    FracLeq(UtilityOf(brec, dout, cat, rep, val), UtilityOf(brec, bout, cat, val, val), 0)
Emit == (EmitCases /\ turn = 2 /\ dpc = "done") =>
    PrintT("CASE" \o ToJson([mkt |-> bmkt, rec |-> brec, opt |-> bheur, out |-> bout, dmkt |-> dmkt, dout |-> dout,
                             cat |-> cat, val |-> val, rep |-> rep]))
==============================================================================
