--------------------------- MODULE MC_TruthTree ---------------------------
(* Self-composition of the recipe-tree auction: the same market, with one  *)
(* trader reporting another value.  Markets as in MC_Tree; values on the   *)
(* even grid, reports on the odd one.                                      *)
EXTENDS Trees, Json
CONSTANT Spaces, EmitCases
VARIABLES btree, bmkt, bstart, brem, bq, btie, brounds, bpc, dtree, dmkt, dstart, drem, dq, dtie, drounds, dpc, cat, val, rep, turn
bvars == <<btree, bmkt, bstart, brem, bq, btie, brounds, bpc>>
dvars == <<dtree, dmkt, dstart, drem, dq, dtie, drounds, dpc>>
B == INSTANCE TreeAuction WITH tree <- btree, mkt <- bmkt, start <- bstart, rem <- brem, q <- bq, tie <- btie, rounds <- brounds, pc <- bpc
D == INSTANCE TreeAuction WITH tree <- dtree, mkt <- dmkt, start <- dstart, rem <- drem, q <- dq, tie <- dtie, rounds <- drounds, pc <- dpc

Distinct(s) == \A i \in 1..(Len(s) - 1) : s[i] > s[i + 1]
RECURSIVE Mk(_, _)
Mk(sp, i) == IF i = 0 THEN {<<>>}
             ELSE LET S == {s \in SortedSeqs({2 * v : v \in sp.vals}, sp.n[i]) : Distinct(s)} P == Mk(sp, i - 1) IN {Append(m, s) : m \in P, s \in S}
StartOf(sp) == IF sp.start = <<>> THEN B!CanonicalStart(sp.tree, sp.big) ELSE [i \in 1..Len(sp.start) |-> sp.start[i] * sp.big]
Replace(m, c, v, r) == [m EXCEPT ![c] = SortDesc(Append(SelectSeq(@, LAMBDA x : x # v), r))]
Reports(sp) == {2 * v + 1 : v \in sp.vals \cup {SetMin(sp.vals) - 1}}
Init == \E sp \in Spaces : \E m \in Mk(sp, Len(sp.n)) : \E v \in Nodes(sp.tree) : \E j \in 1..Len(m[sp.tree.cat[v]]) : \E r \in Reports(sp) :
           LET c == sp.tree.cat[v] IN
           /\ cat = c /\ val = m[c][j] /\ rep = r /\ turn = 1
           /\ B!TreeInit(sp.tree, m, StartOf(sp)) /\ D!TreeInit(sp.tree, Replace(m, c, m[c][j], r), StartOf(sp))
Next == \/ turn = 1 /\ B!TreeNext /\ UNCHANGED <<dvars, cat, val, rep, turn>>
        \/ turn = 1 /\ B!TDone /\ turn' = 2 /\ UNCHANGED <<bvars, dvars, cat, val, rep>>
        \/ turn = 2 /\ D!TreeNext /\ UNCHANGED <<bvars, cat, val, rep, turn>>
Spec == Init /\ [][Next]_<<bvars, dvars, cat, val, rep, turn>>

Both == turn = 2 /\ D!TDone
NodeOf(t, c) == CHOOSE v \in Nodes(t) : t.cat[v] = c
InB == CountIn(brem[cat], val) > 0
InD == CountIn(drem[cat], rep) > 0
(* whoever is out when truthful only gets in at a price not below its value *)
OutStaysOut == (Both /\ ~InB /\ InD /\ D!TDeals > 0) => dq[NodeOf(dtree, cat)] >= val * dtree.w[NodeOf(dtree, cat)]
(* whoever is in both times faces the same prices and numbers *)
InSameTerms == (Both /\ InB /\ InD) =>
    /\ dq = bq
    /\ \A v \in Nodes(btree) : Len(drem[btree.cat[v]]) = Len(brem[btree.cat[v]])
    /\ D!TDeals = B!TDeals
Emit == (EmitCases /\ Both) => PrintT("CASE" \o ToJson([tree |-> btree, mkt |-> bmkt, out |-> B!TOutcome, tie |-> btie, dmkt |-> dmkt, dout |-> D!TOutcome,
                                          cat |-> cat, val |-> val, rep |-> rep]))
===========================================================================
