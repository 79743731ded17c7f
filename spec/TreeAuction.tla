-------------------------- MODULE TreeAuction --------------------------
(* The ascending-price auction with a tree of recipes.  Clocks run in    *)
(* "weighted" prices q = (traders per deal) * price, which are integers: *)
(* along every path the q's sum to the same number, which must not pass  *)
(* zero.  In each round the clocks of a cut rise together by the largest *)
(* amount at which no clock passes its lowest trader and the sum stays   *)
(* at most zero; then in every category whose clock has reached its      *)
(* lowest trader that trader leaves.  The start is far below all values. *)
EXTENDS Trees

VARIABLES tree, mkt, start,
          rem,     \* traders still in, per category
          q,       \* weighted clock per node
          tie,     \* did two events coincide (matters to floating-point code with counts that are no powers of two)?
          rounds, pc
tvars == <<tree, mkt, start, rem, q, tie, rounds, pc>>

T == Len(tree.cat)
SizesOf(m) == [i \in 1..Len(m) |-> Len(m[i])]

TreeInit(t, m, s) ==
    /\ tree = t /\ mkt = m /\ start = s /\ rem = m /\ q = s
    /\ tie = FALSE /\ rounds = 0 /\ pc = "run"

PathSum(t, p, qq) == SumSeq([i \in 1..Len(p) |-> qq[p[i]]])
Total(qq) == PathSum(tree, Paths(tree)[1], qq)
Inf == 2000000000
RemOf(v) == rem[tree.cat[v]]
(* distance of the clock of v to its lowest trader *)
Dist(v) == IF RemOf(v) = <<>> THEN Inf ELSE LastOf(RemOf(v)) * tree.w[v] - q[v]

(* lowest trader reached, for a node with traders *)
Reached(v, qq) == RemOf(v) # <<>> /\ LastOf(RemOf(v)) * tree.w[v] <= qq[v]
Exactly(v, qq) == RemOf(v) # <<>> /\ LastOf(RemOf(v)) * tree.w[v] = qq[v]

StopEmpty ==
    /\ RemOf(1) = <<>>
    /\ pc' = "empty"
    /\ UNCHANGED <<tree, mkt, start, rem, q, tie, rounds>>

Round ==
    /\ RemOf(1) # <<>>
    /\ LET cut   == CutOf(tree, SizesOf(rem))
           inCut == {cut[i] : i \in 1..Len(cut)}
           dmin  == SetMin({Dist(v) : v \in inCut})
           room  == 0 - Total(q)
           d     == Min2(dmin, room)
           nq    == [v \in 1..T |-> IF v \in inCut THEN q[v] + d ELSE q[v]]
       IN  /\ q' = nq
           /\ rounds' = rounds + 1
           /\ IF d = room
              THEN /\ pc' = "zero" /\ UNCHANGED rem
                   /\ tie' = (tie \/ dmin = room)
              ELSE /\ UNCHANGED pc
                   /\ rem' = [c \in 1..Len(rem) |->
                                 IF \E v \in 1..T : tree.cat[v] = c /\ Reached(v, nq)
                                 THEN DropLast(rem[c]) ELSE rem[c]]
                   /\ tie' = (tie \/ Cardinality({v \in 1..T : Exactly(v, nq)}) > 1)
    /\ UNCHANGED <<tree, mkt, start>>

TreeNext == pc = "run" /\ (StopEmpty \/ Round)

----------------------------------------------------------------------
TDone == pc # "run"
TDeals == NumDeals(tree, SizesOf(rem), 1)
TGFT   == TreeOptGFT(tree, rem)
TOutcome == [deals |-> TDeals, gft |-> TGFT, cats |-> rem, q |-> q]

EqualSums == \A i \in 1..Len(Paths(tree)) : PathSum(tree, Paths(tree)[i], q) = Total(q)
SumAtMostZero == Total(q) <= 0
TreeSBB == (TDone /\ TDeals > 0) => \A i \in 1..Len(Paths(tree)) : PathSum(tree, Paths(tree)[i], q) = 0
(* whoever is still in accepts the price of its category; whoever left would not *)
TreeIR == \A v \in 1..T : \A j \in 1..Len(RemOf(v)) : RemOf(v)[j] * tree.w[v] >= q[v]
TreeTop == \A c \in 1..Len(mkt) : IsTopOf(rem[c], mkt[c])
TreeLeft == \A v \in 1..T : \A j \in (Len(RemOf(v)) + 1)..Len(mkt[tree.cat[v]]) : mkt[tree.cat[v]][j] * tree.w[v] <= q[v]
TreeBelowOpt == TDone => /\ TDeals <= TreeOptK(tree, mkt)
                         /\ TGFT <= TreeOptGFT(tree, mkt)
TreeAllTrade == (TDone /\ TDeals > 0) => TGFT = Best(tree, rem, 1)[TDeals + 1]
TreeCut == pc = "run" => IsCut(tree, CutOf(tree, SizesOf(rem)))
(* a trader leaves in every round but the last *)
TreeProgress == rounds <= SumSeq(SizesOf(mkt)) + 1
TreeFewer == (pc = "run" /\ rounds > 0) => SumSeq(SizesOf(rem)) + rounds <= SumSeq(SizesOf(mkt))
TreeMonotone == [][\A v \in 1..T : q'[v] >= q[v]]_tvars
TreeEnds == <>(pc # "run")

(* the canonical start: every path sums to -big * (largest path weight) *)
PathWeight(t, v) == SumSeq([i \in 1..Depth(t, v) |-> t.w[PathTo(t, v)[i]]])
CanonicalStart(t, big) ==
    LET top == SetMax({PathWeight(t, v) : v \in Nodes(t)})
    IN  [v \in 1..Len(t.cat) |-> IF IsLeaf(t, v) THEN 0 - big * (top - PathWeight(t, v) + t.w[v]) ELSE 0 - big * t.w[v]]
=======================================================================
