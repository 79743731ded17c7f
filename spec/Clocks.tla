----------------------------- MODULE Clocks -----------------------------
(* Price clocks.  A vector holds one price per category; a recipe counts *)
(* how often each price enters the price-sum (weights w[i] >= 0).        *)
(* Prices are integers in a unit fine enough for every balancing price.  *)
EXTENDS Trees

Weighted(w, p) == SumSeq([i \in 1..Len(w) |-> w[i] * p[i]])
Without(w, p, c) == SumSeq([i \in 1..Len(w) |-> IF i = c THEN 0 ELSE w[i] * p[i]])

(* One clock rises to x, or to where the sum hits the bound b.            *)
(* Legal when x is not below the price, the sum is not above the bound,   *)
(* and a clock outside the recipe rises only while the sum is below it.   *)
LegalRaise(w, p, c, x, b) == /\ x >= p[c] /\ Weighted(w, p) <= b
                             /\ w[c] = 0 => Weighted(w, p) < b
RaiseHits(w, p, c, x, b) == Without(w, p, c) + w[c] * x >= b
AfterRaise(w, p, c, x, b) ==
    [p EXCEPT ![c] = IF RaiseHits(w, p, c, x, b) THEN (b - Without(w, p, c)) \div w[c] ELSE x]
RaiseStatus(w, p, c, x, b) == IF RaiseHits(w, p, c, x, b) THEN "STOPPED_AT_ZERO_SUM" ELSE "STOPPED_AT_AGENT_VALUE"

(* Simultaneous clocks over a recipe tree, in weighted prices q = w * p   *)
(* per node: a set of [node, to] raises, one node per path, rises by the  *)
(* largest common amount.                                                 *)
NodesOf(inc) == [i \in 1..Len(inc) |-> inc[i].node]
TreeSum(t, q) == LET p == Paths(t)[1] IN SumSeq([i \in 1..Len(p) |-> q[p[i]]])
PathQ(t, q, p) == SumSeq([i \in 1..Len(p) |-> q[p[i]]])
LegalJoint(t, q, inc, b) == /\ inc # <<>> /\ \A i \in 1..Len(inc) : inc[i].to >= q[inc[i].node]
                            /\ TreeSum(t, q) <= b
OnePerRecipe(t, inc) == IsCut(t, NodesOf(inc)) /\ Cardinality(ToSet(NodesOf(inc))) = Len(inc)
JointMin(q, inc) == SetMin({inc[i].to - q[inc[i].node] : i \in 1..Len(inc)})
JointRise(t, q, inc, b) == Min2(JointMin(q, inc), b - TreeSum(t, q))
AfterJoint(t, q, inc, b) ==
    LET d == JointRise(t, q, inc, b)
        ns == ToSet(NodesOf(inc))
    IN  [v \in 1..Len(q) |-> IF v \in ns THEN q[v] + d ELSE q[v]]
JointStatus(t, q, inc, b) == IF JointRise(t, q, inc, b) = b - TreeSum(t, q) THEN "STOPPED_AT_ZERO_SUM" ELSE "STOPPED_AT_AGENT_VALUE"
JointTie(t, q, inc, b) == JointMin(q, inc) = b - TreeSum(t, q)
=========================================================================
