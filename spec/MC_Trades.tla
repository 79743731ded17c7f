---------------------------- MODULE MC_Trades ----------------------------
(* Draws the traders one deal at a time: the accounting of Trades is the  *)
(* average over all ways in which the deals can be carried out.           *)
EXTENDS Trades, Json
CONSTANT Spaces, EmitCases
VARIABLES cats, rec, prices
vars == <<cats, rec, prices>>
PriceVecs(sp) == {p \in [1..Len(sp.rec) -> sp.prices] : TRUE}
Init == \E sp \in Spaces : \E m \in MarketsOf(sp) : \E p \in PriceVecs(sp) :
           cats = m /\ rec = sp.rec /\ prices = [i \in 1..Len(sp.rec) |-> p[i]]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* the expected sum of a draw of n from s, times the number of draws *)
Draws(s, n) == {S \in SUBSET (1..Len(s)) : Cardinality(S) = n}
RECURSIVE SumAt(_, _)
SumAt(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN s[x] + SumAt(s, S \ {x})
RECURSIVE SumOver(_, _)
SumOver(s, D) == IF D = {} THEN 0 ELSE LET S == CHOOSE S \in D : TRUE IN SumAt(s, S) + SumOver(s, D \ {S})
(* cross-multiplied, category by category *)
ExpectationIsAverage ==
    LET k == Deals(cats, rec) IN
    k > 0 => \A i \in Relevant(rec) :
        LET D == Draws(cats[i], k * rec[i])
        IN  SumOver(cats[i], D) * Len(cats[i]) = SumSeq(cats[i]) * k * rec[i] * Cardinality(D)
LargestNumber == LET k == Deals(cats, rec) IN
    /\ \A i \in 1..Len(rec) : k * rec[i] <= Len(cats[i])
    /\ \E i \in 1..Len(rec) : (k + 1) * rec[i] > Len(cats[i])
SurplusIsPayments == LET k == Deals(cats, rec) IN
    TotalTimesL(cats, rec) - MarketTimesL(cats, rec, prices) = k * LOf(cats, rec) * SumSeq([i \in 1..Len(rec) |-> rec[i] * prices[i]])
Emit == EmitCases => PrintT("CASE" \o ToJson([cats |-> cats, rec |-> rec, prices |-> prices, k |-> Deals(cats, rec), L |-> LOf(cats, rec),
            total |-> TotalTimesL(cats, rec), market |-> MarketTimesL(cats, rec, prices), lines |-> Description(cats, rec, prices)]))
===========================================================================
