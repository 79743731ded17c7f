----------------------------- MODULE MC_Deal -----------------------------
(* Dealing the prices of a file out to the categories of a tree: in any    *)
(* order, category after category, each price at most once.                *)
EXTENDS Stocks
CONSTANTS Files, CountsSet, MultsSet
VARIABLES all, counts2, mults, left, cats
vars == <<all, counts2, mults, left, cats>>
Init == all \in Files /\ counts2 \in CountsSet /\ mults \in MultsSet /\ Len(mults) = Len(counts2)
        /\ left = all /\ cats = [i \in 1..Len(counts2) |-> <<>>]
Wants == {i \in 1..Len(counts2) : Len(cats[i]) < Share(Len(all), counts2, i)}
RemoveAtIndex(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Next == Wants # {} /\ LET i == SetMin(Wants) IN \E k \in 1..Len(left) :
            /\ cats' = [cats EXCEPT ![i] = Append(@, (IF i = 1 THEN 1 ELSE -1) * ValueOf(left[k]) * mults[i])]
            /\ left' = RemoveAtIndex(left, k)
            /\ UNCHANGED <<all, counts2, mults>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == Wants = {}
Enough == Wants # {} => Len(left) > 0                       \* the prices suffice
OnceEach == SameMulti(Dealt(cats, mults) \o Values(left), Values(all))
DoneIsOK == Done => TreePricesOK(all, counts2, mults, cats)
FewLeft == Done => Len(left) <= Len(counts2)
Ends == <>Done
===========================================================================
