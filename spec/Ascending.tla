--------------------------- MODULE Ascending ---------------------------
(* The ascending-price auction with one recipe: one clock per category. *)
(* Always the clock of the category that supports the most deals rises, *)
(* to the value of its lowest trader, who then leaves; the auction ends *)
(* as soon as the prices of a procurement-set would sum to zero (the    *)
(* clock stops exactly there), or a category is empty.                  *)
EXTENDS Outcome

VARIABLES mkt, rec,
          rem,       \* the traders still in the auction
          clock,     \* the price per category
          isset,     \* has this clock left its (very low) start?
          out, pc
avars == <<mkt, rec, rem, clock, isset, out, pc>>

N == Len(rec)
NoOutcome == [deals |-> 0, cats |-> <<>>, prices |-> <<>>]

AscInit(m, r) ==
    /\ mkt = m /\ rec = r /\ rem = m
    /\ clock = [i \in 1..Len(r) |-> 0] /\ isset = [i \in 1..Len(r) |-> FALSE]
    /\ out = NoOutcome /\ pc = "run"

(* category a supports at least as many (fractional) deals as b *)
AtLeast(a, b) == Len(rem[a]) * rec[b] >= Len(rem[b]) * rec[a]
(* the first category that supports the most deals *)
Main == CHOOSE c \in Relevant(rec) :
            \A d \in Relevant(rec) : AtLeast(c, d) /\ (d < c => ~AtLeast(d, c))

AllOthersSet(c) == \A j \in Relevant(rec) \ {c} : isset[j]
OthersSum(c) == SumSeq([j \in 1..N |-> IF j # c THEN rec[j] * clock[j] ELSE 0])
Target(c)    == LastOf(rem[c])
Crosses(c)   == AllOthersSet(c) /\ OthersSum(c) + rec[c] * Target(c) >= 0

OutcomeOf(r, ck) == [deals |-> MaxDeals(r, rec), cats |-> r, prices |-> ck]

StopEmpty(c) ==
    /\ rem[c] = <<>>
    /\ out' = OutcomeOf(rem, clock) /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, rem, clock, isset>>

Raise(c) ==
    /\ rem[c] # <<>> /\ ~Crosses(c)
    /\ clock' = [clock EXCEPT ![c] = Target(c)]
    /\ isset' = [isset EXCEPT ![c] = TRUE]
    /\ rem' = [rem EXCEPT ![c] = DropLast(@)]
    /\ UNCHANGED <<mkt, rec, out, pc>>

StopAtZero(c) ==
    /\ rem[c] # <<>> /\ Crosses(c)
    /\ clock' = [clock EXCEPT ![c] = -(OthersSum(c) \div rec[c])]
    /\ isset' = [isset EXCEPT ![c] = TRUE]
    /\ out' = OutcomeOf(rem, clock') /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, rem>>

AscNext == pc = "run" /\ LET c == Main IN StopEmpty(c) \/ Raise(c) \/ StopAtZero(c)

----------------------------------------------------------------------
Done == pc = "done"
AscSBB      == Done => StronglyBalanced(rec, out, 0)
AscIR       == Done => IndividuallyRational(rec, out, 0)
AscOneDeal  == Done => AtMostOneDealLost(mkt, rec, out, TRUE)
AscGFT      == Done => GFTWithin(mkt, rec, ExpectedGFT(rec, out), Len(rec), TRUE)
AscFeasible == Done => Feasible(mkt, rec, out)
(* while it runs: the price-sum is negative, and whoever is in accepts *)
AscBelowZero == (pc = "run" /\ \A i \in Relevant(rec) : isset[i])
                    => SumSeq([j \in 1..N |-> rec[j] * clock[j]]) < 0
AscInAccept  == \A i \in Relevant(rec) : isset[i] => \A j \in 1..Len(rem[i]) : rem[i][j] >= clock[i]
AscTop       == \A i \in 1..N : IsTopOf(rem[i], mkt[i])
(* clocks never move down *)
AscMonotone  == [][\A i \in 1..N : isset[i] => isset'[i] /\ clock'[i] >= clock[i]]_avars
AscTerminates == <>(pc = "done")
======================================================================
