---------------------------- MODULE McAfee ----------------------------
(* The McAfee (1992) double auction: the optimal trade is assembled    *)
(* deal by deal, then either all of it trades at the candidate price   *)
(* set by the first deal left out, or the last deal is given up and    *)
(* sets the prices.                                                    *)
EXTENDS Outcome

VARIABLES mkt,       \* the market: one descending sequence per category
          rec,       \* the recipe (all ones)
          heur,      \* whether the candidate price is used
          rem,       \* traders that are not in the trade
          trade,     \* the deals of the optimal trade, in decreasing gain
          out,       \* the outcome (valid when pc = "done")
          pc
mvars == <<mkt, rec, heur, rem, trade, out, pc>>

N == Len(rec)
NoOutcome == [deals |-> 0, cats |-> <<>>, prices |-> <<>>]

McInit(m, r, h) ==
    /\ mkt = m /\ rec = r /\ heur = h
    /\ rem = m /\ trade = <<>> /\ out = NoOutcome /\ pc = "greedy"

(* the next deal joins the optimal trade *)
TakeDeal ==
    /\ pc = "greedy"
    /\ CanServe(rem, rec) /\ PSsum(Heads(rem, rec)) >= 0
    /\ trade' = Append(trade, Heads(rem, rec))
    /\ rem' = RemoveHeads(rem, rec)
    /\ UNCHANGED <<mkt, rec, heur, out, pc>>

StopGreedy ==
    /\ pc = "greedy"
    /\ ~(CanServe(rem, rec) /\ PSsum(Heads(rem, rec)) >= 0)
    /\ pc' = "decide"
    /\ UNCHANGED <<mkt, rec, heur, rem, trade, out>>

(* the candidate price exists when every category has a trader left out *)
HasCandidate == \A i \in 1..N : Len(rem[i]) > 0
Candidate    == SumSeq([i \in 1..N |-> Abs(rem[i][1])]) \div N
(* a candidate suits the last deal if every trader of it accepts        *)
Suits(ps)    == \A i \in 1..N : IF ps[i][1] < 0 THEN -Candidate <= ps[i][1]
                                               ELSE Candidate <= ps[i][1]
UseCandidate == trade # <<>> /\ heur /\ HasCandidate /\ Suits(LastOf(trade))

TradersOf(ds) == [i \in 1..N |-> SortDesc(Concat([d \in 1..Len(ds) |-> ds[d][i]]))]

NoTrade ==
    /\ pc = "decide" /\ trade = <<>>
    /\ out' = [deals |-> 0, cats |-> [i \in 1..N |-> <<>>], prices |-> [i \in 1..N |-> 0]]
    /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, heur, rem, trade>>

AllTrade ==
    /\ pc = "decide" /\ UseCandidate
    /\ out' = [deals |-> Len(trade), cats |-> TradersOf(trade),
               prices |-> [i \in 1..N |-> IF LastOf(trade)[i][1] < 0 THEN -Candidate ELSE Candidate]]
    /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, heur, rem, trade>>

Reduce ==
    /\ pc = "decide" /\ trade # <<>> /\ ~UseCandidate
    /\ out' = [deals |-> Len(trade) - 1, cats |-> TradersOf(DropLast(trade)),
               prices |-> [i \in 1..N |-> LastOf(trade)[i][1]]]
    /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, heur, rem, trade>>

McNext == TakeDeal \/ StopGreedy \/ NoTrade \/ AllTrade \/ Reduce

----------------------------------------------------------------------
(* what the specification guarantees *)
Done == pc = "done"
McNoDeficit == Done => NoDeficit(rec, out, 0)
McIR        == Done => IndividuallyRational(rec, out, 0)
McOneDeal   == Done => AtMostOneDealLost(mkt, rec, out, TRUE)
McGFT       == Done => GFTWithin(mkt, rec, ExpectedGFT(rec, out), Len(rec), TRUE)
McFeasible  == Done => Feasible(mkt, rec, out)
McGreedyOptimal == pc # "greedy" => Len(trade) = OptK(mkt, rec)
(* traders are neither created nor lost while the trade is assembled *)
McConserve  == \A i \in 1..N : SameMulti(mkt[i], rem[i] \o Concat([d \in 1..Len(trade) |-> trade[d][i]]))
(* every behaviour ends: this bound decreases at every step *)
McTerminates == <>(pc = "done")
======================================================================
