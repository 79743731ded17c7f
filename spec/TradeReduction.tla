------------------------ MODULE TradeReduction ------------------------
(* The external-competition trade reduction: the optimal trade is       *)
(* assembled; then the traders of the weakest deals are removed one by  *)
(* one into the remaining market until a trader meets external          *)
(* competition, i.e. it would form a worthwhile deal with the best      *)
(* traders outside the trade.  That competition sets the prices.        *)
EXTENDS Outcome

VARIABLES mkt, rec,
          zero,      \* does a competing deal with gain exactly 0 count?
          rem,       \* the remaining market
          trade,     \* the deals of the optimal trade, decreasing gain
          queue,     \* the deals still to be examined, weakest first
          pivots,    \* traders of the current deal still to be examined: <<category, value>>
          kept,      \* the traders that trade, per category
          prices,    \* the prices, once found
          found, out, pc
tvars == <<mkt, rec, zero, rem, trade, queue, pivots, kept, prices, found, out, pc>>

N == Len(rec)
NoOutcome == [deals |-> 0, cats |-> <<>>, prices |-> <<>>]

TrInit(m, r, z) ==
    /\ mkt = m /\ rec = r /\ zero = z
    /\ rem = m /\ trade = <<>> /\ queue = <<>> /\ pivots = <<>>
    /\ kept = [i \in 1..Len(r) |-> <<>>]
    /\ prices = [i \in 1..Len(r) |-> 0] /\ found = FALSE
    /\ out = NoOutcome /\ pc = "greedy"

TakeDeal ==
    /\ pc = "greedy"
    /\ CanServe(rem, rec) /\ PSsum(Heads(rem, rec)) >= 0
    /\ trade' = Append(trade, Heads(rem, rec))
    /\ rem' = RemoveHeads(rem, rec)
    /\ UNCHANGED <<mkt, rec, zero, queue, pivots, kept, prices, found, out, pc>>

(* the first deal left out, if there are agents for it, competes as well *)
StopGreedy ==
    /\ pc = "greedy"
    /\ ~(CanServe(rem, rec) /\ PSsum(Heads(rem, rec)) >= 0)
    /\ IF trade = <<>>
       THEN /\ out' = [deals |-> 0, cats |-> [i \in 1..N |-> <<>>], prices |-> [i \in 1..N |-> 0]]
            /\ pc' = "done"
            /\ UNCHANGED <<rem, queue>>
       ELSE /\ queue' = IF CanServe(rem, rec) THEN <<Heads(rem, rec)>> \o Reverse(trade)
                                              ELSE Reverse(trade)
            /\ rem' = IF CanServe(rem, rec) THEN RemoveHeads(rem, rec) ELSE rem
            /\ pc' = "open"
            /\ UNCHANGED out
    /\ UNCHANGED <<mkt, rec, zero, trade, pivots, kept, prices, found>>

(* the order in which the traders of a deal are examined: by category,   *)
(* and within a category from its lowest to its highest trader           *)
PivotOrder(ps) == Concat([i \in 1..N |-> [j \in 1..Len(ps[i]) |-> <<i, Reverse(ps[i])[j]>>]])

OpenDeal ==
    /\ pc = "open" /\ queue # <<>>
    /\ pivots' = PivotOrder(Head(queue))
    /\ queue' = Tail(queue)
    /\ pc' = "pivot"
    /\ UNCHANGED <<mkt, rec, zero, rem, trade, kept, prices, found, out>>

(* the best deal of trader <<c, v>> with traders of the remaining market, *)
(* when the other categories still have one                               *)
Others(c)     == Relevant(rec) \ {c}
HasRivals(c)  == \A j \in Others(c) : rem[j] # <<>>
OthersSum(c)  == SumSeq([j \in 1..N |-> IF j \in Others(c) THEN rec[j] * rem[j][1] ELSE 0])
RivalGain(c, v) == rec[c] * v + OthersSum(c)
Competes(c, v)  == HasRivals(c) /\ (RivalGain(c, v) > 0 \/ (zero /\ RivalGain(c, v) = 0))

KeepWithPrices ==
    /\ pc = "pivot" /\ pivots # <<>> /\ ~found
    /\ LET c == Head(pivots)[1]
           v == Head(pivots)[2]
       IN  /\ Competes(c, v)
           /\ found' = TRUE
           /\ prices' = [j \in 1..N |-> IF j = c THEN -(OthersSum(c) \div rec[c])
                                        ELSE IF j \in Others(c) THEN rem[j][1] ELSE 0]
           /\ kept' = [kept EXCEPT ![c] = SortDesc(Append(@, v))]
    /\ pivots' = Tail(pivots)
    /\ UNCHANGED <<mkt, rec, zero, rem, trade, queue, out, pc>>

RemoveTrader ==
    /\ pc = "pivot" /\ pivots # <<>> /\ ~found
    /\ LET c == Head(pivots)[1]
           v == Head(pivots)[2]
       IN  /\ ~Competes(c, v)
           /\ rem' = [rem EXCEPT ![c] = SortDesc(Append(@, v))]
    /\ pivots' = Tail(pivots)
    /\ UNCHANGED <<mkt, rec, zero, trade, queue, kept, prices, found, out, pc>>

KeepTrader ==
    /\ pc = "pivot" /\ pivots # <<>> /\ found
    /\ kept' = [kept EXCEPT ![Head(pivots)[1]] = SortDesc(Append(@, Head(pivots)[2]))]
    /\ pivots' = Tail(pivots)
    /\ UNCHANGED <<mkt, rec, zero, rem, trade, queue, prices, found, out, pc>>

CloseDeal ==
    /\ pc = "pivot" /\ pivots = <<>>
    /\ pc' = "open"
    /\ UNCHANGED <<mkt, rec, zero, rem, trade, queue, pivots, kept, prices, found, out>>

Finish ==
    /\ pc = "open" /\ queue = <<>>
    /\ out' = [deals |-> MaxDeals(kept, rec), cats |-> kept, prices |-> prices]
    /\ pc' = "done"
    /\ UNCHANGED <<mkt, rec, zero, rem, trade, queue, pivots, kept, prices, found>>

TrNext == \/ TakeDeal \/ StopGreedy \/ OpenDeal \/ KeepWithPrices
          \/ RemoveTrader \/ KeepTrader \/ CloseDeal \/ Finish

----------------------------------------------------------------------
Done == pc = "done"
TrSBB      == Done => StronglyBalanced(rec, out, 0)
TrIR       == Done => IndividuallyRational(rec, out, 0)
(* without competition by deals of zero gain, zero-gain deals of the optimum do not count *)
TrOneDeal  == Done => AtMostOneDealLost(mkt, rec, out, zero)
TrGFT      == Done => GFTWithin(mkt, rec, ExpectedGFT(rec, out), Len(rec), zero)
TrFeasible == Done => Feasible(mkt, rec, out)
TrGreedyOptimal == pc # "greedy" => Len(trade) = OptK(mkt, rec)
(* a trader is in exactly one place: remaining, kept, or still queued *)
TrConserve == pc \in {"open", "pivot"} =>
    \A i \in 1..N :
        SameMulti(mkt[i], rem[i] \o kept[i]
                        \o Concat([d \in 1..Len(queue) |-> queue[d][i]])
                        \o [p \in 1..Len(SelectSeq(pivots, LAMBDA x : x[1] = i)) |->
                                SelectSeq(pivots, LAMBDA x : x[1] = i)[p][2]])
TrTerminates == <>(pc = "done")
======================================================================
