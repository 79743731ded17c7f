----------------------------- MODULE MC_Stock -----------------------------
(* Every experiment on the given stocks (by the number of procurement-sets *)
(* that each can fill), sizes, iterations and auction outcomes.  The       *)
(* markets of size n are n buyers of value High and n sellers of value Low.*)
EXTENDS Stocks, Json
CONSTANTS AvailSet, SizesSet, Iters, High, Low, Outs
VARIABLES avail, sizes,
          stock, at, iter,     \* the stock, the index of its size, the iteration in turn
          sims                 \* simulated: [stock, size, o]
vars == <<avail, sizes, stock, at, iter, sims>>
Init == avail \in AvailSet /\ sizes \in SizesSet /\ stock = 1 /\ at = 1 /\ iter = 1 /\ sims = <<>>
Running == stock <= Len(avail)
Step == IF iter < Iters THEN iter' = iter + 1 /\ UNCHANGED <<stock, at>>
        ELSE /\ iter' = 1
             /\ IF at < Len(sizes) THEN at' = at + 1 /\ UNCHANGED stock ELSE at' = 1 /\ stock' = stock + 1
Fills == sizes[at] <= avail[stock]
Simulate == /\ Running /\ Fills
            /\ \E o \in Outs : sims' = Append(sims, [stock |-> stock, size |-> at, o |-> o])
            /\ Step /\ UNCHANGED <<avail, sizes>>
LeaveOut == Running /\ ~Fills /\ Step /\ UNCHANGED <<avail, sizes, sims>>
Next == Simulate \/ LeaveOut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~Running
Market(n) == <<[i \in 1..n |-> High], [i \in 1..n |-> Low]>>
Of(s, a) == SelectSeq(sims, LAMBDA x : x.stock = s /\ x.size = a)
OfSize(a) == SelectSeq(sims, LAMBDA x : x.size = a)
Stocks == {s \in 1..Len(avail) : TRUE}
Deals(xs) == [i \in 1..Len(xs) |-> xs[i].o[1]]
(* each stock counts alike in a mean over all markets and in a mean of the means: where it counts, it counts Iters times *)
AllOrNone == Done => \A s \in Stocks : \A a \in 1..Len(sizes) : Len(Of(s, a)) \in {0, Iters} /\ (Len(Of(s, a)) = Iters <=> sizes[a] <= avail[s])
MeansAgree == Done => \A a \in 1..Len(sizes) :
    LET present == SelectSeq([s \in 1..Len(avail) |-> s], LAMBDA s : Len(Of(s, a)) > 0)
    IN  Len(present) > 0 =>
        (* sum over stocks of their sums, over the number of markets *)
        /\ SumSeq([i \in 1..Len(present) |-> SumSeq(Deals(Of(present[i], a)))]) = SumSeq(Deals(OfSize(a)))
        /\ Len(OfSize(a)) = Len(present) * Iters
(* a mean lies between the smallest and the largest of its markets: no market that is not there can pull it down *)
MeanWithin == Done => \A a \in 1..Len(sizes) : LET d == Deals(OfSize(a)) IN Len(d) > 0 =>
    MeanOf(d) >= SetMin(ToSet(d)) /\ MeanOf(d) <= SetMax(ToSet(d))
OptimumOfSize == \A a \in 1..Len(sizes) : OptGFT(Market(sizes[a]), <<1, 1>>) = Max2(0, sizes[a] * (High + Low))
Ends == <>Done
Emit == Done => PrintT("CASE" \o ToJson([avail |-> avail, sizes |-> sizes, iters |-> Iters, high |-> High, low |-> Low, outs |-> [i \in 1..Len(sims) |-> sims[i].o]]))
===========================================================================
