--------------------------- MODULE Optimal ---------------------------
(* The optimal trade of a market with one recipe: the best remaining  *)
(* procurement-set is taken again and again while its gain is         *)
(* positive (or zero, when wanted), up to a given number of deals.    *)
EXTENDS Base

VARIABLES mkt, rec, zero, limit,
          orem,     \* traders not used yet
          deals,    \* the deals so far, each a sequence with one group of traders per category
          pc
ovars == <<mkt, rec, zero, limit, orem, deals, pc>>

OptInit(m, r, z, l) ==
    /\ mkt = m /\ rec = r /\ zero = z /\ limit = l
    /\ orem = m /\ deals = <<>> /\ pc = "run"

Worth(ps) == PSsum(ps) > 0 \/ (PSsum(ps) = 0 /\ zero)
CanTake == Len(deals) < limit /\ CanServe(orem, rec) /\ Worth(Heads(orem, rec))

TakeDeal == /\ CanTake
            /\ deals' = Append(deals, Heads(orem, rec))
            /\ orem' = RemoveHeads(orem, rec)
            /\ UNCHANGED <<mkt, rec, zero, limit, pc>>
Stop     == ~CanTake /\ pc' = "done" /\ UNCHANGED <<mkt, rec, zero, limit, orem, deals>>
OptNext  == pc = "run" /\ (TakeDeal \/ Stop)

----------------------------------------------------------------------
Done == pc = "done"
Gain == SumSeq([i \in 1..Len(deals) |-> PSsum(deals[i])])
UsedOf(ds, i) == Concat([d \in 1..Len(ds) |-> ds[d][i]])

(* the largest gain of a set of traders with m*rec[i] of every category i: over all sets *)
RECURSIVE SumAt(_, _)
SumAt(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN s[x] + SumAt(s, S \ {x})
BruteBest(s, n) == SetMax({SumAt(s, S) : S \in {X \in SUBSET (1..Len(s)) : Cardinality(X) = n}})
BruteGain(m) == SumSeq([i \in 1..Len(rec) |-> BruteBest(mkt[i], m * rec[i])])
BruteOpt == SetMax({BruteGain(m) : m \in 0..MaxDeals(mkt, rec)})

OptPartition == \A i \in 1..Len(rec) : SortDesc(UsedOf(deals, i) \o orem[i]) = mkt[i]
OptHighest   == \A i \in 1..Len(rec) : IsTopOf(UsedOf(deals, i), mkt[i])
OptDecreasing == \A d \in 1..(Len(deals) - 1) : PSsum(deals[d]) >= PSsum(deals[d + 1])
OptWorth     == \A d \in 1..Len(deals) : Worth(deals[d])
OptIsOptimal == (Done /\ Len(deals) < limit) => Gain = BruteOpt /\ Gain = OptGFT(mkt, rec)
OptCount     == (Done /\ Len(deals) < limit) => Len(deals) = IF zero THEN OptK(mkt, rec) ELSE OptKStrict(mkt, rec)
OptLimited   == Done => Len(deals) = Min2(limit, IF zero THEN OptK(mkt, rec) ELSE OptKStrict(mkt, rec))
(* with a limit, no trade of at most that many deals has a larger gain *)
OptBestOfLimit == Done => \A m \in 0..Min2(limit, MaxDeals(mkt, rec)) : BruteGain(m) <= Gain
OptEnds == <>(pc = "done")

FlatDeal(d) == Concat(d)
Listed == [i \in 1..Len(deals) |-> FlatDeal(deals[Len(deals) + 1 - i])]     \* by increasing gain
OptOutcome == [deals |-> Listed, rem |-> orem, gain |-> Gain]
======================================================================
