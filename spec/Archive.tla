---------------------------- MODULE Archive ----------------------------
(* The archived protocols for several recipes.  A list of 0/1 recipes is   *)
(* usable when every category is in none, one or all of them; a category   *)
(* of one recipe is its own, one of all of several recipes is common.      *)
EXTENDS Base

Uses(recs, c) == {r \in 1..Len(recs) : recs[r][c] > 0}
Usable(recs, n) == \A c \in 1..n : Cardinality(Uses(recs, c)) \in {0, 1, Len(recs)}
Own(recs, n, r) == {c \in 1..n : Uses(recs, c) = {r}}
Common(recs, n) == {c \in 1..n : Len(recs) > 1 /\ Uses(recs, c) = 1..Len(recs)}

(* the largest number of procurement-sets: x[r] of recipe r, no category overdrawn *)
RECURSIVE SetVectors(_)
SetVectors(caps) == IF caps = <<>> THEN {<<>>} ELSE {Append(p, x) : p \in SetVectors(DropLast(caps)), x \in 0..LastOf(caps)}
Fitting(recs, sizes) ==
    LET cap == [r \in 1..Len(recs) |-> SetMin({sizes[c] : c \in {d \in 1..Len(sizes) : recs[r][d] > 0}})]
    IN  {x \in SetVectors(cap) : \A c \in 1..Len(sizes) : SumSeq([r \in 1..Len(recs) |-> IF recs[r][c] > 0 THEN x[r] ELSE 0]) <= sizes[c]}
MostSets(recs, sizes) == SetMax({SumSeq(x) : x \in Fitting(recs, sizes)})
(* the same by the categories' smallest sizes *)
SetsBySizes(recs, sizes) ==
    LET n == Len(sizes)
        own == SumSeq([r \in 1..Len(recs) |-> SetMin({sizes[c] : c \in Own(recs, n, r)})])
        com == Common(recs, n)
    IN  IF com = {} THEN own ELSE Min2(own, SetMin({sizes[c] : c \in com}))

(* buyers of several kinds, each of whom needs a number of units of the last category *)
BuyersIn(rec) == {i \in 1..(Len(rec) - 1) : rec[i] # 0}
SellerUsable(recs, n) ==
    /\ \A r \in 1..Len(recs) : Len(recs[r]) = n /\ Cardinality(BuyersIn(recs[r])) <= 1 /\ \A i \in BuyersIn(recs[r]) : recs[r][i] = 1
    /\ \A r, s \in 1..Len(recs) : r # s => BuyersIn(recs[r]) \cap BuyersIn(recs[s]) = {}
UnitsOf(recs, n) == [i \in 1..(n - 1) |-> LET u == {r \in 1..Len(recs) : i \in BuyersIn(recs[r])}
                                          IN  IF u = {} THEN 0 ELSE LastOf(recs[SetMin(u)])]
Demand(sizes, units) == SumSeq([i \in 1..Len(units) |-> sizes[i] * units[i]])
UnitsTraded(sizes, units) == Min2(LastOf(sizes), Demand(sizes, units))
========================================================================
