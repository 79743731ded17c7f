-------------------------- MODULE Competition --------------------------
(* External competition for a trader p who is worth v: the best            *)
(* procurement-set around him, and the prices it sets.  A set has one      *)
(* trader of each category.                                                *)
EXTENDS Base

RECURSIVE SetsOf(_)
SetsOf(cats) == IF cats = <<>> THEN {<<>>} ELSE {Append(s, x) : s \in SetsOf(DropLast(cats)), x \in ToSet(LastOf(cats))}
(* all procurement-sets that contain the trader *)
Containing(cats, p, v) == SetsOf([i \in 1..Len(cats) |-> IF i = p THEN <<v>> ELSE cats[i]])
BestGain(cats, p, v) == SetMax({SumSeq(s) : s \in Containing(cats, p, v)})
IsBestContaining(cats, p, v, s) == s \in Containing(cats, p, v) /\ SumSeq(s) = BestGain(cats, p, v)

Gain(rec, s) == SumSeq([i \in 1..Len(rec) |-> rec[i] * s[i]])
(* everybody else pays what he is worth in the best set; p balances the sum *)
Paid(rec, p, s) == [i \in 1..Len(rec) |-> IF i = p THEN -SumSeq([j \in 1..Len(rec) |-> IF j = p THEN 0 ELSE rec[j] * s[j]]) ELSE rec[i] * s[i]]
(* paid: what a whole group of each category pays *)
PricesBalance(rec, paid) == SumSeq(paid) = 0
OthersAsCompeting(rec, p, s, paid) == \A i \in 1..Len(rec) : i # p => paid[i] = rec[i] * s[i]
PivotNotOvercharged(rec, p, v, s, paid) == Gain(rec, s) >= 0 => paid[p] <= rec[p] * v
========================================================================
