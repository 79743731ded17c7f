----------------------------- MODULE Trades -----------------------------
(* The accounting of a set of deals at one price per category, and of a  *)
(* plain list of deals.  Gains are expected values when the traders of a *)
(* category are drawn uniformly; multiplied by L, a common multiple of   *)
(* the sizes of the categories, they are integers.                       *)
EXTENDS Base
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
LOf(cats, rec) == FoldLeft(Lcm, 1, [i \in 1..Len(rec) |-> IF rec[i] = 0 \/ cats[i] = <<>> THEN 1 ELSE Len(cats[i])])

Deals(cats, rec) == MaxDeals(cats, rec)
TotalTimesL(cats, rec) ==
    LET k == Deals(cats, rec) IN
    IF k = 0 THEN 0
    ELSE SumSeq([i \in 1..Len(rec) |-> IF rec[i] = 0 THEN 0 ELSE SumSeq(cats[i]) * k * rec[i] * (LOf(cats, rec) \div Len(cats[i]))])
PaidTimesL(cats, rec, prices) ==
    LET k == Deals(cats, rec) IN
    IF k = 0 THEN 0 ELSE k * LOf(cats, rec) * SumSeq([i \in 1..Len(rec) |-> IF rec[i] = 0 THEN 0 ELSE rec[i] * prices[i]])
MarketTimesL(cats, rec, prices) == TotalTimesL(cats, rec) - PaidTimesL(cats, rec, prices)

(* the description: one line per category of the recipe *)
Line(cats, rec, prices, i) ==
    LET k == Deals(cats, rec) IN [values |-> cats[i], all |-> k * rec[i] = Len(cats[i]), sel |-> k * rec[i], of |-> Len(cats[i]), price |-> prices[i]]
Description(cats, rec, prices) ==
    IF Deals(cats, rec) = 0 THEN <<>>
    ELSE LET is == SelectSeq([i \in 1..Len(rec) |-> i], LAMBDA i : rec[i] > 0)
         IN  [j \in 1..Len(is) |-> Line(cats, rec, prices, is[j])]

ListGain(deals) == SumSeq([d \in 1..Len(deals) |-> SumSeq(deals[d])])
=========================================================================
