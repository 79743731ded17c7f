---------------------------- MODULE Base ----------------------------
(* Shared vocabulary: integer sequences, markets, recipes.            *)
(* A category is a descending sequence of integers (trader values),   *)
(* a market a sequence of categories, a recipe a sequence of counts.  *)
(* Values and prices are integers in a unit that the caller chooses   *)
(* (fine enough that every price the mechanisms can set is whole).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Abs(x)     == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S)  == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S)  == CHOOSE x \in S : \A y \in S : x >= y

SumSeq(s)    == FoldLeft(LAMBDA a, b : a + b, 0, s)
SortDesc(s)  == SortSeq(s, LAMBDA a, b : a > b)
Take(s, n)   == SubSeq(s, 1, n)
Drop(s, n)   == SubSeq(s, n + 1, Len(s))
DropLast(s)  == SubSeq(s, 1, Len(s) - 1)
LastOf(s)    == s[Len(s)]
IsDesc(s)    == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
(* multiset inclusion / equality of integer sequences *)
SubMulti(s, t)  == \A x \in ToSet(s) : CountIn(s, x) <= CountIn(t, x)
SameMulti(s, t) == Len(s) = Len(t) /\ SubMulti(s, t)
IsTopOf(s, t) == Len(s) <= Len(t) /\ SortDesc(s) = Take(SortDesc(t), Len(s))

(* x * a \div b without forming x * a when x is large:  0 <= a <= b, b > 0 *)
MulDiv(x, a, b) == (x \div b) * a + ((x % b) * a) \div b

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

----------------------------------------------------------------------
(* Markets with one recipe *)
Relevant(rec) == {i \in 1..Len(rec) : rec[i] > 0}

(* the largest number of procurement-sets the market has agents for *)
MaxDeals(cats, rec) == SetMin({Len(cats[i]) \div rec[i] : i \in Relevant(rec)})

(* the gain from m deals by the m * rec[i] highest agents of every category *)
TopGFT(cats, rec, m) ==
    SumSeq([i \in 1..Len(rec) |-> SumSeq(Take(cats[i], m * rec[i]))])

(* the optimum over materially balanced trades, and the largest number of *)
(* deals that attains it                                                   *)
GFTs(cats, rec)   == [m \in 0..MaxDeals(cats, rec) |-> TopGFT(cats, rec, m)]
OptGFT(cats, rec) == LET g == GFTs(cats, rec) IN SetMax({g[m] : m \in DOMAIN g})
OptK(cats, rec)   ==
    LET g == GFTs(cats, rec)
        best == SetMax({g[m] : m \in DOMAIN g})
    IN  SetMax({m \in DOMAIN g : g[m] = best})
(* the smallest number of deals that attains it: deals with zero gain left out *)
OptKStrict(cats, rec)   ==
    LET g == GFTs(cats, rec)
        best == SetMax({g[m] : m \in DOMAIN g})
    IN  SetMin({m \in DOMAIN g : g[m] = best})

(* the m-th procurement-set of the greedy trade, one group per category *)
PSat(cats, rec, m) ==
    [i \in 1..Len(rec) |-> SubSeq(cats[i], (m - 1) * rec[i] + 1, m * rec[i])]
PSsum(ps) == SumSeq([i \in 1..Len(ps) |-> SumSeq(ps[i])])

CanServe(cats, rec) == \A i \in 1..Len(rec) : Len(cats[i]) >= rec[i]
Heads(cats, rec)    == [i \in 1..Len(rec) |-> Take(cats[i], rec[i])]
RemoveHeads(cats, rec) == [i \in 1..Len(rec) |-> Drop(cats[i], rec[i])]

(* all descending sequences over the value set V, of length at most n *)
RECURSIVE SortedSeqs(_, _)
SortedSeqs(V, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET shorter == SortedSeqs(V, n - 1)
         IN  shorter \cup UNION {{Append(s, v) : v \in {w \in V : Len(s) = 0 \/ w <= s[Len(s)]}} :
                                    s \in {t \in shorter : Len(t) = n - 1}}

(* the markets of a search space sp = [rec |-> recipe, vals |-> values, unit, n |-> sizes] *)
(* with values in units of sp.unit (so that prices are whole)                              *)
RECURSIVE MarketsUpTo(_, _)
MarketsUpTo(sp, i) ==
    IF i = 0 THEN {<<>>}
    ELSE LET S == SortedSeqs({v * sp.unit : v \in sp.vals}, sp.n[i])
             P == MarketsUpTo(sp, i - 1)
         IN  {Append(m, s) : m \in P, s \in S}
MarketsOf(sp) == MarketsUpTo(sp, Len(sp.rec))

Clause(name, ok) == IF ok THEN {} ELSE {name}
=====================================================================
