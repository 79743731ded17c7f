----------------------------- MODULE Trees -----------------------------
(* Recipe trees.  A tree is a record                                     *)
(*    [cat |-> <<category of each node>>, par |-> <<parent, 0 = root>>,  *)
(*     w   |-> <<traders per deal of each node>>]                        *)
(* with its nodes in preorder; every root-to-leaf path is a recipe.      *)
(* Nodes of a tree have different categories.                            *)
EXTENDS Base

Nodes(t) == 1..Len(t.cat)
Children(t, v) == SelectSeq([i \in 1..Len(t.cat) |-> i], LAMBDA u : t.par[u] = v)
IsLeaf(t, v) == \A u \in Nodes(t) : t.par[u] # v
Leaves(t) == SelectSeq([i \in 1..Len(t.cat) |-> i], LAMBDA u : IsLeaf(t, u))
RECURSIVE PathTo(_, _)
PathTo(t, v) == IF v = 0 THEN <<>> ELSE Append(PathTo(t, t.par[v]), v)
Paths(t) == LET l == Leaves(t) IN [i \in 1..Len(l) |-> PathTo(t, l[i])]
CatPath(t, p) == [i \in 1..Len(p) |-> t.cat[p[i]]]
RecipeOf(t, p, n) ==
    [c \in 1..n |-> LET hits == {i \in 1..Len(p) : t.cat[p[i]] = c}
                    IN  IF hits = {} THEN 0 ELSE t.w[p[SetMin(hits)]]]
Recipes(t, n) == LET ps == Paths(t) IN [i \in 1..Len(ps) |-> RecipeOf(t, ps[i], n)]
Depth(t, v) == Len(PathTo(t, v))
Height(t) == SetMax({Depth(t, v) : v \in Nodes(t)})

(* the trees as nested lists <<category, children>> with child lists, as a preorder array *)

----------------------------------------------------------------------
(* Deals.  A leaf vector says how many deals follow the path to each     *)
(* leaf; it is feasible when every category has the traders it needs.    *)
Fits(t, sizes, v) == sizes[t.cat[v]] \div t.w[v]
Through(t, vec, v) == LET l == Leaves(t)
    IN SumSeq([i \in 1..Len(l) |-> IF \E j \in 1..Len(PathTo(t, l[i])) : PathTo(t, l[i])[j] = v THEN vec[i] ELSE 0])
FeasibleVec(t, sizes, vec) == \A v \in Nodes(t) : Through(t, vec, v) <= Fits(t, sizes, v)
VecGain(t, mkt, vec) ==
    SumSeq([v \in 1..Len(t.cat) |-> SumSeq(Take(mkt[t.cat[v]], Through(t, vec, v) * t.w[v]))])
RECURSIVE VecsUpTo(_)
VecsUpTo(caps) == IF caps = <<>> THEN {<<>>}
                  ELSE {Append(p, x) : p \in VecsUpTo(DropLast(caps)), x \in 0..LastOf(caps)}
FeasibleVecs(t, mkt) ==
    LET l == Leaves(t)
        sizes == [i \in 1..Len(mkt) |-> Len(mkt[i])]
    IN {x \in VecsUpTo([i \in 1..Len(l) |-> Fits(t, sizes, l[i])]) : FeasibleVec(t, sizes, x)}

(* the same by dynamic programming: Best(v)[n+1] = the largest gain of n *)
(* deals among the categories of v's subtree, for every possible n       *)
MaxPlus(a, b) ==     \* (TLCEval: TLC would evaluate the tables anew at every use)
    TLCEval([n \in 1..(Len(a) + Len(b) - 1) |->
        SetMax({a[i] + b[n + 1 - i] : i \in Max2(1, n + 1 - Len(b))..Min2(n, Len(a))})])
TopGain(s, w, n) == SumSeq(Take(s, n * w))
RECURSIVE Best(_, _, _)
Best(t, mkt, v) ==
    LET s == mkt[t.cat[v]]
        cap == Len(s) \div t.w[v]
    IN  IF IsLeaf(t, v) THEN TLCEval([n \in 1..(cap + 1) |-> TopGain(s, t.w[v], n - 1)])
        ELSE LET cs == Children(t, v)
                 b  == FoldLeft(LAMBDA acc, c : MaxPlus(acc, Best(t, mkt, c)), <<0>>, cs)
             IN  TLCEval([n \in 1..(Min2(cap, Len(b) - 1) + 1) |-> b[n] + TopGain(s, t.w[v], n - 1)])
TreeOptGFT(t, mkt) == LET b == Best(t, mkt, 1) IN SetMax({b[i] : i \in 1..Len(b)})
(* the largest number of deals with the largest gain *)
TreeOptK(t, mkt) == LET b == Best(t, mkt, 1)
                        m == SetMax({b[i] : i \in 1..Len(b)})
                    IN  SetMax({i \in 1..Len(b) : b[i] = m}) - 1
(* gain of each further deal, as combined over the tree *)
Marginals(t, mkt) == LET b == Best(t, mkt, 1) IN [i \in 1..(Len(b) - 1) |-> b[i + 1] - b[i]]

(* all leaf vectors of n deals with the largest gain, as functions from leaves *)
RECURSIVE Splits(_, _, _)
Splits(t, bs, n) ==   \* all ways to divide n deals among the children with tables bs
    IF Len(bs) = 0 THEN (IF n = 0 THEN {<<>>} ELSE {})
    ELSE UNION {{<<x>> \o r : r \in Splits(t, Tail(bs), n - x)} : x \in 0..Min2(n, Len(bs[1]) - 1)}
RECURSIVE BestVecs(_, _, _, _)
BestVecs(t, mkt, v, n) ==
    IF IsLeaf(t, v) THEN {<<n>>}
    ELSE LET cs == Children(t, v)
             bs == [i \in 1..Len(cs) |-> Best(t, mkt, cs[i])]
             sp == Splits(t, bs, n)
             gain(x) == SumSeq([i \in 1..Len(cs) |-> bs[i][x[i] + 1]])
             top == SetMax({gain(x) : x \in sp})
             join(x) == FoldLeft(LAMBDA acc, i : {a \o b : a \in acc, b \in BestVecs(t, mkt, cs[i], x[i])},
                                 {<<>>}, [i \in 1..Len(cs) |-> i])
         IN  UNION {join(x) : x \in {y \in sp : gain(y) = top}}
Used(vec) == {vec[i] : i \in {j \in 1..Len(vec) : vec[j] > 0}}
NoDeals == 99999
KMinMax(vec) == IF Used(vec) = {} THEN <<NoDeals, 0>> ELSE <<SetMin(Used(vec)), SetMax(Used(vec))>>

(* the largest number of deals that the traders can serve *)
RECURSIVE NumDeals(_, _, _)
NumDeals(t, sizes, v) ==
    IF IsLeaf(t, v) THEN Fits(t, sizes, v)
    ELSE LET cs == Children(t, v)
         IN Min2(Fits(t, sizes, v), SumSeq([i \in 1..Len(cs) |-> NumDeals(t, sizes, cs[i])]))

----------------------------------------------------------------------
(* The cut whose prices rise: from the root down, a category gives way   *)
(* to its children's choices unless it supports more deals than all of   *)
(* them together (or they are all empty).                                *)
CeilDiv(a, b) == (a + b - 1) \div b
ChildSupport(t, sizes, v) ==
    LET cs == Children(t, v) IN SumSeq([i \in 1..Len(cs) |-> CeilDiv(sizes[t.cat[cs[i]]], t.w[cs[i]])])
RECURSIVE Cut(_, _, _)
Cut(t, sizes, v) ==
    LET tot == ChildSupport(t, sizes, v)
        cs  == Children(t, v)
    IN  IF tot = 0 \/ sizes[t.cat[v]] > tot * t.w[v] THEN <<v>>
        ELSE Concat([i \in 1..Len(cs) |-> Cut(t, sizes, cs[i])])
CutOf(t, sizes) == Cut(t, sizes, 1)
IsCut(t, vs) == \A i \in 1..Len(Paths(t)) :
                   Cardinality({j \in 1..Len(vs) : \E m \in 1..Len(Paths(t)[i]) : Paths(t)[i][m] = vs[j]}) = 1

(* The archived trees choose bottom-up: a category's own price rises when *)
(* it has more traders than its children can serve deals.                 *)
RECURSIVE ServedCut(_, _, _)
ServedCut(t, sizes, v) ==
    LET cs == Children(t, v)
        served == SumSeq([i \in 1..Len(cs) |-> NumDeals(t, sizes, cs[i])])
    IN  IF IsLeaf(t, v) \/ Fits(t, sizes, v) > served THEN <<v>>
        ELSE Concat([i \in 1..Len(cs) |-> ServedCut(t, sizes, cs[i])])
(* deals of positive gain only: the same gain in as few deals as possible *)
PositiveMarginals(t, mkt) == SelectSeq(Marginals(t, mkt), LAMBDA x : x > 0)

----------------------------------------------------------------------
(* The explanation of the number of deals, in postorder: for a leaf, its *)
(* potential deals; for another node, how many of its traders and how    *)
(* many of its children's deals are selected.                            *)
RECURSIVE Explain(_, _, _)
Explain(t, sizes, v) ==
    LET sz == sizes[t.cat[v]]
        n  == NumDeals(t, sizes, v)
        cs == Children(t, v)
        kids == SumSeq([i \in 1..Len(cs) |-> NumDeals(t, sizes, cs[i])])
    IN  IF IsLeaf(t, v) THEN <<[what |-> "leaf", node |-> <<t.cat[v]>>, sel |-> n, of |-> n]>>
        ELSE Concat([i \in 1..Len(cs) |-> Explain(t, sizes, cs[i])])
             \o <<[what |-> "node", node |-> <<t.cat[v]>>, sel |-> n * t.w[v], of |-> sz],
                  [what |-> "kids", node |-> [i \in 1..Len(cs) |-> t.cat[cs[i]]], sel |-> n, of |-> kids]>>
=======================================================================
