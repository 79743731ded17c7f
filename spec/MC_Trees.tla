---------------------------- MODULE MC_Trees ----------------------------
(* Every tree of the given sizes (shapes, counts) with every market of a *)
(* small space: the recursive definitions agree with exhaustive search   *)
(* over all ways to choose deals, and the chosen categories form a cut.  *)
EXTENDS Trees, Json
CONSTANT MaxNodes, Vals, MaxW, MaxN, EmitCases
VARIABLES tree, mkt
(* preorder parent arrays: the parent of node k+1 is on the path from the root to node k *)
RECURSIVE Pars(_)
Pars(n) == IF n = 1 THEN {<<0>>}
           ELSE UNION {LET P == p IN {Append(P, x) : x \in {y \in 1..(n - 1) :
                  \E i \in 1..Len(PathTo([cat |-> P, par |-> P, w |-> P], n - 1)) : PathTo([cat |-> P, par |-> P, w |-> P], n - 1)[i] = y}} : p \in Pars(n - 1)}
RECURSIVE Ws(_)
Ws(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Ws(n - 1), x \in 1..MaxW}
AllTrees == UNION {{[cat |-> [i \in 1..n |-> i], par |-> p, w |-> ww] : p \in Pars(n), ww \in Ws(n)} : n \in 1..MaxNodes}
RECURSIVE Mk(_, _)
Mk(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(m, s) : m \in Mk(S, n - 1), s \in S}
Seqs == SortedSeqs(Vals, MaxN)
Init == \E t \in AllTrees : \E m \in Mk(Seqs, Len(t.cat)) : tree = t /\ mkt = m
Next == FALSE /\ UNCHANGED <<tree, mkt>>
Spec == Init /\ [][Next]_<<tree, mkt>>

Sizes == [i \in 1..Len(mkt) |-> Len(mkt[i])]
OptimumIsOptimal ==
    LET vs == FeasibleVecs(tree, mkt)
        g(v) == VecGain(tree, mkt, v)
        best == SetMax({g(v) : v \in vs})
        k == SetMax({SumSeq(v) : v \in {x \in vs : g(x) = best}})
    IN  /\ TreeOptGFT(tree, mkt) = best
        /\ TreeOptK(tree, mkt) = k
        /\ BestVecs(tree, mkt, 1, k) = {x \in vs : g(x) = best /\ SumSeq(x) = k}
DealsAreMaximal == NumDeals(tree, Sizes, 1) = SetMax({SumSeq(v) : v \in FeasibleVecs(tree, mkt)})
MarginalsFall == IsDesc(Marginals(tree, mkt))
CutIsCut == IsCut(tree, CutOf(tree, Sizes)) /\ IsCut(tree, ServedCut(tree, Sizes, 1))
FewestDeals ==
    LET vs == FeasibleVecs(tree, mkt)
        best == SetMax({VecGain(tree, mkt, v) : v \in vs})
    IN  /\ Len(PositiveMarginals(tree, mkt)) = SetMin({SumSeq(v) : v \in {x \in vs : VecGain(tree, mkt, x) = best}})
        /\ SumSeq(PositiveMarginals(tree, mkt)) = best
ExplainEnds == LET e == Explain(tree, Sizes, 1) IN Len(e) = 2 * Len(tree.cat) - Len(Leaves(tree))
SomeRecipes == \A i \in 1..Len(Recipes(tree, Len(mkt))) :
                  SumSeq(Recipes(tree, Len(mkt))[i]) = SumSeq([j \in 1..Len(Paths(tree)[i]) |-> tree.w[Paths(tree)[i][j]]])
Emit == EmitCases => PrintT("CASE" \o ToJson([tree |-> tree, mkt |-> mkt, k |-> TreeOptK(tree, mkt), g |-> TreeOptGFT(tree, mkt),
             n |-> NumDeals(tree, Sizes, 1), cut |-> CutOf(tree, Sizes)]))
=========================================================================
