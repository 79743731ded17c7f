---------------------------- MODULE MC_Start ----------------------------
(* Every small tree with counts: a start exists, with equal path sums and *)
(* no price above the bound; it is the closed form of the library.        *)
EXTENDS TreeAuction, Json
CONSTANT MaxNodes, MaxW, Big
(* preorder parent arrays: the parent of node n is on the path from the root to node n-1 *)
OnPath(P, n) == {PathTo([cat |-> P, par |-> P, w |-> P], n)[i] : i \in 1..Len(PathTo([cat |-> P, par |-> P, w |-> P], n))}
RECURSIVE Pars(_)
Pars(n) == IF n = 1 THEN {<<0>>} ELSE UNION {{Append(p, x) : x \in OnPath(p, n - 1)} : p \in Pars(n - 1)}
RECURSIVE Ws(_)
Ws(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Ws(n - 1), x \in 1..MaxW}
Init == \E n \in 1..MaxNodes : \E p \in Pars(n) : \E ww \in Ws(n) :
          LET t == [cat |-> [i \in 1..n |-> i], par |-> p, w |-> ww]
          IN  TreeInit(t, [i \in 1..n |-> <<>>], CanonicalStart(t, Big))
Spec == Init /\ [][FALSE]_tvars
BelowBound == \A v \in 1..T : q[v] <= 0 - Big * tree.w[v]
Emit == PrintT("CASE" \o ToJson([tree |-> tree]))
=========================================================================
