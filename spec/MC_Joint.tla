---------------------------- MODULE MC_Joint ----------------------------
(* All histories of up to Depth joint raises over a recipe tree, along   *)
(* every cut of it.                                                      *)
EXTENDS Clocks, Json
CONSTANT Tree_, Start, Targets, Bounds, Depth_
VARIABLES q, status, hist
jvars == <<q, status, hist>>
Init == q = Start /\ status = "None" /\ hist = <<>>
(* every cut of the subtree of v *)
RECURSIVE Cuts(_)
Cuts(v) == LET cs == Children(Tree_, v)
               joined == FoldLeft(LAMBDA acc, i : {a \o b : a \in acc, b \in Cuts(cs[i])}, {<<>>}, [i \in 1..Len(cs) |-> i])
           IN {<<v>>} \union (IF cs = <<>> THEN {} ELSE joined)
RECURSIVE Incs(_)
Incs(c) == IF c = <<>> THEN {<<>>}
           ELSE {<<[node |-> Head(c), to |-> x * Tree_.w[Head(c)]]>> \o r : x \in Targets, r \in Incs(Tail(c))}
Joint(inc, b) ==
    /\ Len(hist) < Depth_ /\ LegalJoint(Tree_, q, inc, b)
    /\ q' = AfterJoint(Tree_, q, inc, b)
    /\ status' = JointStatus(Tree_, q, inc, b)
    /\ hist' = Append(hist, [inc |-> inc, b |-> b, q |-> q', status |-> status', tie |-> JointTie(Tree_, q, inc, b)])
Next == \E c \in Cuts(1), b \in Bounds : \E inc \in Incs(c) : Joint(inc, b)
Spec == Init /\ [][Next]_jvars
SumsEqual == \A i \in 1..Len(Paths(Tree_)) : PathQ(Tree_, q, Paths(Tree_)[i]) = TreeSum(Tree_, q)
JointStep == [][LET h == LastOf(hist') IN
                  /\ \A v \in 1..Len(q) : q'[v] >= q[v]
                  /\ \A i \in 1..Len(h.inc) : q'[h.inc[i].node] <= h.inc[i].to
                  /\ TreeSum(Tree_, q') <= h.b
                  /\ (TreeSum(Tree_, q') = h.b <=> status' = "STOPPED_AT_ZERO_SUM")
                  /\ (status' = "STOPPED_AT_AGENT_VALUE" => \E i \in 1..Len(h.inc) : q'[h.inc[i].node] = h.inc[i].to)]_jvars
AllCuts == \A c \in Cuts(1) : IsCut(Tree_, c)
Emit == Len(hist) = Depth_ => PrintT("CASE" \o ToJson([tree |-> Tree_, hist |-> hist]))
=========================================================================
