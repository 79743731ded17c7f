---------------------------- MODULE MC_Store ----------------------------
(* Every history of Depth operations over the values Vals. *)
EXTENDS Store, Json
CONSTANT Vals, Depth, Lists, Focus      \* Focus: "cats" or "mkts"
VARIABLES st, hist, bag      \* bag: for each object, what was put in and not taken out, as a function from values to counts
vars == <<st, hist, bag>>

K == 1..2
CatOps == {[op |-> "new", vs |-> l] : l \in Lists}
    \cup {[op |-> "append", k |-> k, v |-> v] : k \in K, v \in Vals}
    \cup {[op |-> "extend", k |-> k, vs |-> l] : k \in K, l \in Lists}
    \cup {[op |-> "pophigh", k |-> k] : k \in K}
    \cup {[op |-> "pophighs", k |-> k, n |-> n] : k \in K, n \in {0, 2}}
    \cup {[op |-> "poplow", k |-> k] : k \in K}
    \cup {[op |-> "clone", k |-> k] : k \in K}
MktOps == {[op |-> "mappend", m |-> m, i |-> i, v |-> v] : m \in K, i \in 1..2, v \in Vals}
    \cup {[op |-> "mps", m |-> m, vs |-> l] : m \in K, l \in {<<SetMax(Vals), SetMin(Vals)>>, <<SetMax(Vals)>>, <<1, 1, 1>>}}
    \cup {[op |-> "mremove", m |-> m, vs |-> l] : m \in K, l \in {<<1, 1>>, <<2, 0>>}}
    \cup {[op |-> "mclone", m |-> m] : m \in K} \cup {[op |-> "mempty", m |-> m] : m \in K}
    \cup {[op |-> "mtrade", m |-> m, vs |-> l] : m \in K, l \in {<<1, 1>>, <<1, 2>>}}
Ops == IF Focus = "cats" THEN CatOps ELSE MktOps
Prefix == IF Focus = "cats" THEN <<>> ELSE <<[op |-> "new", vs |-> <<SetMin(Vals), SetMax(Vals)>>], [op |-> "new", vs |-> <<-1, SetMin(Vals)>>], [op |-> "market"]>>
Start == FoldLeft(After, Empty, Prefix)

(* the same as multisets, maintained independently of the sorted sequences *)
Add(b, xs) == [x \in DOMAIN b |-> b[x] + CountIn(xs, x)]
All == Vals \cup {-1, 1} \cup UNION {ToSet(l) : l \in Lists}
Top(b) == SetMax({x \in All : b[x] > 0})
Bot(b) == SetMin({x \in All : b[x] > 0})
Zero == [x \in All |-> 0]
RECURSIVE DropTop(_, _)
DropTop(b, n) == IF n = 0 THEN b ELSE DropTop([b EXCEPT ![Top(b)] = @ - 1], n - 1)
BagAfter(b, o) ==
    CASE o.op = "new"      -> Append(b, Add(Zero, o.vs))
      [] o.op = "append"   -> [b EXCEPT ![o.k] = Add(@, <<o.v>>)]
      [] o.op = "extend"   -> [b EXCEPT ![o.k] = Add(@, o.vs)]
      [] o.op = "pophigh"  -> [b EXCEPT ![o.k] = DropTop(@, 1)]
      [] o.op = "pophighs" -> [b EXCEPT ![o.k] = DropTop(@, o.n)]
      [] o.op = "poplow"   -> [b EXCEPT ![o.k] = [@ EXCEPT ![Bot(@)] = @ - 1]]
      [] o.op = "clone"    -> Append(b, b[o.k])
      [] OTHER -> b
Init == st = Start /\ hist = Prefix /\ bag = FoldLeft(BagAfter, <<>>, Prefix)
Next == Len(hist) < Depth + Len(Prefix) /\ \E o \in Ops :
            /\ Legal(st, o) /\ (o.op \in {"new", "clone"} => Len(st.cats) < 2) /\ (o.op \in {"mclone", "mempty", "mtrade"} => Len(st.mkts) < 2)
            /\ st' = After(st, o) /\ hist' = Append(hist, o) /\ bag' = BagAfter(bag, o)
Spec == Init /\ [][Next]_vars

Sorted == AllSorted(st)
IsBag == \A k \in 1..Len(st.cats) : \A x \in All : CountIn(st.cats[k], x) = bag[k][x]
NoOthers == \A k \in 1..Len(st.cats) : \A x \in ToSet(st.cats[k]) : x \in All
(* an operation touches the object it is called on and no other *)
Touched(o) == IF "k" \in DOMAIN o /\ o.op # "clone" THEN <<o.k, 0>> ELSE IF "m" \in DOMAIN o /\ o.op \in {"mappend", "mps", "mremove"} THEN <<0, o.m>> ELSE <<0, 0>>
Independent == [][LET o == LastOf(hist') IN
    /\ \A k \in 1..Len(st.cats) : k # Touched(o)[1] => st'.cats[k] = st.cats[k]
    /\ \A m \in 1..Len(st.mkts) : m # Touched(o)[2] => st'.mkts[m] = st.mkts[m]]_vars
Emit == Len(hist) = Depth + Len(Prefix) => PrintT("CASE" \o ToJson([hist |-> hist, st |-> st]))
=========================================================================
