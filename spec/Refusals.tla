---------------------------- MODULE Refusals ----------------------------
(* Which requests are legal, and what a market contains after a request. *)
(* A request that is not legal is refused and changes nothing.           *)
(*   auction, optimal  a recipe rec on a market                          *)
(*   mcafee            a recipe that must consist of ones                *)
(*   append            one trader (vals) per category                    *)
(*   tree              a nested description: [len, kids]                 *)
(*   clocks            recipes of the lengths lens                       *)
(*   raise             increases that hit the recipes hits[1..n] times   *)
EXTENDS Base
RECURSIVE EvenList(_)
EvenList(d) == d.len % 2 = 0 /\ \A i \in 1..Len(d.kids) : EvenList(d.kids[i])

Legal(ms, o) ==
    CASE o.op \in {"auction", "optimal"} -> Len(o.rec) = Len(ms)
      [] o.op = "mcafee" -> Len(o.rec) = Len(ms) /\ \A i \in 1..Len(o.rec) : o.rec[i] = 1
      [] o.op = "append" -> Len(o.vals) = Len(ms)
      [] o.op = "tree"   -> EvenList(o.shape)
      [] o.op = "clocks" -> o.lens # <<>> /\ \A i \in 1..Len(o.lens) : o.lens[i] = o.lens[1]
      [] o.op = "raise"  -> \A i \in 1..Len(o.hits) : o.hits[i] = 1

After(ms, o) == IF o.op = "append" /\ Legal(ms, o)
                THEN [i \in 1..Len(ms) |-> SortDesc(Append(ms[i], o.vals[i]))] ELSE ms
Answer(ms, o) == IF Legal(ms, o) THEN "ok" ELSE "err"
=========================================================================
