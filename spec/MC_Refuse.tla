---------------------------- MODULE MC_Refuse ----------------------------
(* Every history of Depth requests, legal and illegal, on one market.      *)
EXTENDS Refusals, Json
CONSTANTS Start, Recs, Adds, Shapes, Lens, Depth
VARIABLES ms, hist
vars == <<ms, hist>>
Ops == {[op |-> a, rec |-> r] : a \in {"auction", "optimal", "mcafee"}, r \in Recs}
  \cup {[op |-> "append", vals |-> v] : v \in Adds}
  \cup {[op |-> "tree", shape |-> d] : d \in Shapes} \cup {[op |-> "clocks", lens |-> l] : l \in Lens}
Init == ms = Start /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in Ops : ms' = After(ms, o) /\ hist' = Append(hist, [o |-> o, st |-> Answer(ms, o)])
Spec == Init /\ [][Next]_vars
RefusalChangesNothing == [][LET e == hist'[Len(hist')] IN e.st = "err" => ms' = ms]_vars
(* what was refused does not matter to what follows *)
RECURSIVE Only(_, _)
Only(m, h) == IF h = <<>> THEN m ELSE Only(IF Head(h).st = "ok" THEN After(m, Head(h).o) ELSE m, Tail(h))
Forgotten == ms = Only(Start, hist)
Same(a, b) == Len(a) = Len(b)
SameShape == Same(ms, Start)
Emit == (Len(hist) = Depth /\ \E i \in 1..Depth : hist[i].st = "err") => PrintT("CASE" \o ToJson([start |-> Start, hist |-> hist]))
==========================================================================
