-------------------------- MODULE MC_Archive --------------------------
(* Packing procurement-sets one by one, in any order, never gets further   *)
(* than the sizes allow, and can get that far.                             *)
EXTENDS Archive, Json
CONSTANTS RecipeLists, MaxSize
VARIABLES recs, sizes, left, packed
vars == <<recs, sizes, left, packed>>
N == Len(sizes)
Init == /\ recs \in RecipeLists /\ sizes \in [1..Len(recs[1]) -> 0..MaxSize] /\ left = sizes /\ packed = 0
Can(r) == \A c \in 1..N : recs[r][c] > 0 => left[c] > 0
Pack(r) == Can(r) /\ packed' = packed + 1 /\ left' = [c \in 1..N |-> IF recs[r][c] > 0 THEN left[c] - 1 ELSE left[c]] /\ UNCHANGED <<recs, sizes>>
Next == \E r \in 1..Len(recs) : Pack(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Judged == Usable(recs, N) /\ \A r \in 1..Len(recs) : Own(recs, N, r) # {}
Bounded == Judged => packed <= SetsBySizes(recs, sizes)
Formula == Judged => SetsBySizes(recs, sizes) = MostSets(recs, sizes)
Stuck == \A r \in 1..Len(recs) : ~Can(r)
(* with categories of one or all recipes any maximal packing is a largest one *)
Greedy == Judged /\ Stuck => packed = MostSets(recs, sizes)
Ends == <>Stuck
Emit == packed = 0 => PrintT("CASE" \o ToJson([recs |-> recs, sizes |-> sizes]))
=======================================================================
