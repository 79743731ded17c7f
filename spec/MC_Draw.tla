---------------------------- MODULE MC_Draw ----------------------------
(* n traders are drawn one after another and kept in descending order.   *)
EXTENDS Draws, Json
CONSTANTS DrawSet, Signs, MaxN
VARIABLES n, fold, sign, xs, vals
vars == <<n, fold, sign, xs, vals>>
Init == n \in 0..MaxN /\ fold \in BOOLEAN /\ sign \in Signs /\ (~fold => sign = 1) /\ xs = <<>> /\ vals = <<>>
Value(x, v) == RoundsTo(v, Signed(fold, sign, x))
Candidates(x) == LET s == Signed(fold, sign, x) IN {v \in ((s \div 1000) - 1)..((s \div 1000) + 1) : Value(x, v)}
Next == /\ Len(xs) < n
        /\ \E x \in DrawSet : \E v \in Candidates(x) : xs' = Append(xs, x) /\ vals' = SortDesc(Append(vals, v))
        /\ UNCHANGED <<n, fold, sign>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnePerDraw == Len(vals) = Len(xs) /\ Len(xs) <= n
Descending == IsDesc(vals)
Bound == SetMax({Abs(x) : x \in DrawSet})
SignKept == \A i \in 1..Len(vals) : fold => vals[i] * sign >= 0
InReach == \A i \in 1..Len(vals) : Reachable(vals[i], IF fold THEN (IF sign > 0 THEN 0 ELSE sign * Bound) ELSE SetMin(DrawSet),
                                                       IF fold THEN (IF sign > 0 THEN sign * Bound ELSE 0) ELSE SetMax(DrawSet))
Explained == FromDraws(vals, [i \in 1..Len(xs) |-> Signed(fold, sign, xs[i])])
Ends == <>(Len(xs) = n)
Emit == Len(xs) = n => PrintT("CASE" \o ToJson([fold |-> fold, sign |-> sign, xs |-> xs]))
========================================================================
