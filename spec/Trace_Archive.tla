------------------------- MODULE Trace_Archive -------------------------
(* Recorded answers of the archived protocols: kind "recipes" (analysis    *)
(* and number of sets), "units" (buyers of several kinds), "start" (the    *)
(* start prices of the archived clocks).                                   *)
EXTENDS Archive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id

Used(recs, n) == {i \in 1..n : Uses(recs, i) # {}}
SortedSet(S) == SetToSortSeq(S, <)
Recipes(c) == LET n == Len(c.sizes) IN
    IF ~Usable(c.recs, n) THEN Clause("C35:refused", c.st = "err")
    ELSE IF c.st # "ok" THEN {"C35:" \o c.st}
    ELSE UNION {
        Clause("C35:recipes of a category", Len(c.uses) = n /\ \A i \in 1..n : Len(c.uses[i]) = Cardinality(Uses(c.recs, i)) /\ ToSet(c.uses[i]) = Uses(c.recs, i)),
        Clause("C35:common", ToSet(c.common) = Common(c.recs, n)),
        Clause("C35:own", Len(c.own) = Len(c.recs) /\ \A r \in 1..Len(c.recs) : ToSet(c.own[r]) = Own(c.recs, n, r)),
        Clause("C35:sets", (\A r \in 1..Len(c.recs) : Own(c.recs, n, r) # {}) => c.deals = MostSets(c.recs, c.sizes)),
        Clause("C35:no trade", (\A r \in 1..Len(c.recs) : Own(c.recs, n, r) # {}) => /\ (c.text = "none") = (MostSets(c.recs, c.sizes) = 0) /\ c.gain = 0),
        Clause("C35:listed", c.text = "some" => c.listed = [i \in 1..Cardinality(Used(c.recs, n)) |-> c.sizes[SortedSet(Used(c.recs, n))[i]]]) }
Units(c) == LET n == Len(c.sizes) IN
    IF ~SellerUsable(c.recs, n) THEN Clause("C35:refused", c.st = "err")
    ELSE IF c.st # "ok" THEN {"C35:" \o c.st}
    ELSE UNION {
        Clause("C35:units", c.units = UnitsOf(c.recs, n)),
        Clause("C35:demand", c.demand = Demand(c.sizes, c.units) /\ c.offer = LastOf(c.sizes)),
        Clause("C35:traded", c.deals = UnitsTraded(c.sizes, c.units)),
        Clause("C35:no trade", (c.text = "none") = (UnitsTraded(c.sizes, c.units) = 0) /\ c.gain = 0),
        Clause("C35:listed", c.text = "some" => Len(c.listed) = n /\ ToSet(c.listed) = ToSet(c.sizes)) }
Start(c) ==
    IF c.st # "ok" THEN {"C35:" \o c.st}
    ELSE UNION {
        Clause("C35:start sums", \A r \in 1..Len(c.recs) : SumSeq([i \in 1..Len(c.sizes) |-> IF c.recs[r][i] > 0 THEN c.first[i] ELSE 0]) = c.total),
        Clause("C35:start bound", \A i \in 1..Len(c.sizes) : c.first[i] * Len(c.sizes) <= c.total) }
Fails(c) == CASE c.kind = "recipes" -> Recipes(c) [] c.kind = "units" -> Units(c) [] OTHER -> Start(c)
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
========================================================================
