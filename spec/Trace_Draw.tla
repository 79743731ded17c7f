--------------------------- MODULE Trace_Draw ---------------------------
(* Recorded random categories.  lo, hi: the interval of the signed draws;  *)
(* cells: intervals of values, each of which so many draws must hit;       *)
(* draws: the signed draws themselves, where they were dictated.           *)
EXTENDS Draws, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id
Fails(c) ==
    IF c.st # "ok" THEN {"C33:" \o c.st}
    ELSE UNION {
        Clause("C33:name", c.named),
        Clause("C33:number", Len(c.vals) = c.n),
        Clause("C33:whole", c.whole),
        Clause("C33:sorted", IsDesc(c.vals)),
        Clause("C33:range", \A i \in 1..Len(c.vals) : Reachable(c.vals[i], c.lo, c.hi)),
        Clause("C33:draws", c.dictated => FromDraws(c.vals, c.draws)),
        Clause("C33:spread", \A j \in 1..Len(c.cells) : \E i \in 1..Len(c.vals) : c.vals[i] >= c.cells[j][1] /\ c.vals[i] <= c.cells[j][2]),
        Clause("C33:fresh", c.fresh) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
=========================================================================
