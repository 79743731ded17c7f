----------------------- MODULE Trace_Competition -----------------------
(* Recorded answers about external competition.  paid: what a group of     *)
(* each category pays at the prices returned (price times count).          *)
EXTENDS Competition, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id
Fails(c) ==
    IF c.st # "ok" THEN {"C34:" \o c.st}
    ELSE UNION {
        Clause("C34:best", Len(c.s) = Len(c.cats) /\ IsBestContaining(c.cats, c.p, c.v, c.s)),
        Clause("C34:others", Len(c.paid) = Len(c.rec) /\ OthersAsCompeting(c.rec, c.p, c.given, c.paid)),
        Clause("C34:balance", PricesBalance(c.rec, c.paid)),
        Clause("C34:pivot", PivotNotOvercharged(c.rec, c.p, c.v, c.given, c.paid)),
        Clause("C34:unchanged", c.unchanged) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
========================================================================
