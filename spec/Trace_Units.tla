--------------------------- MODULE Trace_Units ---------------------------
(* Pairs of recorded answers to the same question about the same market,   *)
(* given in two units.  counts: numbers that are not money (deals, sizes,  *)
(* categories, ...); money: amounts, the second time divided by the factor *)
(* again, in units of 1/c.unit.                                            *)
EXTENDS Units, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
Fails(c) ==
    IF c.st # c.dst THEN {"C37:" \o c.dst}
    ELSE IF c.st # "ok" THEN {}
    ELSE UNION { Clause("C37:counts", c.counts = c.dcounts), Clause("C37:money", Near(c.money, c.dmoney, c.slack)) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
==========================================================================
