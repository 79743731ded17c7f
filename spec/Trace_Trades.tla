--------------------------- MODULE Trace_Trades ---------------------------
(* What recorded trades say about themselves. *)
EXTENDS Trades, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == id \in 1..Len(Trace)
TraceNext == UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_id
SameLine(a, b) == a.values = b.values /\ a.all = b.all /\ a.sel = b.sel /\ a.of = b.of /\ a.price = b.price
Fails(c) ==
    IF c.st # "ok" THEN {"C15:" \o c.st}
    ELSE IF c.kind = "list" THEN UNION {
        Clause("C15:count", c.k = Len(c.deals)),
        Clause("C15:gain", c.gft = ListGain(c.deals)),
        Clause("C15:text", c.said = Len(c.deals) /\ c.shown = c.deals) }
    ELSE LET want == Description(c.cats, c.rec, c.prices) IN UNION {
        Clause("C15:count", c.k = Deals(c.cats, c.rec)),
        Clause("C15:total", Abs(c.total - TotalTimesL(c.cats, c.rec)) <= c.tol),
        Clause("C15:default", c.gdefault = c.total),
        Clause("C15:market", Abs(c.market - MarketTimesL(c.cats, c.rec, c.prices)) <= c.tol),
        Clause("C15:text", Len(c.lines) = Len(want) /\ \A i \in 1..Len(want) : SameLine(c.lines[i], want[i])) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id]),
    want |-> IF Trace[id].kind = "list" THEN 0 ELSE [k |-> Deals(Trace[id].cats, Trace[id].rec), L |-> LOf(Trace[id].cats, Trace[id].rec),
             total |-> TotalTimesL(Trace[id].cats, Trace[id].rec), market |-> MarketTimesL(Trace[id].cats, Trace[id].rec, Trace[id].prices)]]))
===========================================================================
