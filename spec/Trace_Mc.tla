--------------------------- MODULE Trace_Mc ---------------------------
(* As Trace_Asc, for the McAfee double auction. *)
EXTENDS McAfee, Json, IOUtils
V == INSTANCE Verdict
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == \E k \in 1..Len(Trace) : id = k /\ McInit(Trace[k].mkt, Trace[k].rec, Trace[k].opt)
TraceNext == McNext /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, id>>
Judge == pc = "done" =>
    PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> V!Fails(Trace[id], out, "C09", TRUE, FALSE), want |-> out]))
=======================================================================
