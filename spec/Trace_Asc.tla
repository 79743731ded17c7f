--------------------------- MODULE Trace_Asc ---------------------------
(* One behaviour per recorded run of the implementation: the machine is *)
(* run on the recorded market and its outcome judges the recorded one.  *)
EXTENDS Ascending, Json, IOUtils
V == INSTANCE Verdict
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == \E k \in 1..Len(Trace) : id = k /\ AscInit(Trace[k].mkt, Trace[k].rec)
TraceNext == AscNext /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<avars, id>>
Judge == pc = "done" =>
    PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> V!Fails(Trace[id], out, "C11", TRUE, TRUE), want |-> out]))
=======================================================================
