--------------------------- MODULE Trace_Tr ---------------------------
(* As Trace_Asc, for the external-competition trade reduction. *)
EXTENDS TradeReduction, Json, IOUtils
V == INSTANCE Verdict
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == \E k \in 1..Len(Trace) : id = k /\ TrInit(Trace[k].mkt, Trace[k].rec, Trace[k].opt)
TraceNext == TrNext /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, id>>
Judge == pc = "done" =>
    PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> V!Fails(Trace[id], out, "C10", Trace[id].opt, TRUE), want |-> out]))
=======================================================================
