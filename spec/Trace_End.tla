---------------------------- MODULE Trace_End ----------------------------
(* Recorded runs on inputs of which only this is judged: each ended with  *)
(* an outcome, whose number of deals the traders can serve.               *)
EXTENDS Trees, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == id \in 1..Len(Trace)
TraceNext == UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_id
Most(c) == IF c.kind = "single" THEN SetMin({c.sizes[i] \div c.rec[i] : i \in {j \in 1..Len(c.rec) : c.rec[j] > 0}})
           ELSE NumDeals(c.tree, c.sizes, 1)
Fails(c) == IF c.st # "ok" THEN {"C27:" \o c.st}
            ELSE Clause("C27:outcome", c.deals >= 0 /\ c.deals <= Most(c))
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
==========================================================================
