-------------------------- MODULE Trace_Truth --------------------------
(* Pairs of recorded runs that differ in the report of one trader. *)
EXTENDS Outcome, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == id \in 1..Len(Trace)
TraceNext == UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_id
Shape(o, rec) == o.deals >= 0 /\ (o.deals > 0 => Len(o.cats) = Len(rec) /\ Len(o.prices) = Len(rec))
Gain(c, o, r) == UtilityOf(c.rec, o, c.cat, r, c.val)
Fails(c) ==
    IF c.st # "ok" THEN {}
    ELSE IF ~Shape(c.base, c.rec) \/ ~Shape(c.dev, c.rec) THEN {c.pid \o ":shape"}
    ELSE Clause(c.pid \o ":gain", FracLeq(Gain(c, c.dev, c.rep), Gain(c, c.base, c.val), c.slack))
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
=======================================================================
