-------------------------- MODULE Trace_TruthTree --------------------------
(* Pairs of recorded runs of a recipe-tree auction that differ in the      *)
(* report of one trader (category cat, value val, report rep).  Prices are *)
(* in the unit of the values; outcomes without deals carry no prices.      *)
EXTENDS Base, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == id \in 1..Len(Trace)
TraceNext == UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_id
Shape(o, c) == o.deals >= 0 /\ Len(o.cats) = c.ncat /\ (o.deals > 0 => Len(o.prices) = c.ncat)
Fails(c) ==
    IF c.st # "ok" THEN {}
    ELSE IF ~Shape(c.base, c) \/ ~Shape(c.dev, c) THEN {"C26:shape"}
    ELSE LET inB == CountIn(c.base.cats[c.cat], c.val) > 0
             inD == CountIn(c.dev.cats[c.cat], c.rep) > 0
         IN  UNION {
             Clause("C26:out", (~inB /\ inD /\ c.dev.deals > 0) => c.dev.prices[c.cat] >= c.val - c.slack),
             Clause("C26:numbers", (inB /\ inD) => /\ c.dev.deals = c.base.deals
                                                   /\ \A i \in {c.incats[k] : k \in 1..Len(c.incats)} : Len(c.dev.cats[i]) = Len(c.base.cats[i])),
             Clause("C26:prices", (inB /\ inD /\ c.base.deals > 0 /\ c.dev.deals > 0) =>
                  \A i \in {c.incats[k] : k \in 1..Len(c.incats)} : Abs(c.dev.prices[i] - c.base.prices[i]) <= c.slack) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
============================================================================
