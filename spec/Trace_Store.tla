--------------------------- MODULE Trace_Store ---------------------------
(* Recorded histories: the store is stepped through the recorded         *)
(* operations, and after each of them what the objects of the library    *)
(* hold and answer is compared with the store.                           *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, i, st, fails
vars == <<id, i, st, fails>>
Init == id \in 1..Len(Trace) /\ i = 0 /\ st = Empty /\ fails = {}
C == Trace[id]
Check(s, e, before) ==
    LET n == After(s, e.o) IN UNION {
        Clause("C14:contents", e.st = "ok" => e.cats = n.cats /\ e.mkts = n.mkts),
        Clause("C14:error", e.st \in {"ok", "refused"}),
        Clause("C14:refusal", (e.st = "refused") = Refused(s, e.o)),
        Clause("C14:refusalchanges", e.st = "refused" => e.cats = n.cats /\ e.mkts = n.mkts),
        Clause("C14:arguments", e.args),
        Clause("C14:queries", e.st = "ok" =>
            /\ Len(e.cq) = Len(n.cats) /\ Len(e.mq) = Len(n.mkts)
            /\ \A k \in 1..Len(e.cq) : [size |-> e.cq[k].size, high |-> e.cq[k].high, low |-> e.cq[k].low, highs |-> e.cq[k].highs] = CatAnswer(n.cats[k], e.q)
            /\ \A m \in 1..Len(e.mq) : LET r == IF Len(e.rec) = Len(n.mkts[m]) THEN e.rec ELSE [x \in 1..Len(n.mkts[m]) |-> 1] IN
                   [best |-> e.mq[m].best, hasempty |-> e.mq[m].hasempty, n |-> e.mq[m].n] = MktAnswer(n.mkts[m], r)) }
Next == /\ i < Len(C.steps) /\ fails = {}
        /\ i' = i + 1
        /\ fails' = IF Legal(st, C.steps[i + 1].o) THEN Check(st, C.steps[i + 1], st) ELSE {"harness:illegal"}
        /\ st' = After(st, C.steps[i + 1].o)
        /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_vars
Judge == (i = Len(C.steps) \/ fails # {}) =>
    PrintT("VERDICT" \o ToJson([id |-> C.id, fails |-> fails, at |-> i, store |-> st]))
=========================================================================
