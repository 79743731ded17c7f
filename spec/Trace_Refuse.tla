--------------------------- MODULE Trace_Refuse ---------------------------
(* Recorded histories of requests, judged step by step.                   *)
(*   ms   content after the step;  args  the arguments were left alone    *)
(*   ans, ref  the answer, and the answer a new object gives              *)
EXTENDS Refusals, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, i, ms, fails, refused
vars == <<id, i, ms, fails, refused>>
C == Trace[id]
Init == id \in 1..Len(Trace) /\ i = 0 /\ ms = Trace[id].start /\ fails = {} /\ refused = FALSE
Check(e) == UNION {
    Clause("C28:" \o e.o.op \o (IF Legal(ms, e.o) THEN " usable" ELSE " accepted"), e.st = Answer(ms, e.o) \/ (Legal(ms, e.o) /\ e.st = e.refst)),
    Clause("C28:" \o e.o.op \o " market", e.ms = After(ms, e.o) \/ (Legal(ms, e.o) /\ e.ms = e.refms)),
    Clause("C28:" \o e.o.op \o " arguments", Legal(ms, e.o) \/ e.args),
    Clause("C28:" \o e.o.op \o " answer", Legal(ms, e.o) => e.ans = e.ref) }
Next == /\ i < Len(C.steps) /\ fails = {}
        /\ fails' = Check(C.steps[i + 1])
        /\ ms' = IF Legal(ms, C.steps[i + 1].o) THEN C.steps[i + 1].ms ELSE ms
        /\ refused' = (refused \/ ~Legal(ms, C.steps[i + 1].o))
        /\ i' = i + 1 /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_vars
(* before anything was refused, only acceptance of the illegal is ours to judge *)
Judge == (i = Len(C.steps) \/ fails # {}) =>
    PrintT("VERDICT" \o ToJson([id |-> C.id, at |-> i, refused |-> refused, fails |-> IF refused THEN fails ELSE {}]))
===========================================================================
