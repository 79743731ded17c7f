-------------------------- MODULE Trace_History --------------------------
(* Recorded histories.  The memo starts with the answers of a process in  *)
(* which each question was asked on a new market of its own (refs).       *)
EXTENDS History, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, i, ms, memo, fails
vars == <<id, i, ms, memo, fails>>
C == Trace[id]
Init == id \in 1..Len(Trace) /\ i = 0 /\ ms = Trace[id].start /\ fails = {}
        /\ memo = {<<<<r.mech, r.mkt, r.arg>>, r.ans>> : r \in {Trace[id].refs[k] : k \in 1..Len(Trace[id].refs)}}
Check(e, n) == UNION {
    Clause("C13:error", e.st = "ok"),
    Clause("C13:market", e.ms = n),
    Clause("C13:arguments", e.args),
    Clause("C13:earlier", e.kept),
    Clause("C13:outcome", (e.o.op = "call" /\ e.st = "ok") => Consistent(memo, Asked(ms, e.o), e.ans)) }
Next == /\ i < Len(C.steps) /\ fails = {}
        /\ LET e == C.steps[i + 1]
               n == ContentAfter(ms, e.o)
           IN  /\ fails' = Check(e, n)
               /\ ms' = n
               /\ memo' = IF e.o.op = "call" THEN memo \cup {<<Asked(ms, e.o), e.ans>>} ELSE memo
        /\ i' = i + 1 /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_vars
Judge == (i = Len(C.steps) \/ fails # {}) =>
    PrintT("VERDICT" \o ToJson([id |-> C.id, fails |-> fails, at |-> i, markets |-> ms]))
==========================================================================
