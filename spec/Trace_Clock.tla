--------------------------- MODULE Trace_Clock ---------------------------
(* Judges recorded histories of price vectors, step by step.             *)
(* kind "single": the vector of one recipe; kind "joint": simultaneous   *)
(* clocks over a tree, in weighted prices; kind "initial": start prices. *)
EXTENDS Clocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, at, fails
Init == id \in 1..Len(Trace) /\ at = 0 /\ fails = {}
C == Trace[id]
Before == IF at = 0 THEN C.first ELSE C.steps[at].p      \* recorded prices before step at+1
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol

SingleFails(p, s) ==
    IF s.st # "ok" THEN {"C16:" \o s.st}
    ELSE UNION {
        Clause("C16:price", NearSeq(s.p, AfterRaise(C.w, p, s.c, s.x, s.b), 0)),
        Clause("C16:status", s.status = RaiseStatus(C.w, p, s.c, s.x, s.b)),
        Clause("C16:sum", s.sum = Weighted(C.w, s.p)),
        Clause("C16:sum without", s.wo = Without(C.w, s.p, s.c)),
        Clause("C16:sum after", s.sumafter = Without(C.w, s.p, s.c) + C.w[s.c] * s.x),
        Clause("C16:item", s.item = s.p[s.c]) }

JointFails(p, s) ==
    IF ~s.legal THEN   \* not one category per recipe
        UNION {Clause("C17:refusal", s.st = "err"), Clause("C17:refusal without effect", s.p = p /\ s.status = s.before),
               Clause("C28:prices refused", s.st = "err" /\ s.p = p)}
    ELSE IF s.st # "ok" THEN {"C17:" \o s.st}
    ELSE UNION {
        Clause("C17:prices", NearSeq(s.p, AfterJoint(C.tree, p, s.inc, s.b), 0)),
        Clause("C17:status", \/ s.status = JointStatus(C.tree, p, s.inc, s.b)
                             \/ C.fragile /\ JointTie(C.tree, p, s.inc, s.b)),
        Clause("C17:sum", s.sum = TreeSum(C.tree, s.p)),
        Clause("C17:equal sums", \A i \in 1..Len(Paths(C.tree)) : PathQ(C.tree, s.p, Paths(C.tree)[i]) = TreeSum(C.tree, s.p)),
        Clause("C17:others", s.othersfixed) }

InitialFails ==
    IF C.st # "ok" THEN {"C18:" \o C.st}
    ELSE UNION {
        Clause("C18:length", Len(C.plain) = C.ncat),
        Clause("C18:equal sums", \A i \in 1..Len(Paths(C.tree)) :
             Abs(PathQ(C.tree, C.first, Paths(C.tree)[i]) - PathQ(C.tree, C.first, Paths(C.tree)[1])) <= C.tol),
        Clause("C18:bound", \A i \in 1..Len(C.plain) : C.plain[i] <= C.bound) }

Next == /\ at < Len(C.steps)
        /\ fails' = fails \union (IF C.kind = "single" THEN SingleFails(Before, C.steps[at + 1]) ELSE JointFails(Before, C.steps[at + 1]))
        /\ at' = at + 1 /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_<<id, at, fails>>
Judge == at = Len(C.steps) =>
    PrintT("VERDICT" \o ToJson([id |-> C.id, fails |-> fails \union (IF C.kind = "initial" THEN InitialFails ELSE {})]))
=========================================================================
