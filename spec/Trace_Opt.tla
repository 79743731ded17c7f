--------------------------- MODULE Trace_Opt ---------------------------
(* Recorded computations of the optimal trade.  A deal is recorded as   *)
(* the flat tuple which the library lists.                              *)
EXTENDS Optimal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == \E k \in 1..Len(Trace) : id = k /\ OptInit(Trace[k].mkt, Trace[k].rec, Trace[k].zero, Trace[k].limit)
TraceNext == OptNext /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, id>>

Before(r, i) == SumSeq([j \in 1..(i - 1) |-> r[j]])
Group(r, d, i) == SubSeq(d, Before(r, i) + 1, Before(r, i) + r[i])
UsedIn(c, i) == Concat([d \in 1..Len(c.deals) |-> Group(c.rec, c.deals[d], i)])
WellFormed(c) == /\ \A d \in 1..Len(c.deals) : Len(c.deals[d]) = SumSeq(c.rec)
                 /\ Len(c.rem) = Len(c.mkt)

CountOf(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameDeals(a, b) == a = b \/ (Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountOf(a, a[i]) = CountOf(b, a[i]))
Fails(c) ==
    IF c.st # "ok" THEN {"C12:" \o c.st, "C27:" \o c.st}
    ELSE IF ~WellFormed(c) THEN {"C12:shape"}
    ELSE LET want == OptOutcome IN UNION {
        Clause("C12:count", c.k = Len(want.deals) /\ Len(c.deals) = c.k),
        Clause("C12:gain", c.gft = want.gain),
        Clause("C12:optimal", limit > Len(deals) => c.gft = OptGFT(c.mkt, c.rec)),
        Clause("C12:highest", \A i \in 1..Len(c.rec) : IsTopOf(UsedIn(c, i), c.mkt[i])),
        Clause("C12:partition", \A i \in 1..Len(c.rec) : SortDesc(UsedIn(c, i) \o c.rem[i]) = c.mkt[i]),
        Clause("C12:order", \A d \in 1..(Len(c.deals) - 1) : SumSeq(c.deals[d]) <= SumSeq(c.deals[d + 1])),
        Clause("C12:zero", c.zero \/ \A d \in 1..Len(c.deals) : SumSeq(c.deals[d]) > 0),
        Clause("C12:deals", SameDeals(c.deals, want.deals)) }
Judge == Done =>
    PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id]), want |-> OptOutcome]))
========================================================================
