--------------------------- MODULE Trace_Tree ---------------------------
(* One behaviour per recorded run of a recipe-tree auction: the machine  *)
(* runs on the recorded market from the start prices of the library, and *)
(* judges the recorded outcome.  A recorded weighted price is written    *)
(* m*big + s, where the library's start price was about m*10^8: big      *)
(* dominates all values of the case.                                     *)
EXTENDS TreeAuction, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
TraceInit == \E k \in 1..Len(Trace) : id = k /\ TreeInit(Trace[k].tree, Trace[k].mkt, Trace[k].start)
TraceNext == TreeNext /\ UNCHANGED id
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, id>>

WellFormed(c) == Len(c.cats) = Len(c.mkt) /\ Len(c.q) = Len(c.tree.cat) /\ c.deals >= 0
Tol(c) == IF c.grid THEN 0 ELSE Len(c.tree.cat) + 1
Fails(c) ==
    LET t == c.tree
        sz == SizesOf(c.cats)
        ps == Paths(t)
        exact == ~(c.fragile /\ tie)
        goodstart == /\ \A i \in 1..Len(ps) : PathSum(t, ps[i], c.start) = PathSum(t, ps[1], c.start)
                     /\ \A v \in 1..Len(t.cat) : c.start[v] <= 0 - c.big * t.w[v]
    IN  Clause("C25:start", goodstart) \union
        (IF c.st # "ok" THEN {"C25:" \o c.st, "C27:" \o c.st}
         ELSE IF ~WellFormed(c) THEN {"C25:shape", "C24:shape"}
         ELSE UNION {
            Clause("C23:sums", c.deals > 0 => \A i \in 1..Len(ps) : Abs(PathSum(t, ps[i], c.q)) <= Tol(c)),
            Clause("C24:ir", c.deals > 0 => \A v \in 1..Len(t.cat) : \A j \in 1..Len(c.cats[t.cat[v]]) :
                                 c.cats[t.cat[v]][j] * t.w[v] >= c.q[v] - Tol(c)),
            Clause("C24:highest", \A v \in 1..Len(t.cat) : IsTopOf(c.cats[t.cat[v]], c.mkt[t.cat[v]])),
            Clause("C24:feasible", c.deals <= NumDeals(t, sz, 1)),
            Clause("C24:deals", c.deals <= TreeOptK(t, c.mkt)),
            Clause("C24:gain", Abs(c.gft - TreeOptGFT(t, c.cats)) <= c.gtol),
            Clause("C24:optimum", c.gft <= TreeOptGFT(t, c.mkt) + c.gtol),
            Clause("C22:trade", c.deals = NumDeals(t, sz, 1)),
            Clause("C20:trade", /\ c.optk = TreeOptK(t, c.cats)
                                /\ Abs(c.optgft - TreeOptGFT(t, c.cats)) <= c.gtol),
            IF ~exact THEN {} ELSE UNION {
               Clause("C25:deals", c.deals = TDeals),
               Clause("C25:traders", \A v \in 1..Len(t.cat) : SortDesc(c.cats[t.cat[v]]) = rem[t.cat[v]]),
               Clause("C25:gain", Abs(c.gft - TGFT) <= c.gtol),
               Clause("C25:prices", (c.deals > 0 /\ TDeals > 0) =>
                    c.grid /\ \A v \in 1..Len(t.cat) : c.q[v] = q[v]) } })

Judge == TDone =>
    PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id]), want |-> TOutcome, tie |-> tie, rounds |-> rounds]))
=========================================================================
