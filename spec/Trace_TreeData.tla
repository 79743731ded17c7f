------------------------- MODULE Trace_TreeData -------------------------
(* Judges what the library derives from a recipe tree and its traders:   *)
(* one state per recorded observation.                                   *)
EXTENDS Trees, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id

SizesOf(m) == [i \in 1..Len(m) |-> Len(m[i])]

(* a listed deal follows the path p: its values are those of the path's categories, in order *)
Chunk(t, p, d, i) == LET before == SumSeq([j \in 1..(i - 1) |-> t.w[p[j]]]) IN SubSeq(d, before + 1, before + t.w[p[i]])
PathLen(t, p) == SumSeq([j \in 1..Len(p) |-> t.w[p[j]]])
FollowsPath(t, m, d, p) == /\ Len(d) = PathLen(t, p)
                           /\ \A i \in 1..Len(p) : SubMulti(Chunk(t, p, d, i), m[t.cat[p[i]]])
Candidates(t, m, d) == {i \in 1..Len(Paths(t)) : FollowsPath(t, m, d, Paths(t)[i])}
RECURSIVE Assignments(_, _, _)
Assignments(t, m, ds) == IF ds = <<>> THEN {<<>>}
    ELSE {<<x>> \o r : x \in Candidates(t, m, Head(ds)), r \in Assignments(t, m, Tail(ds))}
(* traders of node v used by the deals under assignment a *)
UsedBy(t, ds, a, v) == Concat([k \in 1..Len(ds) |->
    LET p == Paths(t)[a[k]]
        hits == {i \in 1..Len(p) : p[i] = v}
    IN IF hits = {} THEN <<>> ELSE Chunk(t, p, ds[k], SetMin(hits))])
Ambiguity(t, m, ds) == FoldLeft(LAMBDA acc, d : IF acc > 64 THEN acc ELSE acc * Cardinality(Candidates(t, m, d)), 1, ds)
DealsFeasible(t, m, ds) ==
    IF \E k \in 1..Len(ds) : Candidates(t, m, ds[k]) = {} THEN FALSE
    ELSE Ambiguity(t, m, ds) > 64 \/
         \E a \in Assignments(t, m, ds) : \A v \in Nodes(t) : SubMulti(UsedBy(t, ds, a, v), m[t.cat[v]])

TotalOf(ds) == SumSeq([k \in 1..Len(ds) |-> SumSeq(ds[k])])

(* prices of the explanation are those given *)
SameExplain(c, want) ==
    /\ Len(c.lines) = Len(want)
    /\ \A i \in 1..Len(want) :
          /\ c.lines[i].what = want[i].what /\ c.lines[i].node = want[i].node
          /\ c.lines[i].sel = want[i].sel /\ c.lines[i].of = want[i].of
          /\ want[i].what # "kids" => c.lines[i].price = c.prices[want[i].node[1]]

LeafDeals(t, sz) == LET l == Leaves(t) IN [i \in 1..Len(l) |-> Fits(t, sz, l[i])]
ExplainMinMax(c, sz) ==
    LET d == LeafDeals(c.tree, sz)
        all == {d[i] : i \in 1..Len(d)}
    IN  /\ c.kmax = SetMax(all)
        /\ c.kmin = (IF ~c.skipzero THEN SetMin(all) ELSE IF all \ {0} = {} THEN 0 ELSE SetMin(all \ {0}))

OptimumFails(c) ==
    LET t == c.tree
        k == TreeOptK(t, c.mkt)
        g == TreeOptGFT(t, c.mkt)
        kk == IF c.cost <= 2000 THEN {KMinMax(v) : v \in BestVecs(t, c.mkt, 1, k)} ELSE {<<c.ckmin, c.ckmax>>}
    IN  IF c.st # "ok" THEN {"C20:" \o c.st, "C27:" \o c.st}
        ELSE UNION {
            Clause("C20:count", c.k = k /\ Len(c.listed) = k),
            Clause("C20:gain", c.gft = g /\ TotalOf(c.listed) = g),
            Clause("C20:gain only", c.gftonly = g),
            Clause("C20:feasible", DealsFeasible(t, c.mkt, c.listed)),
            Clause("C20:combined", c.combined = Marginals(t, c.mkt)),
            Clause("C20:counters", c.ck = k /\ c.cgft = g /\ c.clisted = SelectSeq(Marginals(t, c.mkt), LAMBDA x : x >= 0)),
            Clause("C20:kminmax", <<c.ckmin, c.ckmax>> \in kk) }

ArchiveFails(c) ==
    IF c.st # "ok" THEN {"C36:" \o c.st}
    ELSE LET t   == c.tree
             ps  == Paths(t)
             cut == ServedCut(t, c.sizes, 1)
             pos == PositiveMarginals(t, c.mkt)
             n   == NumDeals(t, c.sizes, 1)
             got == {v \in Nodes(t) : \E i \in 1..Len(c.cut) : c.cut[i] = t.cat[v]}
         IN UNION {
            Clause("C36:paths", c.paths = [i \in 1..Len(ps) |-> CatPath(t, ps[i])] /\ c.names = c.paths),
            Clause("C36:recipes", c.recipes = Recipes(t, c.ncat)),
            Clause("C36:cut", Cardinality(got) = Len(c.cut) /\ IsCut(t, SetToSeq(got)) /\ c.cutnames = c.cut),
            Clause("C36:choice", ToSet(c.cut) = {t.cat[cut[i]] : i \in 1..Len(cut)}),
            Clause("C36:combined size", c.combined = n /\ c.largest = SetMax({c.sizes[t.cat[cut[i]]] : i \in 1..Len(cut)})),
            Clause("C36:deals", c.deals = n /\ c.edeals = n /\ c.overall = n),
            Clause("C36:text", SameExplain(c, Explain(t, c.sizes, 1))),
            Clause("C36:values", c.values = Marginals(t, c.mkt)),
            Clause("C36:optimum", c.gftonly = SumSeq(pos) /\ (c.asked = 1 => (c.k = Len(pos) /\ Len(c.listed) = c.k /\ c.gft = SumSeq(pos) /\ TotalOf(c.listed) = SumSeq(pos)))),
            Clause("C36:feasible", DealsFeasible(t, c.mkt, c.listed)) }

Fails(c) ==
    LET t == c.tree
        n == c.ncat
    IN CASE c.topic = "archive" -> ArchiveFails(c)
         [] c.topic = "paths" ->
              IF c.st # "ok" THEN {"C19:" \o c.st}
              ELSE LET ps == Paths(t) IN UNION {
                 Clause("C19:paths", c.paths = [i \in 1..Len(ps) |-> CatPath(t, ps[i])]),
                 Clause("C19:names", c.names = [i \in 1..Len(ps) |-> CatPath(t, ps[i])]),
                 Clause("C19:recipes", c.recipes = Recipes(t, n)) }
         [] c.topic = "malformed" -> Clause("C19:refusal", c.st = "err") \union Clause("C28:tree refused", c.st = "err")
         [] c.topic = "cut" ->
              IF c.st # "ok" THEN {"C21:" \o c.st}
              ELSE LET cut == CutOf(t, c.sizes)
                       want == [i \in 1..Len(cut) |-> t.cat[cut[i]]]
                       got == {v \in Nodes(t) : \E i \in 1..Len(c.cut) : c.cut[i] = t.cat[v]}
                   IN UNION {
                 Clause("C21:cut", /\ Cardinality(got) = Len(c.cut)
                                   /\ IsCut(t, SetToSeq(got))),
                 Clause("C21:choice", ToSet(c.cut) = ToSet(want)),
                 Clause("C21:names", c.cutnames = c.cut) }
         [] c.topic = "deals" ->
              IF c.st # "ok" THEN {"C22:" \o c.st}
              ELSE UNION {
                 Clause("C22:deals", c.deals = NumDeals(t, c.sizes, 1)),
                 Clause("C22:explained", c.edeals = NumDeals(t, c.sizes, 1) /\ c.overall = c.edeals),
                 Clause("C22:text", SameExplain(c, Explain(t, c.sizes, 1))),
                 Clause("C22:kminmax", ExplainMinMax(c, c.sizes)) }
         [] c.topic = "optimum" -> OptimumFails(c)
         [] c.topic = "derived" ->
              IF c.st # "ok" THEN {"C30:" \o c.st}
              ELSE IF \E v \in Nodes(t) : t.cat[v] > Len(c.children) \/ t.cat[v] > Len(c.counts) THEN {"C30:length"}
              ELSE UNION {
                 Clause("C30:depth", c.depth = Height(t)),
                 Clause("C30:index", c.index = SetMax(ToSet(t.cat)) - 1),
                 Clause("C30:children", \A v \in Nodes(t) :
                     c.children[t.cat[v]] = (IF IsLeaf(t, v) THEN 1 ELSE Len(Children(t, v)))),
                 Clause("C30:others", \A i \in 1..Len(c.children) : (\A v \in Nodes(t) : t.cat[v] # i) => c.children[i] = 0),
                 Clause("C30:counts", \A v \in Nodes(t) : t.cat[v] = 1 => c.counts[1] = Height(t) - 1),
                 Clause("C30:leaf counts", \A v \in Nodes(t) : (IsLeaf(t, v) /\ t.cat[v] # 1) =>
                     c.counts[t.cat[v]] = Height(t) - Depth(t, v) + 1),
                 Clause("C30:inner counts", \A v \in Nodes(t) : (~IsLeaf(t, v) /\ t.cat[v] # 1) => c.counts[t.cat[v]] = 1) }

Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
=========================================================================
