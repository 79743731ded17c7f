---------------------------- MODULE Trace_Exp ----------------------------
(* Recorded experiments.  groups[i]: the markets simulated for the i-th    *)
(* size, with the outcome of the auction on each (gains in 1/100; in a     *)
(* comparison in 1/2520); rows: what the table says (S units).             *)
EXTENDS Experiments, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id

GroupFails(c, i) ==
    LET g == c.groups[i] IN UNION {
      Clause("C29:markets", Len(g) = c.iters),
      Clause("C29:traders", \A j \in 1..Len(g) : [x \in 1..Len(g[j].mkt) |-> Len(g[j].mkt[x])] = c.want[i]),
      Clause("C29:values", \A j \in 1..Len(g) : \A x \in 1..Len(g[j].mkt) : \A y \in 1..Len(g[j].mkt[x]) :
                              x <= Len(c.lo) => g[j].mkt[x][y] >= c.lo[x] /\ g[j].mkt[x][y] <= c.hi[x]),
      Clause("C29:recipe", \A j \in 1..Len(g) : g[j].recipe),
      Clause("C29:new markets", (c.wide /\ Len(g) > 1) => \E j \in 1..Len(g) : g[j].mkt # g[1].mkt) }

K(c, m) == IF c.kind = "tree" THEN TreeOptK(c.tree, m) ELSE OptK(m, c.rec)
G(c, m) == IF c.kind = "tree" THEN TreeOptGFT(c.tree, m) ELSE OptGFT(m, c.rec)
Totals(c, i) == Total([j \in 1..Len(c.groups[i]) |-> LET o == c.groups[i][j] IN
                   [k |-> K(c, o.mkt), g |-> G(c, o.mkt), ak |-> o.ak, at |-> o.at, am |-> o.am]])
MinMaxes(c, i) == [j \in 1..Len(c.groups[i]) |-> LET m == c.groups[i][j].mkt IN {KMinMax(v) : v \in BestVecs(c.tree, m, 1, TreeOptK(c.tree, m))}]
RowFails(c, i) ==
    LET t == Totals(c, i)
        r == c.rows[i]
        n == c.iters
        s == c.scale
        tol == s \div 100
    IN UNION {
      Clause("C29:labels", r.size = c.sizes[i] /\ r.labels),
      Clause("C29:optimal count", MeanIs(r.k, t.k, n, s, 1)),
      Clause("C29:auction count", MeanIs(r.ak, t.ak, n, s, 1)),
      Clause("C29:count ratio", RatioIs(r.kr, t.ak, t.k, 100 * s, 1, 0)),
      Clause("C29:optimal gain", MeanIs(r.g, t.g, n, s, 1)),
      Clause("C29:auction gain", MeanIs(r.at, t.at, n, tol, tol)),
      Clause("C29:gain ratio", RatioIs(r.gr, t.at, t.g, s, tol, n)),
      Clause("C29:market gain", c.kind = "single" => MeanIs(r.am, t.am, n, tol, tol)),
      Clause("C29:market ratio", c.kind = "single" => RatioIs(r.mr, t.am, t.g, s, tol, n)),
      IF c.kind # "tree" THEN {} ELSE
        LET mm == MinMaxes(c, i)
            some == \A j \in 1..n : <<NoDeals, 0>> \notin mm[j]
            low  == SumSeq([j \in 1..n |-> SetMin({x[1] : x \in mm[j]})])
            high == SumSeq([j \in 1..n |-> SetMax({x[1] : x \in mm[j]})])
            low2 == SumSeq([j \in 1..n |-> SetMin({x[2] : x \in mm[j]})])
            high2 == SumSeq([j \in 1..n |-> SetMax({x[2] : x \in mm[j]})])
        IN UNION {
          Clause("C29:kmin", some => r.kmin * n >= low * s - n /\ r.kmin * n <= high * s + n),
          Clause("C29:kmax", r.kmax * n >= low2 * s - n /\ r.kmax * n <= high2 * s + n),
          (* (kmin - 1) / (kmin + 1) in percent *)
          Clause("C29:formula", some => IF r.kmin <= s THEN r.formula <= 2 ELSE Abs(r.formula * (r.kmin + s) - (r.kmin - s) * 100 * s) <= 2 * 100 * s + r.kmin + s) } }

(* a comparison of the two auctions: one row for the recipe *)
Wins(c, w(_)) == Cardinality({i \in 1..Len(c.groups) : w(i)})
SumOf(c, i, f(_)) == SumSeq([j \in 1..Len(c.groups[i]) |-> f(c.groups[i][j])])
WinBy(c, i, f(_), h(_)) == Winner(SumOf(c, i, f), SumOf(c, i, h))
(* blurred: equal up to the noise of floating point *)
CompareFails(c) ==
    LET n == Len(c.groups)
        r == c.rows[1]
        gain(i) == WinBy(c, i, LAMBDA o : o.at, LAMBDA o : o.at2)
        deals(i) == WinBy(c, i, LAMBDA o : o.ak, LAMBDA o : o.ak2)
        slack == Wins(c, LAMBDA i : c.blurred[i])
        gw(x) == Wins(c, LAMBDA i : gain(i) = x)
        dw(x) == Wins(c, LAMBDA i : deals(i) = x)
        g3 == <<gw("first"), gw("tie"), gw("second")>>
        d3 == <<dw("first"), dw("tie"), dw("second")>>
    IN UNION {
      Clause("C29:labels", r.labels),
      Clause("C29:gain wins", \A x \in 1..3 : Abs(r.wins[x] - g3[x]) <= slack),
      Clause("C29:gain wins sum", r.wins[1] + r.wins[2] + r.wins[3] = n),
      Clause("C29:gain win percentages", \A x \in 1..3 : PercentIs(r.gp[x], r.wins[x], n)),
      Clause("C29:deal win percentages", \A x \in 1..3 : PercentIs(r.kp[x], d3[x], n)) }

Spread(c) == \A x \in 1..Len(c.lo) :
    LET vs == Concat([i \in 1..Len(c.groups) |-> Concat([j \in 1..Len(c.groups[i]) |-> c.groups[i][j].mkt[x]])])
        width == c.hi[x] - c.lo[x]
    IN  (Len(vs) >= 300 /\ width >= 100) =>
          /\ \E v \in 1..Len(vs) : 8 * (vs[v] - c.lo[x]) <= width
          /\ \E v \in 1..Len(vs) : 8 * (c.hi[x] - vs[v]) <= width

Fails(c) ==
    IF c.st # "ok" THEN {"C29:" \o c.st}
    ELSE LET gf == UNION {GroupFails(c, i) : i \in 1..Len(c.groups)}
             count == IF c.kind = "compare" THEN 1 ELSE Len(c.sizes)
         IN UNION { gf, Clause("C29:markets", Len(c.groups) = Len(c.sizes) /\ c.stray = 0),
                    Clause("C29:rows", Len(c.rows) = count),
                    IF gf # {} \/ Len(c.rows) # count \/ Len(c.groups) # Len(c.sizes) THEN {}
                    ELSE Clause("C29:spread", Spread(c)) \union
                         (IF c.kind = "compare" THEN CompareFails(c) ELSE UNION {RowFails(c, i) : i \in 1..Len(c.sizes)}) }
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
==========================================================================
