--------------------------- MODULE Trace_Stock ---------------------------
(* Recorded experiments on stock prices (kind "exp"), and categories made  *)
(* of price files (kind "recipe", "tree", "all").                          *)
(* exp: markets, each of a stock and a size (indices), with the outcome of *)
(* every auction on it; rows, each with the markets it should cover        *)
(* (by stock) and its columns.                                             *)
EXTENDS Stocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE id
Init == id \in 1..Len(Trace)
Next == FALSE /\ UNCHANGED id
TraceSpec == Init /\ [][Next]_id

Tree(c) == c.mode = "tree"
(* what the specification knows about a market *)
Facts(c, m) == IF Tree(c) THEN [k |-> TreeOptK(c.tree, m.mkt), k0 |-> TreeOptK(c.tree, m.mkt), g |-> TreeOptGFT(c.tree, m.mkt), ones |-> FALSE]
               ELSE [k |-> OptKStrict(m.mkt, c.rec), k0 |-> OptK(m.mkt, c.rec), g |-> OptGFT(m.mkt, c.rec), ones |-> \A i \in 1..Len(c.rec) : c.rec[i] = 1]
MinMaxes(c, m) == {KMinMax(v) : v \in BestVecs(c.tree, m.mkt, 1, TreeOptK(c.tree, m.mkt))}

Members(c, s, a) == SelectSeq([i \in 1..Len(c.markets) |-> i], LAMBDA i : c.markets[i].stock = s /\ c.markets[i].size = a)
Capacity(c, s) == IF c.mode = "repeat" THEN 1000000 ELSE c.avail[s]

(* the values of a market are prices of its stock: value = price * num / den *)
Price(c, x, v) == (Abs(v) * c.den[x]) \div c.num[x]
Sign(x) == IF x = 1 THEN 1 ELSE -1
Drawn(c, m) ==
    /\ Len(m.mkt) = Len(c.num)
    /\ \A x \in 1..Len(m.mkt) : \A y \in 1..Len(m.mkt[x]) :
         m.mkt[x][y] * Sign(x) > 0 /\ (Abs(m.mkt[x][y]) * c.den[x]) % c.num[x] = 0
    /\ LET p == [x \in 1..Len(m.mkt) |-> [y \in 1..Len(m.mkt[x]) |-> Price(c, x, m.mkt[x][y])]]
       IN  IF c.flat THEN LET f == Concat(p) IN \A v \in ToSet(f) : CountIn(f, v) <= c.copies[m.stock] * CountIn(c.stocks[m.stock][1], v)
           ELSE \A x \in 1..Len(p) : SubMulti(p[x], c.stocks[m.stock][x])
SizeOK(c, m) == LET n == c.sizes[m.size] IN
    IF n <= Capacity(c, m.stock) THEN [x \in 1..Len(m.mkt) |-> Len(m.mkt[x])] = c.want[m.size]
    ELSE c.flat \/ [x \in 1..Len(m.mkt) |-> Len(m.mkt[x])] = [x \in 1..Len(c.stocks[m.stock]) |-> Len(c.stocks[m.stock][x])]
MarketFails(c, i) == LET m == c.markets[i] IN UNION {
    Clause("C31:drawn", Drawn(c, m)),
    Clause("C31:size", SizeOK(c, m)),
    Clause("C31:asked", m.asked) }

CountsOK(c) == \A s \in 1..Len(c.avail) : \A a \in 1..Len(c.sizes) :
    LET n == Len(Members(c, s, a)) IN IF c.sizes[a] <= Capacity(c, s) THEN n = c.iters ELSE n <= c.iters

(* Every market of a repeated simulation is drawn anew: where a category can be filled in many ways, the draws are not all the same. *)
(* (Out of Many different prices, the chance that Often draws agree is below Many^(1 - Often).)                                      *)
Many == 20
Often == 8
Anew(c) == c.mode \in {"repeat", "tree"} => \A s \in 1..Len(c.avail) : \A a \in 1..Len(c.sizes) :
    LET ms == Members(c, s, a)
        pool(x) == c.stocks[s][IF c.flat THEN 1 ELSE x]
    IN  (c.sizes[a] <= Capacity(c, s) /\ Len(ms) >= Often) => \A x \in 1..Len(c.num) :
          (Len(pool(x)) >= Many /\ Cardinality(ToSet(pool(x))) = Len(pool(x)) /\ c.want[a][x] >= 1 /\ c.want[a][x] < Len(pool(x)))
             => \E i \in 2..Len(ms) : ~SameMulti(c.markets[ms[i]].mkt[x], c.markets[ms[1]].mkt[x])

(* r.stock = 0: the mean over the stocks *)
RowFails(c, r) ==
    LET ss == SelectSeq([s \in 1..Len(c.avail) |-> s], LAMBDA s : (r.stock = 0 \/ r.stock = s) /\ Len(Members(c, s, r.size)) > 0)
        ms == [i \in 1..Len(ss) |-> Members(c, ss[i], r.size)]
        fs == [i \in 1..Len(ss) |-> [j \in 1..Len(ms[i]) |-> Facts(c, c.markets[ms[i][j]])]]
        col(q, a) == MeanOfMeans([i \in 1..Len(ss) |-> [j \in 1..Len(ms[i]) |-> Quantity(q, fs[i][j], c.markets[ms[i][j]].outs[a])]])
        slack(q) == 2 + MeanOfMeans([i \in 1..Len(ss) |-> [j \in 1..Len(ms[i]) |-> Slack(q, fs[i][j])]])
        colOK(k) == LET x == r.cols[k] IN Near(x.v, col(x.q, x.a), slack(x.q) + x.tol)
    IN  IF ss = <<>> THEN {"C31:row without a market"}
        ELSE UNION {
          Clause("C31:labels", r.labels),
          Clause("C31:possible trades", \E i \in 1..Len(ss) : Abs(r.num - 1000 * Fill(Capacity(c, ss[i]), c.sizes[r.size])) <= r.numtol),
          UNION {Clause("C31:" \o r.cols[k].q, colOK(k)) : k \in 1..Len(r.cols)},
          IF ~Tree(c) THEN {} ELSE
            LET mm == Concat([i \in 1..Len(ss) |-> [j \in 1..Len(ms[i]) |-> MinMaxes(c, c.markets[ms[i][j]])]])
                n == Len(mm)
                some == \A j \in 1..n : <<NoDeals, 0>> \notin mm[j]
                bound(f(_)) == SumSeq([j \in 1..n |-> f(mm[j])])
            IN UNION {
              Clause("C31:kmin", some => r.kmin * n >= 1000 * bound(LAMBDA S : SetMin({x[1] : x \in S})) - n /\ r.kmin * n <= 1000 * bound(LAMBDA S : SetMax({x[1] : x \in S})) + n),
              Clause("C31:kmax", r.kmax * n >= 1000 * bound(LAMBDA S : SetMin({x[2] : x \in S})) - n /\ r.kmax * n <= 1000 * bound(LAMBDA S : SetMax({x[2] : x \in S})) + n),
              (* (1 - 1 / kmin) in percent *)
              Clause("C31:formula", some => IF r.kmin <= 1000 THEN r.formula <= 2 ELSE Abs(r.formula * r.kmin - (r.kmin - 1000) * 100000) <= 2 * r.kmin + 100000) } }

(* a row for every stock and size that was simulated, or for every size, or both; each once *)
RowKeys(c) == {<<r.stock, r.size>> : r \in {c.rows[i] : i \in 1..Len(c.rows)}}
Simulated(c) == {<<c.markets[i].stock, c.markets[i].size>> : i \in 1..Len(c.markets)}
WantedKeys(c) == (IF c.each THEN Simulated(c) ELSE {}) \cup (IF c.mean THEN {<<0, x[2]>> : x \in Simulated(c)} ELSE {})
RowsOK(c) == RowKeys(c) = WantedKeys(c) /\ Len(c.rows) = Cardinality(RowKeys(c))

(* Two auctions that are compared with each other: every market on which the second does worse than the first is reported, and, if     *)
(* differences are asked for, every market on which they differ. Gains that are this close may be equal or not.                       *)
Reports(c, p) == (IF c.report /\ p[1] # p[2] THEN 1 ELSE 0) + (IF p[1] > p[2] THEN 1 ELSE 0)
Blur == 4
Close(x, y) == Abs(x[1] - y[1]) <= Blur /\ Abs(x[2] - y[2]) <= Blur
ReportedOK(c) ==
    LET n == Len(c.markets)
        k == [i \in 1..n |-> <<1000 * c.markets[i].outs[1].ak, 1000 * c.markets[i].outs[2].ak>>]
        g == [i \in 1..n |-> <<c.markets[i].outs[1].at, c.markets[i].outs[2].at>>]
        unclear == {i \in 1..n : g[i][1] < Blur \/ Abs(g[i][1] - g[i][2]) <= Blur}
        wantk == Concat([i \in 1..n |-> [j \in 1..Reports(c, k[i]) |-> k[i]]])
        atLeast == SumSeq([i \in 1..n |-> IF i \in unclear THEN 0 ELSE Reports(c, g[i])])
        atMost == atLeast + 2 * Cardinality(unclear)
    IN  /\ c.repk = wantk
        /\ atLeast <= Len(c.repg) /\ Len(c.repg) <= atMost
        /\ \A x \in ToSet(c.repg) : \E i \in 1..n : Close(x, g[i]) /\ (i \in unclear \/ Reports(c, g[i]) > 0)
        /\ \A i \in 1..n : i \in unclear \/ Reports(c, g[i]) = 0 \/ \E x \in ToSet(c.repg) : Close(x, g[i])
        /\ (\A a \in 1..Len(c.sizes) : c.sizes[a] < 10) => c.shown = Len(c.repk) + Len(c.repg)

ExpFails(c) ==
    IF c.st # "ok" THEN {"C31:" \o c.st}
    ELSE LET mf == UNION {MarketFails(c, i) : i \in 1..Len(c.markets)} IN UNION {
           mf, Clause("C31:markets", CountsOK(c) /\ c.stray = 0),
           Clause("C31:rows", RowsOK(c)),
           Clause("C31:anew", mf = {} => Anew(c)),
           Clause("C31:reported", (c.sbb /\ c.stray = 0) => ReportedOK(c)),
           IF mf # {} \/ ~RowsOK(c) THEN {} ELSE UNION {RowFails(c, c.rows[i]) : i \in 1..Len(c.rows)} }

----------------------------------------------------------------------
FileFails(c) ==
    IF c.st # "ok" THEN {"C32:" \o c.st}
    ELSE UNION {
      Clause("C32:recipe", c.kind = "recipe" => RecipePricesOK(c.rec, c.high, c.close, c.open, c.low, c.cats)),
      Clause("C32:tree", c.kind = "tree" => TreePricesOK(c.high \o c.close \o c.open \o c.low, c.counts2, c.mults, c.cats)),
      Clause("C32:all", c.kind = "all" => SameMulti(c.cats[1], Values(c.high \o c.close \o c.open \o c.low))),
      Clause("C32:mixed", c.kind = "tree" => Mixed(Values(c.high \o c.close \o c.open \o c.low), Dealt(c.cats, c.mults))),
      Clause("C32:mixed", c.kind = "all" => Mixed(Values(c.high \o c.close \o c.open \o c.low), c.cats[1])),
      Clause("C32:again", c.again # <<>> => c.again[1] = c.cats),
      Clause("C32:names", c.names) }

Fails(c) == IF c.kind = "exp" THEN ExpFails(c) ELSE FileFails(c)
Judge == PrintT("VERDICT" \o ToJson([id |-> Trace[id].id, fails |-> Fails(Trace[id])]))
==========================================================================
