----------------------------- MODULE Stocks -----------------------------
(* Experiments on stock prices.  A stock offers so many prices that it can *)
(* fill markets of up to avail procurement-sets.  A market of a size that  *)
(* the stock can fill is simulated iters times; a larger size is simulated *)
(* with all prices there are, or left out.  A row is the mean of exactly   *)
(* the markets it covers.                                                  *)
EXTENDS Experiments

Fill(avail, size) == Min2(avail, size)

(* quantities of a simulated market m, in 1/1000; o: the outcome of the auction *)
Milli(x) == 1000 * x
Percent(part, whole) == IF whole = 0 THEN 0 ELSE (part * 100) \div whole       \* part in 1/1000
Quantity(q, m, o) ==
    CASE q = "k"    -> Milli(m.k)
      [] q = "k0"   -> Milli(m.k0)
      [] q = "g"    -> Milli(m.g)
      [] q = "ak"   -> Milli(o.ak)
      [] q = "at"   -> o.at
      [] q = "am"   -> o.am
      [] q = "ak/k" -> Percent(Milli(o.ak), m.k)
      [] q = "ak/k0" -> Percent(Milli(o.ak), m.k0)
      [] q = "ak/k0 if k" -> IF m.k = 0 THEN 0 ELSE Percent(Milli(o.ak), m.k0)
      [] q = "at/g" -> Percent(o.at, m.g)
      [] q = "am/g" -> Percent(o.am, m.g)
      [] q = "formula" -> IF m.k <= 1 THEN 0 ELSE Percent(Milli(m.k - 1), IF m.ones THEN m.k ELSE m.k + 1)
(* how far a quantity may be off: o.at and o.am were rounded to 1/1000 *)
Slack(q, m) == IF q \in {"at/g", "am/g"} THEN 2 + (IF m.g = 0 THEN 0 ELSE 100 \div m.g) ELSE 1

MeanOf(xs) == SumSeq(xs) \div Len(xs)
(* the mean over stocks of the means over their markets: ms is a sequence of sequences *)
MeanOfMeans(xss) == MeanOf([s \in 1..Len(xss) |-> MeanOf(xss[s])])
Near(printed, exact, slack) == Abs(printed - exact) <= slack

----------------------------------------------------------------------
(* Price files: prices of four kinds a day, dealt out to categories. *)
(* prices are in 1/8, values in 1/1000: a value is 125 prices.       *)
ValueOf(p8) == 125 * p8
RowSum(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Neg(s) == [i \in 1..Len(s) |-> -s[i]]
Values(s) == [i \in 1..Len(s) |-> ValueOf(s[i])]
Times(s, n) == Concat([i \in 1..Len(s) |-> [j \in 1..n |-> s[i]]])

(* the categories of a recipe: who needs two partners is offered the sum of two prices *)
Special(rec) == rec \in {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 1, 1>>} \/ (Len(rec) = 3 /\ rec[1] = rec[2] /\ rec[2] = rec[3])
SpecialCats(rec, high, close, open, low) ==
    CASE rec = <<1, 1>> -> <<high \o close, Neg(open \o low)>>
      [] rec = <<2, 1>> -> <<high \o close, Neg(RowSum(open, low))>>
      [] rec = <<1, 2>> -> <<RowSum(high, close), Neg(open \o low)>>
      [] rec = <<2, 1, 1>> -> <<high \o close, Neg(open), Neg(low)>>
      [] OTHER -> <<RowSum(high, close), Neg(open), Neg(low)>>
RecipePricesOK(rec, high, close, open, low, cats) ==
    /\ Len(cats) = Len(rec)
    /\ IF Special(rec) THEN LET want == SpecialCats(rec, high, close, open, low)
                            IN  \A i \in 1..Len(rec) : SameMulti(cats[i], Values(want[i]))
       ELSE LET others == SumSeq(rec) - rec[1]
                buyers == high \o close
                sellers == Neg(open \o low)
            IN  /\ SameMulti(cats[1], Values(Times([i \in 1..Len(buyers) |-> buyers[i] * others], rec[1])))
                /\ \A i \in 2..Len(rec) : /\ Len(cats[i]) = rec[i] * Len(sellers)
                                          /\ ToSet(cats[i]) \subseteq ToSet(Values(sellers))

(* the traders of a tree: category i is given counts2[i] / 2 parts of the prices; each price is given at most once *)
Share(total, counts2, i) == (total * counts2[i]) \div SumSeq(counts2)
ShareExact(total, counts2, i) == (total * counts2[i]) % SumSeq(counts2) = 0
Dealt(cats, mults) == Concat([i \in 1..Len(cats) |-> [j \in 1..Len(cats[i]) |-> Abs(cats[i][j]) \div mults[i]]])
TreePricesOK(all, counts2, mults, cats) ==
    /\ Len(cats) = Len(counts2)
    /\ \A i \in 1..Len(cats) :
         LET n == Share(Len(all), counts2, i)
         IN  /\ Len(cats[i]) = n \/ (ShareExact(Len(all), counts2, i) /\ Len(cats[i]) = n - 1)     \* floating point may lose the last
             /\ \A j \in 1..Len(cats[i]) : (IF i = 1 THEN cats[i][j] > 0 ELSE cats[i][j] < 0) /\ Abs(cats[i][j]) % mults[i] = 0
    /\ SubMulti(Dealt(cats, mults), Values(all))
(* Prices that are dealt at random: out of so many different prices the chance to find the first ones in the order of the file, or in  *)
(* increasing or decreasing order, is below 10^-9.                                                                                      *)
Mixed(all, out) == LET n == Len(out)
                       same(o) == \A i \in 1..n : out[i] = o[i]
    IN  (n >= 14 /\ n <= Len(all) /\ Cardinality(ToSet(all)) = Len(all)) =>
          /\ ~same(all)
          /\ \E i \in 1..n - 1 : out[i] < out[i + 1]
          /\ \E i \in 1..n - 1 : out[i] > out[i + 1]
=======================================================================
