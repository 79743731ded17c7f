--------------------------- MODULE Outcome ---------------------------
(* The guarantees of a single-recipe mechanism, as predicates over    *)
(* (market, recipe, outcome).  An outcome is a record                 *)
(*   [deals  |-> the number of deals,                                 *)
(*    cats   |-> for each category, the traders that may trade,       *)
(*    prices |-> for each category, the price (same unit as values)]  *)
(* The same predicates are invariants of the mechanism specifications *)
(* and verdicts on the outcomes recorded from the implementation      *)
(* (tol > 0 only where a recorded price is not on the integer grid).  *)
EXTENDS Base

Payments(rec, out) == SumSeq([i \in 1..Len(rec) |-> IF rec[i] = 0 THEN 0 ELSE rec[i] * out.prices[i]])

(* strong budget balance: the prices of a procurement-set sum to zero *)
StronglyBalanced(rec, out, tol) == out.deals > 0 => Abs(Payments(rec, out)) <= tol

(* the auctioneer never pays money in *)
NoDeficit(rec, out, tol) == out.deals > 0 => Payments(rec, out) >= -tol

(* no trader that may trade pays more than its value *)
IndividuallyRational(rec, out, tol) ==
    out.deals > 0 =>
        \A i \in Relevant(rec) : \A j \in 1..Len(out.cats[i]) :
            out.cats[i][j] >= out.prices[i] - tol

(* at most one deal of the optimal trade is given up, none is invented *)
(* (zero: deals whose gain is exactly zero count as deals of the optimum)  *)
AtMostOneDealLost(mkt, rec, out, zero) ==
    /\ out.deals <= OptK(mkt, rec)
    /\ out.deals >= (IF zero THEN OptK(mkt, rec) ELSE OptKStrict(mkt, rec)) - 1

(* expected gain when the traders of each category are drawn uniformly *)
(* among out.cats[i]; rounded down once per category                   *)
ExpectedGFT(rec, out) ==
    IF out.deals = 0 THEN 0
    ELSE SumSeq([i \in 1..Len(rec) |->
            IF rec[i] = 0 THEN 0
            ELSE MulDiv(SumSeq(out.cats[i]), out.deals * rec[i], Len(out.cats[i]))])

(* (1 - 1/k) OPT <= gft <= OPT *)
GFTWithin(mkt, rec, gft, tol, zero) ==
    LET k   == IF zero THEN OptK(mkt, rec) ELSE OptKStrict(mkt, rec)
        opt == OptGFT(mkt, rec)
    IN  /\ gft <= opt + tol
        /\ k > 0 => gft >= opt - (opt \div k) - 1 - tol
        /\ k = 0 => gft >= -tol

(* the deals can be carried out by traders of the market, and the traders *)
(* chosen in a category are its highest-valued ones                       *)
Feasible(mkt, rec, out) ==
    /\ Len(out.cats) = Len(mkt)
    /\ \A i \in Relevant(rec) :
          /\ IsTopOf(out.cats[i], mkt[i])
          /\ Len(out.cats[i]) >= out.deals * rec[i]
    /\ out.deals = MaxDeals(out.cats, rec)

(* the utility of a trader with value v that reported rep in category c,  *)
(* as the pair <<expected gain * denominator, denominator>>               *)
UtilityOf(rec, out, c, rep, v) ==
    IF out.deals = 0 \/ rec[c] = 0 \/ CountIn(out.cats[c], rep) = 0 THEN <<0, 1>>
    ELSE <<out.deals * rec[c] * (v - out.prices[c]), Len(out.cats[c])>>

(* a/b <= c/d + slack, b, d > 0 *)
FracLeq(x, y, slack) == x[1] * y[2] <= y[1] * x[2] + slack * x[2] * y[2]
=====================================================================
