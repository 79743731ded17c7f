--------------------------- MODULE Experiments ---------------------------
(* Simulation experiments: an accumulator per size, a row per size.        *)
(* An outcome of one simulated market:                                     *)
(*   k, g      deals and gain of the market's optimum                      *)
(*   ak        deals of the auction;  at, am  its gain in total and        *)
(*             without the auctioneer                                      *)
EXTENDS Trees

Zero == [n |-> 0, k |-> 0, g |-> 0, ak |-> 0, at |-> 0, am |-> 0]
Accumulate(acc, o) == [n |-> acc.n + 1, k |-> acc.k + o.k, g |-> acc.g + o.g, ak |-> acc.ak + o.ak, at |-> acc.at + o.at, am |-> acc.am + o.am]
Total(os) == FoldLeft(Accumulate, Zero, os)

(* printed = total / n, in units of 1/scale, up to tol units *)
MeanIs(printed, total, n, scale, tol) == Abs(printed * n - total * scale) <= tol * n
(* printed = part / whole, in units of 1/scale; 0 where there is no whole; part itself is known up to err / 2 *)
RatioIs(printed, part, whole, scale, tol, err) ==
    IF whole = 0 THEN printed = 0 ELSE Abs(printed * whole - part * scale) <= tol * Abs(whole) + (scale * err) \div 2

(* the two auctions compared: who has the larger total over a size *)
Winner(a, b) == IF a > b THEN "first" ELSE IF a = b THEN "tie" ELSE "second"
PercentIs(printed, x, n) == Abs(printed * n - x * 100) <= n /\ (x = 0 => printed = 0) /\ (x = n => printed = 100)
==========================================================================
