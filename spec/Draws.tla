----------------------------- MODULE Draws -----------------------------
(* Categories filled with random traders.  A draw x comes from an interval *)
(* (in 1/1000); the trader's value is sign * |x| (or x itself), rounded to *)
(* a whole number; halves may go either way.                               *)
EXTENDS Base

Signed(fold, sign, x) == IF fold THEN sign * Abs(x) ELSE x
RoundsTo(v, x) == Abs(1000 * v - x) <= 500
(* v is the value of some draw in lo..hi (already signed) *)
Reachable(v, lo, hi) == 1000 * v >= lo - 500 /\ 1000 * v <= hi + 500
(* the values of exactly these draws: rounding keeps the order *)
FromDraws(vals, xs) == Len(vals) = Len(xs) /\ LET s == SortDesc(xs) IN \A i \in 1..Len(vals) : RoundsTo(vals[i], s[i])
========================================================================
