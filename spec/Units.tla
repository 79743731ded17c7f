------------------------------ MODULE Units ------------------------------
(* Money has no natural unit: shekels or agorot, the auction is the same.  *)
(* Multiplying all values by f > 0 multiplies all money by f and changes   *)
(* nothing else.                                                           *)
EXTENDS Base
TimesSeq(f, s) == [i \in 1..Len(s) |-> f * s[i]]
TimesMkt(f, m) == [i \in 1..Len(m) |-> TimesSeq(f, m[i])]
TimesDeals(f, ds) == [i \in 1..Len(ds) |-> TimesMkt(f, ds[i])]
TimesOut(f, o) == [deals |-> o.deals, cats |-> TimesMkt(f, o.cats), prices |-> TimesSeq(f, o.prices)]
==========================================================================
