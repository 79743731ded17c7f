--------------------------- MODULE Verdict ---------------------------
(* Judges an outcome recorded from the implementation (record c) against *)
(* the guarantees of Outcome.tla and against the outcome "want" computed *)
(* by the mechanism's specification.  The result is the set of names of  *)
(* the clauses that fail; it is defined for every recorded outcome.      *)
EXTENDS Outcome

Got(c) == [deals |-> c.deals, cats |-> c.cats, prices |-> c.prices]
(* slack of the recorded prices: 0 when they are on the integer grid *)
PTol(c) == IF c.grid THEN 0 ELSE SumSeq(c.rec) + 1

SamePrices(c, want) ==
    \A i \in Relevant(c.rec) : c.grid /\ c.prices[i] = want.prices[i]
SameCats(c, want) ==
    \A i \in Relevant(c.rec) : SortDesc(c.cats[i]) = want.cats[i]

WellFormed(c) == /\ Len(c.cats) = Len(c.rec) /\ Len(c.prices) = Len(c.rec)
                 /\ c.deals >= 0
GFTTol(c) == Len(c.rec) + c.gtol
(* gain reported by the trade itself: total, and without the auctioneer *)
ReportedTotal(c, want) == Abs(c.gft - ExpectedGFT(c.rec, Got(c))) <= GFTTol(c)
ReportedMarket(c, want) ==
    c.deals > 0 => Abs(c.gft - c.gftm - c.deals * Payments(c.rec, Got(c))) <= GFTTol(c) + c.deals * PTol(c)

Fails(c, want, exact, zero, sbb) ==
    IF c.st # "ok" THEN {exact \o ":" \o c.st, "C27:" \o c.st}
    ELSE IF ~WellFormed(c) THEN {exact \o ":shape", "C08:shape"}
    ELSE UNION {
        Clause(exact \o ":deals",   c.deals = want.deals),
        Clause(exact \o ":traders", want.deals > 0 => SameCats(c, want)),
        Clause(exact \o ":prices",  (want.deals > 0 /\ c.deals > 0) => SamePrices(c, want)),
        IF sbb THEN Clause("C01:sbb", StronglyBalanced(c.rec, Got(c), PTol(c)))
               ELSE Clause("C02:deficit", Len(c.rec) = 2 => NoDeficit(c.rec, Got(c), PTol(c))),
        Clause("C03:ir", IndividuallyRational(c.rec, Got(c), IF c.grid THEN 0 ELSE 1)),
        Clause("C06:deals", AtMostOneDealLost(c.mkt, c.rec, Got(c), zero)),
        Clause("C07:computed", GFTWithin(c.mkt, c.rec, ExpectedGFT(c.rec, Got(c)), GFTTol(c), zero)),
        Clause("C07:reported", GFTWithin(c.mkt, c.rec, c.gft, GFTTol(c), zero)),
        Clause("C08:feasible", Feasible(c.mkt, c.rec, Got(c))),
        Clause("C15:total", ReportedTotal(c, want)),
        Clause("C15:market", ReportedMarket(c, want)) }
=====================================================================
