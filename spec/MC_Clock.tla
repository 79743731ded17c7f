---------------------------- MODULE MC_Clock ----------------------------
(* All histories of up to Depth raises of a single-recipe price vector.  *)
EXTENDS Clocks, Json
CONSTANT Recipes_, Starts, Targets, Bounds, Depth_, Unit
VARIABLES w, first, price, status, hist
cvars == <<w, first, price, status, hist>>
Init == /\ w \in Recipes_ /\ \E s \in Starts : price = [i \in 1..Len(w) |-> s * Unit]
        /\ first = price /\ status = "None" /\ hist = <<>>
Raise(c, x, b) ==
    /\ Len(hist) < Depth_ /\ LegalRaise(w, price, c, x, b)
    /\ price' = AfterRaise(w, price, c, x, b)
    /\ status' = RaiseStatus(w, price, c, x, b)
    /\ hist' = Append(hist, [c |-> c, x |-> x, b |-> b, price |-> price', status |-> status'])
    /\ UNCHANGED <<w, first>>
Next == \E c \in 1..Len(w), x \in Targets, b \in Bounds : Raise(c, x * Unit, b * Unit)
Spec == Init /\ [][Next]_cvars
(* never beyond the target or the bound; the status tells which was hit *)
NotBeyond == [][LET h == LastOf(hist') IN
                  /\ price'[h.c] <= h.x /\ price'[h.c] >= price[h.c]
                  /\ \A i \in 1..Len(w) : i # h.c => price'[i] = price[i]
                  /\ Weighted(w, price') <= h.b
                  /\ (status' = "STOPPED_AT_ZERO_SUM" <=> Weighted(w, price') = h.b)
                  /\ (status' = "STOPPED_AT_AGENT_VALUE" => price'[h.c] = h.x)]_cvars
Emit == Len(hist) = Depth_ => PrintT("CASE" \o ToJson([w |-> w, first |-> first, hist |-> hist]))
=========================================================================
