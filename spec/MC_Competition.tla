------------------------ MODULE MC_Competition ------------------------
EXTENDS Competition, Json
CONSTANTS CatSet, RecSet, ValueSet
VARIABLES cats, rec, p, v, chosen, paid
vars == <<cats, rec, p, v, chosen, paid>>
Init == /\ rec \in RecSet /\ cats \in [1..Len(rec) -> CatSet] /\ p \in 1..Len(rec) /\ v \in ValueSet
        /\ chosen = <<>> /\ paid = <<>>
Choose == chosen = <<>> /\ chosen' = [i \in 1..Len(rec) |-> IF i = p THEN v ELSE SortDesc(cats[i])[1]] /\ UNCHANGED <<cats, rec, p, v, paid>>
Pay == chosen # <<>> /\ paid = <<>> /\ paid' = Paid(rec, p, chosen) /\ UNCHANGED <<cats, rec, p, v, chosen>>
Next == Choose \/ Pay
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
BestOfAll == chosen # <<>> => IsBestContaining(cats, p, v, chosen)
Balanced == paid # <<>> => PricesBalance(rec, paid) /\ OthersAsCompeting(rec, p, chosen, paid) /\ PivotNotOvercharged(rec, p, v, chosen, paid)
Ends == <>(paid # <<>>)
Emit == paid # <<>> => PrintT("CASE" \o ToJson([cats |-> cats, rec |-> rec, p |-> p, v |-> v, s |-> chosen, paid |-> paid]))
=======================================================================
