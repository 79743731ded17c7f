------------------------------ MODULE MC_Exp ------------------------------
(* Every experiment with the given sizes, iterations and auction outcomes. *)
(* All buyers have value High and all sellers value Low, so the optimum of *)
(* a market of size s is s deals of gain High + Low (if that is not        *)
(* negative).  The auction may answer anything.                            *)
EXTENDS Experiments, Json
CONSTANTS SizesSet, Iters, High, Low, Outs
VARIABLES sizes, at, acc, rows, outs, wins
vars == <<sizes, at, acc, rows, outs, wins>>
Init == sizes \in SizesSet /\ at = 1 /\ acc = Zero /\ rows = <<>> /\ outs = <<>> /\ wins = [first |-> 0, tie |-> 0, second |-> 0]
Market(s) == <<[i \in 1..s |-> High], [i \in 1..s |-> Low]>>
Simulate == /\ at <= Len(sizes) /\ acc.n < Iters
            /\ \E o \in Outs :
                 /\ acc' = Accumulate(acc, [k |-> OptK(Market(sizes[at]), <<1, 1>>), g |-> OptGFT(Market(sizes[at]), <<1, 1>>), ak |-> o[1], at |-> o[2], am |-> o[3]])
                 /\ outs' = Append(outs, o)
            /\ UNCHANGED <<sizes, at, rows, wins>>
Row == /\ at <= Len(sizes) /\ acc.n = Iters
       /\ rows' = Append(rows, [size |-> sizes[at], t |-> acc])
       /\ wins' = [wins EXCEPT ![Winner(acc.g, acc.at)] = @ + 1]
       /\ acc' = Zero /\ at' = at + 1 /\ UNCHANGED <<sizes, outs>>
Next == Simulate \/ Row
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at > Len(sizes)
OneRowPerSize == Done => /\ Len(rows) = Len(sizes) /\ \A i \in 1..Len(rows) : rows[i].size = sizes[i] /\ rows[i].t.n = Iters
WinsSum == Done => wins.first + wins.tie + wins.second = Len(sizes)
RowsOwnMarkets == Done => \A i \in 1..Len(rows) : rows[i].t.ak = SumSeq([j \in 1..Iters |-> outs[(i - 1) * Iters + j][1]])
Optimum == Done => \A i \in 1..Len(rows) : rows[i].t.g = Iters * Max2(0, sizes[i] * (High + Low))
Ends == <>Done
Emit == Done => PrintT("CASE" \o ToJson([sizes |-> sizes, iters |-> Iters, high |-> High, low |-> Low, outs |-> outs, rows |-> rows]))
===========================================================================
