---------------------------- MODULE MC_History ----------------------------
(* Every history of Depth operations, starting from two markets.  An       *)
(* arbitrary mechanism is an arbitrary function F of what is asked.        *)
EXTENDS History, Json
CONSTANTS Start, Mechs, Args, Depth, Extra
VARIABLES ms, hist, memo
vars == <<ms, hist, memo>>
M == 1..3
Ops == {[op |-> "call", m |-> m, mech |-> f, arg |-> a] : m \in M, f \in Mechs, a \in Args}
  \cup {[op |-> "append", m |-> m, c |-> c, v |-> Extra] : m \in M, c \in {1}}
  \cup {[op |-> "replace", m |-> m, c |-> 1, v |-> Extra, top |-> t] : m \in {1}, t \in BOOLEAN}
  \cup {[op |-> "drop", m |-> m, c |-> 2, top |-> FALSE] : m \in {2}}
  \cup {[op |-> "clone", m |-> m] : m \in {1}} \cup {[op |-> "permute", m |-> m] : m \in {1}} \cup {[op |-> "rename", m |-> m] : m \in {1}}
  \cup {[op |-> "spoil", m |-> 1], [op |-> "trace", m |-> 1]}
Changes == {"append", "drop", "replace"}
Legal(o) == /\ o.m <= Len(ms)
            /\ o.op \in {"clone", "permute", "rename"} => Len(ms) < 3
            /\ o.op = "spoil" => \E i \in 1..Len(hist) : hist[i].op = "call"
            /\ o.op \in Changes => \A i \in 1..Len(hist) : hist[i].op \notin Changes
            /\ o.op \in {"drop", "replace"} => Len(ms[o.m][o.c]) > 0
F(k) == k        \* a mechanism, as a function of what is asked
Init == ms = Start /\ hist = <<>> /\ memo = {}
Next == Len(hist) < Depth /\ \E o \in Ops :
          /\ Legal(o)
          /\ ms' = ContentAfter(ms, o)
          /\ hist' = Append(hist, o)
          /\ memo' = IF o.op = "call" THEN memo \cup {<<Asked(ms, o), F(Asked(ms, o))>>} ELSE memo
Spec == Init /\ [][Next]_vars
OneAnswer == \A x, y \in memo : x[1] = y[1] => x[2] = y[2]
OnlyAppendChanges == [][\A i \in 1..Len(ms) : ms'[i] # ms[i] => LastOf(hist').op \in Changes /\ LastOf(hist').m = i]_vars
Copies == [][Len(ms') > Len(ms) => ms'[Len(ms')] = ms[LastOf(hist').m]]_vars
Emit == (Len(hist) = Depth /\ LastOf(hist).op = "call") => PrintT("CASE" \o ToJson([start |-> Start, hist |-> hist, ms |-> ms]))
===========================================================================
