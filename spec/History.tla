----------------------------- MODULE History -----------------------------
(* Histories of calls on shared markets.                                  *)
(*   ms    the content of each market: a multiset per category, as a      *)
(*         descending sequence                                            *)
(*   memo  the outcomes seen so far: pairs of what was asked and answered *)
(* A call asks <<mechanism, content, arguments>>; whatever happened before *)
(* it, the answer is that of the first time the same was asked.  No call  *)
(* changes a market; only appending and removing traders does.            *)
EXTENDS Base

ContentAfter(ms, o) ==
    CASE o.op = "append"  -> [ms EXCEPT ![o.m][o.c] = SortDesc(Append(@, o.v))]
      [] o.op = "drop"    -> [ms EXCEPT ![o.m][o.c] = IF o.top THEN Drop(@, 1) ELSE DropLast(@)]
      [] o.op = "replace" -> [ms EXCEPT ![o.m][o.c] = SortDesc(Append(IF o.top THEN Drop(@, 1) ELSE DropLast(@), o.v))]
      [] o.op = "clone"   -> Append(ms, ms[o.m])       \* market.clone()
      [] o.op = "permute" -> Append(ms, ms[o.m])       \* a new market with the same traders in another order
      [] o.op = "rename"  -> Append(ms, ms[o.m])       \* ... with other category names
      [] OTHER -> ms                                   \* "call", "spoil" (a remainder that was returned is changed), "trace" (on / off)

Asked(ms, o) == <<o.mech, ms[o.m], o.arg>>
Answers(memo, k) == {x[2] : x \in {y \in memo : y[1] = k}}
Consistent(memo, k, ans) == Answers(memo, k) \subseteq {ans}
==========================================================================
