----------------------------- MODULE Store -----------------------------
(* Categories and markets as objects under histories of operations.     *)
(* cats:    the categories held on their own, each a descending sequence *)
(* mkts:    the markets, each a sequence of categories                   *)
(* An operation is a record [op, ...]; Legal says when it may be called, *)
(* and After(s, o) is the store s = [cats, mkts] after it.               *)
EXTENDS Base

Ins(s, xs)  == SortDesc(s \o xs)
Empty       == [cats |-> <<>>, mkts |-> <<>>]

SetCat(s, k, v)    == [s EXCEPT !.cats[k] = v]
SetMkt(s, m, i, v) == [s EXCEPT !.mkts[m][i] = v]

Enough(m, rec) == \A i \in 1..Len(m) : Len(m[i]) >= rec[i]

Legal(s, o) ==
    CASE o.op = "new"      -> TRUE
      [] o.op = "append"   -> o.k \in DOMAIN s.cats
      [] o.op = "extend"   -> o.k \in DOMAIN s.cats
      [] o.op = "pophigh"  -> o.k \in DOMAIN s.cats /\ s.cats[o.k] # <<>>
      [] o.op = "pophighs" -> o.k \in DOMAIN s.cats /\ Len(s.cats[o.k]) >= o.n
      [] o.op = "poplow"   -> o.k \in DOMAIN s.cats /\ s.cats[o.k] # <<>>
      [] o.op = "clone"    -> o.k \in DOMAIN s.cats
      [] o.op = "market"   -> s.cats # <<>>           \* a market of clones of all the categories
      [] o.op = "mappend"  -> o.m \in DOMAIN s.mkts /\ o.i \in DOMAIN s.mkts[o.m]
      [] o.op = "mps"      -> o.m \in DOMAIN s.mkts
      [] o.op = "mremove"  -> o.m \in DOMAIN s.mkts /\ Len(o.vs) = Len(s.mkts[o.m]) /\ Enough(s.mkts[o.m], o.vs)
      [] o.op = "mclone"   -> o.m \in DOMAIN s.mkts
      [] o.op = "mempty"   -> o.m \in DOMAIN s.mkts
      [] o.op = "mtrade"   -> o.m \in DOMAIN s.mkts /\ Len(o.vs) = Len(s.mkts[o.m])
      [] OTHER -> FALSE

Refused(s, o) == o.op = "mps" /\ Len(o.vs) # Len(s.mkts[o.m])

(* the rest of the market after its optimal trade (deals of zero gain included) *)
RECURSIVE Rest(_, _)
Rest(m, rec) == IF CanServe(m, rec) /\ PSsum(Heads(m, rec)) >= 0 /\ Relevant(rec) # {}
                THEN Rest(RemoveHeads(m, rec), rec) ELSE m

After(s, o) ==
    CASE o.op = "new"      -> [s EXCEPT !.cats = Append(@, SortDesc(o.vs))]
      [] o.op = "append"   -> SetCat(s, o.k, Ins(s.cats[o.k], <<o.v>>))
      [] o.op = "extend"   -> SetCat(s, o.k, Ins(s.cats[o.k], o.vs))
      [] o.op = "pophigh"  -> SetCat(s, o.k, Tail(s.cats[o.k]))
      [] o.op = "pophighs" -> SetCat(s, o.k, Drop(s.cats[o.k], o.n))
      [] o.op = "poplow"   -> SetCat(s, o.k, DropLast(s.cats[o.k]))
      [] o.op = "clone"    -> [s EXCEPT !.cats = Append(@, s.cats[o.k])]
      [] o.op = "market"   -> [s EXCEPT !.mkts = Append(@, s.cats)]
      [] o.op = "mappend"  -> SetMkt(s, o.m, o.i, Ins(s.mkts[o.m][o.i], <<o.v>>))
      [] o.op = "mps"      -> IF Refused(s, o) THEN s
                              ELSE [s EXCEPT !.mkts[o.m] = [i \in 1..Len(@) |-> Ins(@[i], <<o.vs[i]>>)]]
      [] o.op = "mremove"  -> [s EXCEPT !.mkts[o.m] = RemoveHeads(@, o.vs)]
      [] o.op = "mclone"   -> [s EXCEPT !.mkts = Append(@, s.mkts[o.m])]
      [] o.op = "mempty"   -> [s EXCEPT !.mkts = Append(@, [i \in 1..Len(s.mkts[o.m]) |-> <<>>])]
      [] o.op = "mtrade"   -> [s EXCEPT !.mkts = Append(@, Rest(s.mkts[o.m], o.vs))]
      [] OTHER -> s

(* the answers of a category; q is the number of highest traders asked for *)
CatAnswer(c, q) == [size |-> Len(c), high |-> IF c = <<>> THEN <<>> ELSE <<c[1]>>,
                    low |-> IF c = <<>> THEN <<>> ELSE <<LastOf(c)>>, highs |-> Take(c, Min2(q, Len(c)))]
(* the answers of a market: its best procurement-set (none if it has not enough traders), and whether a category is empty *)
MktAnswer(m, rec) == [best |-> IF CanServe(m, rec) THEN <<Concat(Heads(m, rec))>> ELSE <<>>,
                      hasempty |-> \E i \in 1..Len(m) : m[i] = <<>>,
                      n |-> Len(m)]

AllSorted(s) == /\ \A k \in 1..Len(s.cats) : IsDesc(s.cats[k])
                /\ \A m \in 1..Len(s.mkts) : \A i \in 1..Len(s.mkts[m]) : IsDesc(s.mkts[m][i])
=========================================================================
