------------------------------ MODULE ViewGen -------------------------------
(* Slices of slices of a vector of N items, and everything that can be done to    *)
(* them.  Items are 1..N here; the check puts items of every type in their place. *)
EXTENDS View, Json
CONSTANTS N, Emit, Ids, Iters
VARIABLES S, hist
It(n) == [k |-> "int", w |-> W(n)]
XS == [i \in 1..N |-> It(i)]
Do(e) == LET a == Apply(S, e) IN /\ S' = a.S /\ hist' = Append(hist, e)
Open == [op |-> "open", id |-> "a", t |-> "u64", xs |-> XS]
Init == S = Apply(Empty, Open).S /\ hist = <<Open>>
Live == DOMAIN S.views
Lims(n) == {<<>>} \cup {<<i>> : i \in (-n - 1)..(n + 1)}
Next ==
    \/ \E id \in Live : LET n == Len(S.views[id].xs) IN
        \/ \E d \in Ids \ Live : \E lo, hi \in Lims(n) : Do([op |-> "slice", id |-> id, dst |-> d, lo |-> lo, hi |-> hi, step |-> 1])
        \/ \E d \in Ids \ Live : \E st \in {-1, 2} : Do([op |-> "slice", id |-> id, dst |-> d, lo |-> <<>>, hi |-> <<>>, step |-> st])
        \/ \E i \in (-n - 2)..(n + 1) : Do([op |-> "get", id |-> id, i |-> i])
        \/ \E o \in {"len", "list", "reversed", "set", "del", "badkey", "hash", "typecode", "min", "max", "range", "buffer", "bufwrite"} : Do([op |-> o, id |-> id])
        \/ \E k \in 0..(N + 1) : Do([op |-> "contains", id |-> id, x |-> <<It(k)>>]) \/ Do([op |-> "bisect", id |-> id, x |-> W(k)])
        \/ \E src \in Live : \E r \in {"lt", "le", "eq", "ne", "gt", "ge"} : Do([op |-> "rel", id |-> id, src |-> src, rel |-> r])
        \/ \E it \in Iters \ DOMAIN S.iters : \E rev \in BOOLEAN : Do([op |-> "iter", id |-> id, it |-> it, rev |-> rev])
        \/ Cardinality(Live) > 1 /\ Do([op |-> "drop", id |-> id])
    \/ \E it \in DOMAIN S.iters : Do([op |-> "next", it |-> it])
Spec == Init /\ [][Next]_<<S, hist>>
View0 == S
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', same |-> S' = S])>>)
\* every view is a contiguous part of what was opened, slices compose, and nothing changes a view
PartOf(xs) == \E a \in 0..N : a + Len(xs) <= N /\ \A i \in 1..Len(xs) : xs[i] = XS[a + i]
Inv == \A id \in Live : PartOf(S.views[id].xs) /\ SliceLaws(S.views[id].xs)
Frozen == [][\A id \in DOMAIN S.views : id \in DOMAIN S'.views => S'.views[id] = S.views[id]]_<<S, hist>>
=============================================================================
