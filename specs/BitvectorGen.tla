---------------------------- MODULE BitvectorGen ----------------------------
EXTENDS Bitvector, Json
CONSTANTS MaxLen, Emit, Ids, Iters
VARIABLES S, hist

B(n) == [k |-> "b", n |-> n]
I(n) == [k |-> "i", n |-> n]
Others == {[k |-> "o"], I(2), I(-1)}
Do(e) == LET a == Apply(S, e) IN /\ S' = a.S /\ hist' = Append(hist, e)

Init == S = New(Empty, "a", <<>>, FALSE, TRUE) /\ hist = <<[op |-> "new", id |-> "a", how |-> "none", show |-> TRUE]>>
Live == DOMAIN S.bvs
Fresh == Ids \ Live
Next ==
    \/ \E id \in Live : LET n == Len(S.bvs[id].b) IN
        \/ n < MaxLen /\ \E x \in {B(0), B(1), I(1), [k |-> "o"]} : Do([op |-> "append", id |-> id, x |-> x])
        \/ \E bit \in {0, 1} : \E k \in {-1, 0, 2} : n + k <= MaxLen /\ Do([op |-> "extend", id |-> id, bit |-> bit, n |-> k])
        \/ \E src \in Live : n + Len(S.bvs[src].b) <= MaxLen /\ Do([op |-> "append_bulk", id |-> id, src |-> src])
        \/ Do([op |-> "pop", id |-> id])
        \/ \E i \in {-n - 1, -n, 0, n - 1, n} : \/ Do([op |-> "get", id |-> id, i |-> i])
                                              \/ \E x \in {B(0), B(1), I(0), I(1)} : Do([op |-> "set", id |-> id, i |-> i, x |-> x])
        \/ \E x \in Others : n > 0 /\ Do([op |-> "set", id |-> id, i |-> 0, x |-> x])
        \/ \E o \in {"len", "zpre", "opre", "zpost", "opost", "any", "text", "hash", "del", "badarg"} : Do([op |-> o, id |-> id])
        \/ \E src \in Live : \E r \in {"lt", "le", "eq", "ne", "gt", "ge"} : Do([op |-> "rel", id |-> id, src |-> src, rel |-> r])
        \/ \E d \in Fresh : \/ Do([op |-> "copy", id |-> id, dst |-> d])
                            \/ \E norm \in BOOLEAN : Do([op |-> "store", id |-> id, dst |-> d, norm |-> norm])
        \/ Do([op |-> "reinit", id |-> id, how |-> "seq", show |-> TRUE, xs |-> <<B(1), I(0)>>])
        \/ Do([op |-> "reinit", id |-> id, how |-> "size", show |-> FALSE, n |-> 1])
        \/ \E it \in Iters \ DOMAIN S.iters : Do([op |-> "iter", id |-> id, it |-> it])
        \/ id # "a" /\ (\A it \in DOMAIN S.iters : S.iters[it].bv # id) /\ Do([op |-> "drop", id |-> id])
    \/ \E it \in DOMAIN S.iters : Do([op |-> "next", it |-> it])
Spec == Init /\ [][Next]_<<S, hist>>
View == S
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', same |-> S' = S])>>)
Inv == BitsOK(S) /\ CountsOK(S) /\ OrderOK(S)
\* bitvectors of a file do not change, and no operation changes another bitvector than its own
Frozen == [][\A id \in DOMAIN S.bvs : id \in DOMAIN S'.bvs => \/ S'.bvs[id] = S.bvs[id]
                                                              \/ hist'[Len(hist')].id = id /\ (~S.bvs[id].ro \/ hist'[Len(hist')].op = "reinit")]_<<S, hist>>
=============================================================================
