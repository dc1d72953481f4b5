--------------------------- MODULE PrimVectorGen ---------------------------
(* Exploration of PrimVector in small bounds.  Every transition of the abstract   *)
(* state graph is printed as the operations which lead to it; the view leaves    *)
(* the history out, so that there is one behaviour for each transition.          *)
EXTENDS PrimVector, Json

CONSTANTS MaxLen, Emit, Ids, Bufs, ArgNs, T
VARIABLES S, hist

I(n) == [k |-> "i", w |-> W(n)]
Args == {I(n) : n \in ArgNs}
\* two numbers which one 64-bit word can not tell apart: -1 and this one
Wrap == [k |-> "i", w |-> <<0, 65535, 65535, 65535, 65535>>]
NegArgs == {-1, 127}
BadArgs == {I(-129), I(128), [k |-> "o", o |-> "str"], [k |-> "big", sign |-> 1], Wrap}

Do(e) == LET a == Apply(S, e) IN
         /\ S' = a.S
         /\ hist' = Append(hist, e)
         /\ a.r.k = "exc" => a.S = S

Init == S = SetVec(Empty, "a", T, <<>>) /\ hist = <<[op |-> "new", id |-> "a", t |-> T, xs |-> <<>>]>>
Live == DOMAIN S.vecs
Fresh == Ids \ Live
Next ==
    \/ \E id \in Live : LET n == Len(S.vecs[id].xs) IN
        \/ \E x \in Args \cup BadArgs : n < MaxLen /\ Do([op |-> "append", id |-> id, x |-> x])
        \/ n < MaxLen - 1 /\ Do([op |-> "append_bulk", id |-> id, xs |-> <<I(1), I(2)>>])
        \/ n < MaxLen - 1 /\ Do([op |-> "append_bulk", id |-> id, xs |-> <<I(1), I(128)>>])
        \/ \E src \in Live : n + Len(S.vecs[src].xs) <= MaxLen /\ Do([op |-> "append_vec", id |-> id, src |-> src])
        \/ Do([op |-> "pop", id |-> id])
        \/ \E k \in {-1, 0, 1, 2, MaxLen + 1} : Do([op |-> "pop_bulk", id |-> id, n |-> k])
        \/ Do([op |-> "clear", id |-> id])
        \/ \E x \in {I(0), I(127), I(200), I(-1), Wrap} : \E o \in {"index", "contains", "remove", "fast_remove"} : Do([op |-> o, id |-> id, x |-> x])
        \/ \E i \in {-n - 1, -n, -1, 0, 1, n - 1, n} : \/ Do([op |-> "get", id |-> id, i |-> i])
                                                 \/ Do([op |-> "set", id |-> id, i |-> i, x |-> I(7)])
        \/ n > 0 /\ Do([op |-> "set", id |-> id, i |-> 0, x |-> I(128)])
        \/ \E lo \in {<<>>, <<1>>, <<-1>>, <<n + 1>>} : \E hi \in {<<>>, <<1>>, <<-1>>} : \E d \in Fresh :
              Do([op |-> "slice", id |-> id, lo |-> lo, hi |-> hi, step |-> 1, dst |-> d])
        \/ \E o \in {"len", "typecode", "reversed", "max", "min", "range", "sort", "serialize"} : Do([op |-> o, id |-> id])
        \/ \E src \in Live : \E d \in Fresh : Do([op |-> "remap", id |-> id, src |-> src, dst |-> d])
        \/ \E b \in Bufs \ DOMAIN S.bufs : Do([op |-> "export", id |-> id, buf |-> b])
        \/ Cardinality(Live) > 1 /\ ~Exported(S, id) /\ id # "a" /\ Do([op |-> "drop", id |-> id])
    \/ \E b \in DOMAIN S.bufs :
        \/ Do([op |-> "release", buf |-> b])
        \/ Do([op |-> "bread", buf |-> b])
        \/ Len(S.vecs[S.bufs[b]].xs) > 0 /\ Do([op |-> "bwrite", buf |-> b, at |-> 0, byte |-> 200])
Spec == Init /\ [][Next]_<<S, hist>>
View == S
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', same |-> S' = S])>>)
Inv == TypeOK(S) /\ SerialOK(S) /\ SearchOK(S) /\ ExtremesOK(S)
\* while a buffer is exported, the number of items of its vector does not change
ExportSafe == [][\A b \in DOMAIN S.bufs : b \in DOMAIN S'.bufs => Len(S'.vecs[S.bufs[b]].xs) = Len(S.vecs[S.bufs[b]].xs)]_<<S, hist>>
=============================================================================
