-------------------------- MODULE PrimVectorTrace --------------------------
(* Are the recorded operations on prim-vectors a behaviour of PrimVector?        *)
(* An event is an operation with its arguments, its result  res, and  post, the  *)
(* type and items of every live vector after it.                                *)
EXTENDS PrimVector, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l

\* NaN is one value
ItemEq(a, b) == a = b \/ (Len(a) = 2 /\ Len(b) = 2 /\ FNan(a) /\ FNan(b))
Canon(xs) == [i \in 1..Len(xs) |-> IF Len(xs[i]) = 2 /\ FNan(xs[i]) THEN <<32704, 0>> ELSE xs[i]]
ItemsEq(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : ItemEq(xs[i], ys[i])
\* the extremes: any of several equal items; among NaNs, any item
ResEq(e, r, S0) ==
    /\ e.res.k = r.k
    /\ r.k = "ok" =>
        CASE e.op \in {"max", "min", "range"} ->
                LET v == S0.vecs[e.id] IN
                LET good(x, y) == \E i \in 1..Len(v.xs) : ItemEq(v.xs[i], x) /\ (HasNan(v.t, v.xs) \/ Same(v.t, x, y)) IN
                IF e.op = "range" THEN Len(e.res.v) = 2 /\ good(e.res.v[1], IF r.v = <<>> THEN <<>> ELSE r.v[1])
                                       /\ good(e.res.v[2], IF r.v = <<>> THEN <<>> ELSE r.v[2])
                ELSE good(e.res.v, r.v)
          [] e.op = "get" \/ e.op = "pop" -> ItemEq(e.res.v, r.v)
          [] e.op = "reversed" \/ e.op = "next" -> ItemsEq(e.res.v, r.v)
          [] OTHER -> e.res.v = r.v
PostEq(e, T) ==
    /\ DOMAIN e.post = DOMAIN T.vecs
    /\ \A id \in DOMAIN T.vecs : e.post[id].t = T.vecs[id].t /\ ItemsEq(e.post[id].xs, T.vecs[id].xs)

\* which bits a NaN has is not specified, but they stay
Bits(e, T) == [T EXCEPT !.vecs = [id \in DOMAIN @ |-> IF T.vecs[id].t = "f" THEN [T.vecs[id] EXCEPT !.xs = e.post[id].xs] ELSE T.vecs[id]]]

Init == S = Empty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = Empty
           ELSE /\ e.op # "crash"
                /\ LET a == Apply(S, e)
                       v == S.vecs[e.id]
                       T == IF e.op = "sort" THEN SetXs(S, e.id, Canon(e.post[e.id].xs)) ELSE a.S
                   IN  IF /\ ResEq(e, a.r, S)
                          /\ e.op = "sort" => SortOK(v.t, Canon(v.xs), Canon(e.post[e.id].xs))
                          /\ PostEq(e, T)
                       THEN S' = Bits(e, T) ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
