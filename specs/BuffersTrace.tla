---------------------------- MODULE BuffersTrace ----------------------------
(* Are the recorded histories behaviours of Buffers?  post: type and items of every *)
(* vector; wins: what is read through every buffer, and whether it moved.         *)
EXTENDS Buffers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES B, l
ItemEq(a, b) == a = b \/ (Len(a) = 2 /\ Len(b) = 2 /\ FNan(a) /\ FNan(b))
ItemsEq(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : ItemEq(xs[i], ys[i])
Loose == {"max", "min", "range"}          \* (see PrimVectorTrace)
ResEq(e, r) == e.res.k = r.k /\ (r.k = "ok" /\ e.op \notin Loose => IF e.op \in {"get", "pop"} \/ (e.op = "sly" /\ e.then.op = "get") THEN ItemEq(e.res.v, r.v)
                                                               ELSE IF e.op \in {"reversed", "next"} THEN ItemsEq(e.res.v, r.v) ELSE e.res.v = r.v)
PostEq(e, T) == DOMAIN e.post = DOMAIN T.P.vecs /\ \A id \in DOMAIN T.P.vecs : e.post[id].t = T.P.vecs[id].t /\ ItemsEq(e.post[id].xs, T.P.vecs[id].xs)
WinsEq(e, T) == DOMAIN e.wins = DOMAIN T.win /\ \A b \in DOMAIN T.win : e.wins[b].b = Through(T, T.win[b]) /\ e.wins[b].moved = 0
\* the state after, where it is only known from what was observed
Adopt(e, T) ==
    IF e.op = "sort" /\ e.res.k = "ok" THEN [T EXCEPT !.P = SetXs(T.P, e.id, e.post[e.id].xs)]
    \* a failed initialization leaves nothing, or what it had got to
    ELSE IF e.op = "gen" /\ e.init /\ e.res.k = "exc" /\ ~Exported(B.P, e.id) THEN
        LET r == Script([t |-> e.t, xs |-> <<>>], e.script, 1, <<>>, 0, <<>>) xs == e.post[e.id].xs IN
        IF xs = <<>> \/ (r.held > 0 /\ xs = r.xs) THEN [T EXCEPT !.P = SetVec(T.P, e.id, e.post[e.id].t, xs)] ELSE T
    ELSE T
\* which bits a NaN has is not specified, but they stay
Bits(e, T) == [T EXCEPT !.P.vecs = [id \in DOMAIN @ |->
    IF T.P.vecs[id].t = "f" /\ id \in DOMAIN e.post /\ ItemsEq(T.P.vecs[id].xs, e.post[id].xs) THEN [T.P.vecs[id] EXCEPT !.xs = e.post[id].xs] ELSE T.P.vecs[id]]]
Init == B = BEmpty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "reset" -> B' = BEmpty
             [] e.op = "crash" -> FALSE
             [] OTHER ->
                LET a == BApply(B, e)
                    T == Bits(e, Adopt(e, a.S))
                IN  IF /\ ResEq(e, a.r)
                       /\ e.op = "sort" => SortOK(B.P.vecs[e.id].t, B.P.vecs[e.id].xs, e.post[e.id].xs)
                       /\ e.op = "gen" => GenOK(B, e)
                       /\ PostEq(e, T) /\ WinsEq(e, T)
                    THEN B' = T ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<B, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
