----------------------------- MODULE ViewTrace ------------------------------
(* Are the recorded operations on vectors a behaviour of View?  An event has the  *)
(* result  res, and  post: id -> the items of every live view after it, ids: id -> *)
(* its container_id.                                                            *)
EXTENDS View, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
ResEq(e, r) ==
    IF r.k = "any" THEN e.res.k \in {"ok", "exc"}
    ELSE e.res.k = r.k /\ (r.k = "ok" => IF e.op \in {"min", "max", "range"} THEN ExtremeOK(S, e) ELSE e.res.v = r.v)
\* another writer may store no items as a vector of values
OpenOK(e) == e.t \in (IF e.xs = <<>> THEN (IF e.as = "img" THEN {"e", "v"} ELSE {"e"}) ELSE IF e.as = "prim" THEN {e.pt} ELSE Types(e.xs))
PostEq(e, T) == DOMAIN e.post = DOMAIN T.views /\ \A id \in DOMAIN T.views : e.post[id] = T.views[id].xs
Init == S = Empty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "reset" -> S' = Empty
             [] e.op = "crash" -> FALSE
             [] OTHER -> LET a == Apply(S, e) IN
                   IF (e.op = "open" => OpenOK(e)) /\ ResEq(e, a.r) /\ PostEq(e, a.S) /\ (e.op = "open" \/ "ids" \in DOMAIN e => IdentityOK(a.S, e.ids)) THEN S' = a.S ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
