--------------------------- MODULE BitvectorTrace ---------------------------
(* Are the recorded operations on bitvectors a behaviour of Bitvector?  An event  *)
(* has the result  res, and  post: id -> [ro, b] of every live bitvector after it. *)
EXTENDS Bitvector, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
ResEq(e, r) == e.res.k = r.k /\ (r.k = "ok" /\ e.op # "hash" => e.res.v = r.v)
PostEq(e, T) == DOMAIN e.post = DOMAIN T.bvs /\ \A id \in DOMAIN T.bvs : e.post[id] = T.bvs[id].b
Init == S = Empty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "reset" -> S' = Empty
             [] e.op = "crash" -> FALSE
             [] e.op = "huge" -> IF HugeOK(e.res) THEN UNCHANGED S ELSE FALSE
             [] OTHER -> LET a == Apply(S, e) IN
                   IF ResEq(e, a.r) /\ PostEq(e, a.S) /\ (e.op = "hash" => HashOK(S, e.res.v)) THEN S' = a.S ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
