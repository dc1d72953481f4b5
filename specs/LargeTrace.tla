----------------------------- MODULE LargeTrace -----------------------------
EXTENDS Large, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
None == [x \in {} |-> 0]
Init == S = None /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = None
           ELSE IF e.op = "crash" THEN FALSE
           ELSE IF e.op = "new" THEN LET T == (e.id :> [k |-> e.k, q |-> e.q, v |-> e.v, t |-> e.t]) @@ S IN IF Post(T, e) THEN S' = T ELSE FALSE
           ELSE IF e.op = "drop" THEN S' = [x \in DOMAIN S \ {e.id} |-> S[x]]
           ELSE IF EventOk(S, e) THEN LET T == After(S, e) IN IF Post(T, e) THEN S' = T ELSE FALSE
           ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
