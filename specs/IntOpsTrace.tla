----------------------------- MODULE IntOpsTrace -----------------------------
(* Recorded results of the checked operations, and histories of a context.           *)
EXTENDS IntOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
Init == l = 1 /\ c = None
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "new" -> c' = None
             [] e.op = "arith" -> IF \A x \in 1..Len(e.xs) : e.xs[x][3] = Arith(e.f, e.ty, e.xs[x][1], e.xs[x][2]) THEN UNCHANGED c ELSE FALSE
             [] e.op = "init" -> IF e.v = e.r THEN UNCHANGED c ELSE FALSE
             [] e.op = "compile" -> LET r == Compile(e.s) IN
                                    IF e.ok = r.ok /\ (e.ok \/ e.why) THEN c' = r.st ELSE FALSE
             [] e.op = "eval" -> IF /\ e.ok = (c.k = "num")
                                    /\ IF e.ok THEN e.r = c.d ELSE e.kept /\ e.why
                                 THEN UNCHANGED c ELSE FALSE
             [] OTHER -> FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, c>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
