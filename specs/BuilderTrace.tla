--------------------------- MODULE BuilderTrace ----------------------------
EXTENDS Builder, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
Init == S = Fresh(64) /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN S' = Fresh(e.bits)
           ELSE IF e.op # "crash" /\ CallOk(S, e) THEN S' = IF Done(e) THEN After(S, e) ELSE S
           ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
