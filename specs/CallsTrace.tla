----------------------------- MODULE CallsTrace -----------------------------
EXTENDS Calls, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES dir, l
Init == dir = {} /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN dir' = ToSet2(e.dir)
           ELSE IF e.op = "call" /\ CallOk(dir, e) THEN dir' = After(dir, e) ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<dir, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
