------------------------------ MODULE TextTrace ------------------------------
(* Recorded texts: of what is read from a file (file, text), of primitive vectors and  *)
(* of bitvectors (prim, bits), and of objects which are not to be printed (hidden).    *)
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H, np
Within(s) == {s[i] : i \in 1..Len(s)}
EventOk(e) ==
    /\ e.same            \* str() and repr() agree, and nothing has changed
    /\ CASE e.op = "text"   -> e.res = "ok" /\ e.t = (IF e.all THEN ValueText(H, e.i, np) ELSE SliceText(H, e.i, e.lo, e.hi, np))
         [] e.op = "prim"   -> e.res = "ok" /\ e.t = PrimText(e.ty, e.xs)
         [] e.op = "bits"   -> e.res = "ok" /\ e.t = BitsText(e.b)
         [] e.op = "hidden" -> e.res = "ok" /\ e.t = HiddenText(e.name, e.addr)
         \* a path of d containers
         [] e.op = "deep"   -> IF e.d <= 512 THEN e.res = "ok" /\ e.good ELSE e.res = "ok" => e.good
         [] OTHER -> FALSE
Init == l = 1 /\ H = [n |-> <<>>, r |-> 0] /\ np = {}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "file" THEN H' = e.h /\ np' = Within(e.np) ELSE IF EventOk(e) THEN UNCHANGED <<H, np>> ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, H, np>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
