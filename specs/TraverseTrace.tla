---------------------------- MODULE TraverseTrace ----------------------------
(* Recorded traversals of files by the C library. *)
EXTENDS Traverse, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, P, H, todo
vars == <<l, P, H, todo>>
At2(v) == CHOOSE i \in 1..Len(H.refs) : H.refs[i] = v
EventOk(e) ==
    CASE e.op = "count" -> e.n = NContainers(P)
      [] e.op = "number" -> e.n = Number(P, e.v)
      [] e.op = "items" -> e.vs = PartsOf(P, e.v) /\ e.n = Len(e.vs)
      [] e.op = "entries" -> /\ e.ks = KeysAt(P, e.v) /\ e.vs = ValuesAt(P, e.v)
                             /\ e.n = NEntries(P, e.v) /\ e.n = Len(e.ks) /\ e.buckets = NItems(P, Part(P, e.v, 2))
                             /\ e.parts = PartsOf(P, e.v)
      [] e.op = "hashed" -> LET s == WithHash(P, e.v, e.h) IN
                            ToSet(e.es) = {Entry(P, e.v, i) : i \in s}
      [] e.op = "print" -> e.ok /\ DebugOk(H, At2(e.v), e.t)
      [] OTHER -> FALSE
Init == l = 1 /\ P = <<>> /\ H = <<>> /\ todo = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "file" -> IF Verdict(e.b) = "accept" THEN P' = TLCEval(Parse(e.b)) /\ H' = TLCEval(Decode(e.b)) /\ todo' = <<>> ELSE FALSE
             [] e.op = "walk" -> todo' = <<<<P.root, 0>>>> /\ UNCHANGED <<P, H>>
             [] e.op = "visit" -> IF ~Finished(todo) /\ todo[1] = <<e.v, e.d>> THEN todo' = Visit(todo, PartsOf(P, e.v), e.act) /\ UNCHANGED <<P, H>> ELSE FALSE
             [] e.op = "walked" -> IF Finished(todo) THEN UNCHANGED <<P, H, todo>> ELSE FALSE
             [] OTHER -> IF EventOk(e) THEN UNCHANGED <<P, H, todo>> ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
