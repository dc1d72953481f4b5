----------------------------- MODULE StoreTrace -----------------------------
(* Recorded writes and reads, judged by Store.  ASPECT selects what is asked.    *)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Aspect == IOEnv.ASPECT
VARIABLE l

EventOk(e) ==
    /\ e.op = "store"
    /\ (e.res = "ok") = Storable(e.g)
    /\ e.res = "ok" =>
        CASE Aspect = "values"  -> Represents(e.g, e.h)
          [] Aspect = "sharing" -> SharingOk(e.g, e.h) /\ HashabilityOk(e.g, e.h)
          [] Aspect = "storage" -> StorageOk(e.g, e.h)
          [] Aspect = "accept"  -> TRUE

Init == l = 1
Next == l <= Len(Trace) /\ IF EventOk(Trace[l]) THEN l' = l + 1 ELSE FALSE
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
