---------------------------- MODULE RewriteTrace ----------------------------
(* Recorded rewrites: values read from files written again, alone and mixed with    *)
(* objects (write), and whole files copied with the C functions (copy).            *)
EXTENDS Rewrite, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hs
EventOk(e) ==
    CASE e.op = "write" ->
            LET G == Compose(e.g, hs) IN
            /\ (e.res = "ok") = Storable(G)
            /\ e.res = "ok" => Represents(G, e.h) /\ SharedStays(G, e.h)
      [] e.op = "copy" ->
            LET G == Again(hs[e.f]) IN
            /\ e.res = "ok" /\ SharingOk(G, e.h) /\ HashabilityOk(G, e.h)
            /\ e.same        \* the file that was copied
      \* somewhere where nothing can be written
      [] e.op = "nocopy" -> e.res = "exc" /\ e.same /\ e.error
      \* deeper than files may be: an error, or a file with that value
      [] e.op = "deep" -> IF e.res = "ok" THEN e.depth = e.want ELSE ~e.must
      [] OTHER -> FALSE
Init == l = 1 /\ hs = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "files" THEN hs' = e.hs ELSE IF EventOk(e) THEN UNCHANGED hs ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, hs>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
