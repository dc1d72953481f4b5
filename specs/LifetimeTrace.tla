--------------------------- MODULE LifetimeTrace ----------------------------
(* Are the recorded histories behaviours of Lifetime?  An event has the result    *)
(* res and  post: what every value that is held contains (views), what every      *)
(* buffer contains (mems), what every object that is held reports (objs), and how  *)
(* many descriptors and mappings of files the process has (fds, maps).           *)
EXTENDS Lifetime, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
\* the same contents; entries of maps and sets come in any order
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.k = b.k \/ (a.k \in {"seq", "bytes"} /\ b.k \in {"seq", "bytes"} /\ a.xs = <<>>)
    /\ CASE a.k = "leaf" -> a.v = b.v
         [] a.k = "bits" -> a.b = b.b
         [] a.k = "bytes" -> a.xs = b.xs
         [] a.k = "seq" -> Len(a.xs) = Len(b.xs) /\ \A i \in 1..Len(a.xs) : Same(a.xs[i], b.xs[i])
         [] a.k = "set" -> Len(a.xs) = Len(b.xs) /\ \A i \in 1..Len(a.xs) : \E j \in 1..Len(a.xs) : Same(a.xs[i], b.xs[j])
         [] a.k = "map" -> Len(a.es) = Len(b.es) /\ \A i \in 1..Len(a.es) : \E j \in 1..Len(a.es) : Same(a.es[i][1], b.es[j][1]) /\ Same(a.es[i][2], b.es[j][2])
\* the position of a yielded item that was not yielded before
Pos(e) ==
    IF e.op = "next" /\ e.res.k = "ok" THEN
        LET it == S.iters[e.id]
            xs == Items(S.views[it.view].tree, it.how)
            ps == {k \in (1..Len(xs)) \ it.done : Same(xs[k], e.res.v.t)}
        IN  IF ps = {} THEN 0 ELSE CHOOSE k \in ps : \A j \in ps : k <= j
    ELSE 0
ResEq(e, r) == /\ e.res.k = r.k
               /\ r.k = "ok" => IF e.op = "rest" THEN Same([k |-> IF Ordered(S.views[S.iters[e.id].view].tree) THEN "seq" ELSE "set", xs |-> e.res.v[1].xs],
                                                            [k |-> IF Ordered(S.views[S.iters[e.id].view].tree) THEN "seq" ELSE "set", xs |-> r.v])
                                ELSE IF e.op \in {"root", "sub", "slice", "next"} THEN Same(e.res.v.t, r.v.t) ELSE e.res.v = r.v
Held(f) == {x \in DOMAIN f : f[x].held}
PostEq(p, T) ==
    /\ DOMAIN p.views = Held(T.views) /\ \A v \in DOMAIN p.views : Same(p.views[v], T.views[v].tree)
    /\ DOMAIN p.mems = DOMAIN T.mems /\ \A m \in DOMAIN p.mems : p.mems[m] = T.mems[m].xs
    /\ DOMAIN p.objs = Held(T.objs)
    /\ \A o \in DOMAIN p.objs : LET q == p.objs[o] IN
          /\ q.refs = Refs(T, o)
          /\ q.open = (IF T.objs[o].open THEN 1 ELSE 0)
          /\ q.ver = (IF T.objs[o].file THEN T.objs[o].ver ELSE 0)
    /\ p.fds = Cardinality(OpenFiles(T))
    /\ p.maps = Cardinality(OpenFiles(T))
Init == S = Empty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           CASE e.op = "reset" -> S' = Empty
             [] e.op = "crash" -> FALSE
             [] e.op = "leak" -> IF e.grow = 0 THEN S' = S ELSE FALSE
             [] OTHER -> LET a == Apply(S, [x \in DOMAIN e \cup {"pos"} |-> IF x = "pos" THEN Pos(e) ELSE e[x]]) IN
                         IF ResEq(e, a.r) /\ PostEq(e.post, a.S) THEN S' = a.S ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<S, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
