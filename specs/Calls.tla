------------------------------- MODULE Calls -------------------------------
(* A call of a serializer, and the world around it.                               *)
(*                                                                              *)
(* The world is the directory: a set of <<name, length, hash, hash>>.  A call     *)
(* either returns, and then (over)writes the one file it names, if any, or raises *)
(* an exception, and then changes nothing.  Either way the arguments, the number  *)
(* of references to them, the heap and what later calls do stay the same.         *)
EXTENDS Store

\* nesting: lists and tuples (0) count once, maps (1) twice
Nesting(ks) == LET RECURSIVE Sum(_, _)
                   Sum(i, acc) == IF i > Len(ks) THEN acc ELSE Sum(i + 1, acc + 1 + ks[i])
               IN  Sum(1, 0)
MustAccept(e) == IF e.g.n # <<>> THEN Storable(e.g) ELSE Nesting(e.nest) <= 250
MustReject(e) == IF e.g.n # <<>> THEN ~Storable(e.g) ELSE Len(e.nest) > 512

Without(dir, name) == {x \in dir : x[1] # name}
\* the directory after the call
After(dir, e) == IF e.res = "ok" /\ e.how = "file" THEN Without(dir, e.name) \cup {<<e.name>> \o e.out} ELSE dir

ToSet2(s) == {s[i] : i \in 1..Len(s)}
CallOk(dir, e) ==
    /\ e.res \in {"ok", "exc"}
    /\ e.fail = 0 /\ MustAccept(e) => e.res = "ok"
    /\ MustReject(e) => e.res = "exc"
    \* whatever the target, and whatever failed on the way, success gives the same image
    /\ e.res = "ok" => e.out = e.want
    /\ ToSet2(e.dir1) = dir
    /\ ToSet2(e.dir2) = After(dir, e)
    /\ e.refs2 = e.refs1
    /\ e.arg2 = e.arg1
    /\ e.ref2 = e.ref1
    /\ e.grow = 0
=============================================================================
