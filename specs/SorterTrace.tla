---------------------------- MODULE SorterTrace -----------------------------
(* Are the recorded sorts behaviours of Sorter?  Sorts through the C function are *)
(* recorded step by step: begin, then cmp and swap, then end.                    *)
EXTENDS Sorter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES arr, st, l       \* arr: the array now; st: "idle", "run", "lied" (comparisons were not an order) or "failed"
T == "i32"
At(xs, i) == xs[i + 1]
Init == arr = <<>> /\ st = "idle" /\ l = 1
In(i) == 0 <= i /\ i < Len(arr)
Cmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       CASE e.op = "reset" -> arr' = <<>> /\ st' = "idle"
         [] e.op = "crash" -> FALSE /\ UNCHANGED <<arr, st>>
         [] e.op = "sort" -> st = "idle" /\ e.res.k = "ok" /\ SortOK(e.t, e.xs, e.ys) /\ UNCHANGED <<arr, st>>
         [] e.op = "proj" ->
              /\ st = "idle" /\ e.vs2 = e.vs
              /\ IF e.self THEN e.res.k = "exc" \/ Perm(e.p, e.q)
                 ELSE IF ProjFails(e.pt, e.p, e.vs) THEN e.res.k = "exc" /\ e.q = e.p
                 ELSE e.res.k = "ok" /\ ProjOK(e.pt, e.p, e.vs, e.q)
              /\ UNCHANGED <<arr, st>>
         [] e.op = "begin" -> st = "idle" /\ arr' = e.xs /\ st' = "run"
         [] e.op = "cmp" -> /\ In(e.i) /\ In(e.j) /\ arr' = arr
                            /\ st' = IF e.c = <<>> \/ st = "failed" THEN "failed" ELSE IF e.c # <<Cmp(At(arr, e.i), At(arr, e.j))>> THEN "lied" ELSE st
         [] e.op = "swap" -> /\ In(e.i) /\ In(e.j) /\ st' = st
                             /\ arr' = [arr EXCEPT ![e.i + 1] = At(arr, e.j), ![e.j + 1] = At(arr, e.i)]
         [] e.op = "end" ->
              /\ e.xs = arr
              /\ CASE st = "failed" -> e.ret = 0
                   [] st = "lied" -> TRUE
                   [] OTHER -> e.ret = 1 /\ \A i \in 1..(Len(arr) - 1) : arr[i] <= arr[i + 1]
              /\ st' = "idle" /\ arr' = <<>>
    /\ l' = l + 1
Spec == Init /\ [][Next]_<<arr, st, l>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
