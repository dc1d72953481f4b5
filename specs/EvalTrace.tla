------------------------------ MODULE EvalTrace ------------------------------
(* Recorded lookups and evaluations of access expressions in a file.               *)
EXTENDS Eval, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H
AllOk(e, pl, ty) == \A x \in 1..Len(e.as) : OutcomeOk(H, pl, ty, e.as[x])
EventOk(e) ==
    CASE e.op = "eval" ->
            LET pl == Eval(H, e.i, e.e, e.args) IN
            /\ e.ok = (pl # Nowhere)
            /\ e.ok => Tells(H, pl, e.v)
            /\ AllOk(e, pl, IF e.ok THEN e.v.ty ELSE 0)
      [] e.op = "string" ->
            LET x == StrKey(H, H.n[e.i].ks, e.c) IN AllOk(e, IF x = 0 THEN Nowhere ELSE Node(H.n[e.i].vs[x]), 0)
      [] e.op = "int" ->
            LET x == IntKey(H, KeyList(H.n[e.i]), WNumeral(e.w)) IN
            /\ e.in = (x # 0) /\ e.ok = e.in /\ e.kept
            /\ (e.ok /\ H.n[e.i].k = "map") => Tells(H, Node(H.n[e.i].vs[x]), e.v)
      [] e.op = "key" ->
            \* vectors may be stored as not hashable, which no key is
            LET ks == KeyList(H.n[e.i])
                \* a vector that is not hashable here may be referred to as hashable (and the other way around) elsewhere
                no == e.ty = 0 \/ (e.err /\ H.n[e.j].k = "vec" /\ H.n[e.j].h = 0)
                x == IF no THEN 0 ELSE EqKey(H, ks, e.j) IN
            /\ e.in = (x # 0) /\ e.ok = e.in /\ e.err = no
            /\ e.ok => /\ Tells(H, Node(ks[x]), e.kk)
                       /\ H.n[e.i].k = "map" => Tells(H, Node(H.n[e.i].vs[x]), e.v)
      [] e.op = "samekeys" -> e.in = SameKeys(H, e.i, e.j)
      [] OTHER -> FALSE
Init == l = 1 /\ H = [n |-> <<>>, r |-> 0]
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "file" THEN Tells(e.h, Node(e.h.r), e.root) /\ H' = e.h ELSE IF EventOk(e) THEN UNCHANGED H ELSE FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, H>>
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
