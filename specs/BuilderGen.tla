----------------------------- MODULE BuilderGen -----------------------------
(* All short histories of the creation interface.                               *)
EXTENDS Builder, Json
CONSTANTS Emit, Depth, Nodes
VARIABLES S, hist
WI(x) == IF x < 0 THEN <<1, 0, 0, 0, -x>> ELSE <<0, 0, 0, 0, x>>
Node(x) == CASE x = "i32" -> [k |-> "int", w |-> WI(1)]
             [] x = "neg" -> [k |-> "int", w |-> WI(-1)]
             [] x = "u32" -> [k |-> "int", w |-> WI(1)]
             [] x = "flt" -> [k |-> "flt", d |-> <<0, 1023, 0, 0>>]
             [] x = "string_ascii" -> [k |-> "str", c |-> <<97>>, u |-> 0]
             [] x = "unicode_ascii" -> [k |-> "str", c |-> <<97>>, u |-> 1]
             [] x = "bitvector" -> [k |-> "bits", b |-> <<1, 0, 1>>]
             [] x = "vector_value" -> [k |-> "list", ch |-> <<>>]
             [] x = "set" -> [k |-> "set", ch |-> <<>>]
             [] x = "map" -> [k |-> "map", ks |-> <<>>, vs |-> <<>>]
             [] x = "own" -> [k |-> "prim", t |-> "u8", xs |-> <<WI(1)>>]
             [] x = "lib" -> [k |-> "prim", t |-> "u8", xs |-> <<>>]
How(x) == IF x = "neg" THEN "i32" ELSE x
Kinds == {"i32", "u32", "neg", "string_ascii", "unicode_ascii", "vector_value", "set", "map", "own", "lib"}
OpenOf(k) == {i \in 1..Len(S.n) : S.n[i].k = k}
All == 1..Len(S.n)
Do(e) == S' = After(S, e) /\ hist' = Append(hist, e)
Init == S = Fresh(64) /\ hist = <<>>
\* the handle the model gives: the same for the same immutable value
Handle(a) == LET old == {j \in All : Immutable(a) /\ S.n[j] = a} IN IF old = {} THEN Len(S.n) + 1 ELSE S.hd[CHOOSE j \in old : TRUE]
Next ==
    /\ Len(hist) < Depth
    /\ \/ Len(S.n) < Nodes /\ \E x \in Kinds : Do([op |-> "mk", how |-> How(x), id |-> Len(S.n) + 1, node |-> Node(x), h |-> Handle(Node(x))])
       \/ \E v \in OpenOf("list") : \E x \in All : Do([op |-> "push", i |-> v, x |-> x])
       \/ \E v \in OpenOf("list") : \E x \in All : Size(S.n[v]) > 0 /\ Do([op |-> "put", i |-> v, at |-> 0, x |-> x])
       \/ \E v \in OpenOf("list") : \E x, y \in All : Size(S.n[v]) = 0 /\ Do([op |-> "give", i |-> v, xs |-> <<x, y>>])
       \/ \E v \in OpenOf("set") : \E x \in All : Do([op |-> "add", i |-> v, k |-> x])
       \/ \E v \in OpenOf("map") : \E x, y \in All : Do([op |-> "add2", i |-> v, k |-> x, v |-> y])
       \/ \E v \in OpenOf("prim") : Do([op |-> "pushx", i |-> v, t |-> "u8", n |-> WI(2)]) /\ Node("lib") = S.n[v]
Spec == Init /\ [][Next]_<<S, hist>>
\* the last container is the root: everything else is reachable from it or not
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', may |-> MayWrite([S' EXCEPT !.r = Len(S'.n)])])>>)
\* handles: one for each container, and what they stand for agrees
Inv == /\ \A i, j \in All : S.hd[i] = S.hd[j] => i = j \/ (Immutable(S.n[i]) /\ S.n[i] = S.n[j])
       /\ \A i \in All : Kids(S.n[i]) \subseteq All
       /\ \A i \in All : MustWrite([S EXCEPT !.r = i]) => MayWrite([S EXCEPT !.r = i])
\* containers only grow, unless an item is put in place of another
Grow == [][\A i \in All : Immutable(S.n[i]) => S'.n[i] = S.n[i]]_<<S, hist>>
=============================================================================
