----------------------------- MODULE AcceptGen -----------------------------
(* All small graphs with every kind of container, and leaves among which there   *)
(* are some that can not be stored, or are equal once stored.                   *)
EXTENDS Store, Json
CONSTANTS MaxCh, Kinds
VARIABLE G

N == 2
Third == <<0, 1019, 5033164, 429496730>>        \* 0.2
ThirdS == <<0, 1019, 5033165, 0>>               \* the single next to it
Leaves == <<[k |-> "none"], [k |-> "bad", o |-> "bytes"], [k |-> "int", w |-> <<0, 0, 1, 0, 0>>], [k |-> "str", c |-> <<97, 0, 98>>],
            [k |-> "flt", d |-> Third], [k |-> "flt", d |-> ThirdS],
            [k |-> "prim", t |-> "u8", xs |-> <<W(1)>>], [k |-> "prim", t |-> "i8", xs |-> <<W(1)>>], [k |-> "int", w |-> W(5)],
            [k |-> "bits", b |-> <<1>>], [k |-> "list", ch |-> <<>>]>>
L(i) == N + i
LeafIds == {L(i) : i \in 1..Len(Leaves)}
HashLeaf == LeafIds \ {L(11)}
Nodes(g) == 1..N
IsSet(k) == k \in {"set", "fset"}
Ch(k) == LET T == IF IsSet(k) THEN HashLeaf \cup {2} ELSE LeafIds \cup {1, 2} IN UNION {[1..m -> T] : m \in 0..MaxCh}
Node(k, s, ks) == IF k = "map" THEN [k |-> k, ks |-> ks, vs |-> s] ELSE [k |-> k, ch |-> s]
RECURSIVE PyHashable(_, _, _)
PyHashable(g, i, d) == IF i > N THEN i \in HashLeaf
    ELSE d > 0 /\ g.n[i].k \in {"tup", "fset"} /\ \A j \in Kids(g.n[i]) : PyHashable(g, j, d - 1)
Distinct(s) == \A i, j \in 1..Len(s) : i < j => s[i] # s[j]
Fixed(g, i) == g.n[i].k \in {"tup", "fset"}
RECURSIVE FixedReach(_, _, _)
FixedReach(g, todo, done) == IF todo = {} THEN done
    ELSE FixedReach(g, {j \in UNION {Kids(g.n[i]) : i \in todo} : Fixed(g, j)} \ (done \cup todo), done \cup todo)
Buildable(g) == \A i \in 1..N :
    /\ IsSet(g.n[i].k) => Distinct(g.n[i].ch) /\ \A j \in Kids(g.n[i]) : PyHashable(g, j, 3)
    /\ g.n[i].k = "map" => Distinct(g.n[i].ks) /\ \A j \in 1..Len(g.n[i].ks) : PyHashable(g, g.n[i].ks[j], 3)
    /\ Fixed(g, i) => ~\E j \in Kids(g.n[i]) : Fixed(g, j) /\ i \in FixedReach(g, {j}, {})
KeySeqs(m) == IF m = 0 THEN {<<>>} ELSE [1..m -> {L(2), L(5), L(6), L(7), 2}]
Init == \E k1, k2 \in Kinds : \E s1 \in Ch(k1) : \E s2 \in {s \in Ch(k2) : Len(s) <= 1} :
        \E ks1 \in (IF k1 = "map" THEN KeySeqs(Len(s1)) ELSE {<<>>}) :
        \E ks2 \in (IF k2 = "map" THEN KeySeqs(Len(s2)) ELSE {<<>>}) :
            /\ G = [n |-> <<Node(k1, s1, ks1), Node(k2, s2, ks2)>> \o Leaves, r |-> 1]
            /\ 2 \in Reach(G, 1)
            /\ Buildable(G)
Next == UNCHANGED G
Spec == Init /\ [][Next]_G
\* what can be stored stays storable without one of its items, and everything reached is storable by itself
Drop(s) == IF s = <<>> THEN s ELSE Tail(s)
Inv == /\ Storable(G) => \A i \in 1..N :
            LET a == G.n[i] IN
            Storable([G EXCEPT !.n[i] = IF a.k = "map" THEN [a EXCEPT !.ks = Drop(@), !.vs = Drop(@)] ELSE [a EXCEPT !.ch = Drop(@)]])
       /\ Storable(G) <=> \A i \in Reach(G, 1) : Storable([G EXCEPT !.r = i])
       /\ ~Storable(G) => \E i \in Reach(G, 1) : ~NodeOk(G.n[i]) \/ (G.n[i].k \in {"set", "fset", "map"} /\ ~KeyedOk(G, G.n[i]))
Show == PrintT(<<"B", ToJson([h |-> G, same |-> FALSE])>>)
InvShow == Inv /\ Show
=============================================================================
