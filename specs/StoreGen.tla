------------------------------ MODULE StoreGen ------------------------------
(* All small graphs of lists, tuples and maps.  Every graph is an initial state;  *)
(* Write is what the specification requires a writer and reader to produce, and   *)
(* the invariant says that the relations of Store tell it from its mutations.     *)
EXTENDS Store, Json

CONSTANTS N,         \* number of containers
          MaxCh,     \* children of each
          Kinds, Emit
VARIABLE G

None == N + 1
Str  == N + 2
Set1 == N + 3
Leaves == <<[k |-> "none"], [k |-> "str", c |-> <<120>>], [k |-> "set", ch |-> <<N + 4>>],
            [k |-> "int", w |-> W(1)], [k |-> "int", w |-> W(2)], [k |-> "int", w |-> W(3)]>>
Targets == (1..N) \cup {None, Set1}
Seqs == UNION {[1..m -> Targets] : m \in 0..MaxCh}
Node(k, s) == IF k = "map" THEN [k |-> k, ks |-> [i \in 1..Len(s) |-> N + 3 + i], vs |-> s] ELSE [k |-> k, ch |-> s]
\* tuples can not refer to each other in a cycle
RECURSIVE TupReach(_, _, _)
TupReach(g, todo, done) == IF todo = {} THEN done
    ELSE TupReach(g, {j \in UNION {Kids(g.n[i]) : i \in todo} : g.n[j].k = "tup"} \ (done \cup todo), done \cup todo)
Buildable(g) == \A i \in 1..N : g.n[i].k = "tup" => ~\E j \in Kids(g.n[i]) : g.n[j].k = "tup" /\ i \in TupReach(g, {j}, {})

\* every container is reached from the root, the first one
Connected(g) == (1..N) \subseteq Reach(g, 1)

Init == \E ks \in [1..N -> Kinds] : \E ss \in [1..N -> Seqs] :
            /\ G = [n |-> [i \in 1..N |-> Node(ks[i], ss[i])] \o Leaves, r |-> 1]
            /\ Connected(G) /\ Buildable(G)
Next == UNCHANGED G
Spec == Init /\ [][Next]_G

\* the graph that has to be read
Write(g) ==
    [n |-> [i \in 1..Len(g.n) |->
        LET a == g.n[i] IN
        CASE IsVec(a) -> IF Storage(g, a) = "v" THEN [k |-> "vec", st |-> "v", id |-> i, h |-> IF HashableVec(g, i) THEN 1 ELSE 0, ch |-> a.ch]
                         ELSE [k |-> "vec", st |-> Storage(g, a), id |-> 0, h |-> 1, xs |-> <<>>]
          [] a.k = "set" -> [k |-> "set", id |-> i, ch |-> a.ch]
          [] a.k = "map" -> [k |-> "map", id |-> i, ks |-> a.ks, vs |-> a.vs]
          [] OTHER -> a],
     r |-> g.r]
Identities(g) == {i \in Reach(g, g.r) : Identity(g.n[i])}
Inv == LET H == Write(G) IN
    /\ Storable(G) /\ Represents(G, H) /\ SharingOk(G, H) /\ HashabilityOk(G, H) /\ StorageOk(G, H)
    \* two containers made one are noticed
    /\ \A i, j \in Identities(G) : (i < j /\ G.n[i].k = G.n[j].k) =>
            ~SharingOk(G, [H EXCEPT !.n[j].id = i])
    \* a wrong flag is noticed
    /\ \A i \in Identities(G) : IsVec(G.n[i]) => ~HashabilityOk(G, [H EXCEPT !.n[i].h = 1 - @])
    \* a lost, changed or misplaced item is noticed
    /\ \A i \in Identities(G) : (IsVec(G.n[i]) /\ Size(G.n[i]) > 0) =>
            /\ ~Represents(G, [H EXCEPT !.n[i].ch = Tail(@)])
            /\ ~Represents(G, [H EXCEPT !.n[i].ch[1] = Str])
Show == Emit => PrintT(<<"B", ToJson([h |-> G, same |-> FALSE])>>)
InvShow == Inv /\ Show
=============================================================================
