------------------------------- MODULE Store -------------------------------
(* What serializing an object graph and reading it back means.                   *)
(*                                                                              *)
(* An object graph is [n |-> nodes, r |-> root]; nodes refer to each other by    *)
(* index.  Nodes of the graph that is written:                                   *)
(*   [k |-> "int", w]    an integer          [k |-> "flt", d]   a double         *)
(*   [k |-> "bool", v]   0 or 1              [k |-> "none"]                      *)
(*   [k |-> "str", c]    code points         [k |-> "bits", b]  bits             *)
(*   [k |-> "list", ch]  [k |-> "tup", ch]   items                               *)
(*   [k |-> "prim", t, xs]                   machine type and items              *)
(*   [k |-> "set", ch]   [k |-> "fset", ch]  [k |-> "map", ks, vs]               *)
(*   [k |-> "bad", o]    something that can not be stored                        *)
(* Nodes of the graph that is read:                                              *)
(*   "int", "bool", "none", "str", "bits" as above,  [k |-> "flt", f] a single,  *)
(*   [k |-> "vec", st, id, h, ch]  items of any kind, st = "v"                   *)
(*   [k |-> "vec", st, id, h, xs]  items of the machine type st, or none ("e")   *)
(*   [k |-> "set", id, ch]  [k |-> "map", id, ks, vs]                            *)
EXTENDS Words, Floats, TLC

IsList(a) == a.k \in {"list", "tup"}
Container(a) == a.k \in {"list", "tup", "set", "fset", "map", "prim"}
Kids(a) == CASE a.k \in {"list", "tup", "set", "fset"} -> {a.ch[i] : i \in 1..Len(a.ch)}
             [] a.k = "map" -> {a.ks[i] : i \in 1..Len(a.ks)} \cup {a.vs[i] : i \in 1..Len(a.vs)}
             [] OTHER -> {}
Size(a) == CASE a.k \in {"list", "tup", "set", "fset"} -> Len(a.ch) [] a.k = "map" -> Len(a.ks) [] a.k = "prim" -> Len(a.xs) [] OTHER -> 0

RECURSIVE ReachFrom(_, _, _)
ReachFrom(G, todo, done) == IF todo = {} THEN done
    ELSE ReachFrom(G, (UNION {Kids(G.n[i]) : i \in todo}) \ (done \cup todo), done \cup todo)
Reach(G, i) == ReachFrom(G, {i}, {})
InCycle(G, i) == \E j \in Kids(G.n[i]) : i \in Reach(G, j)

---------------------------------------------------------------------------
(* Storage of lists: the narrowest machine type that holds all items *)
WMin(S) == CHOOSE w \in S : \A v \in S : WLE(w, v)
WMax(S) == CHOOSE w \in S : \A v \in S : WLE(v, w)
IntStorage(ws) ==   \* ws: a non-empty set of integers
    LET fits(t) == \A w \in ws : InType(w, t)
        order == IF \A w \in ws : ~WNeg(w) THEN <<"u8", "u16", "u32">> ELSE <<"i8", "i16", "i32">>
    IN  IF fits(order[1]) THEN order[1] ELSE IF fits(order[2]) THEN order[2] ELSE IF fits(order[3]) THEN order[3] ELSE "v"
Storage(G, a) ==
    IF Size(a) = 0 THEN "e"
    ELSE IF a.k = "prim" THEN a.t
    ELSE IF \A i \in Kids(a) : G.n[i].k = "int" THEN IntStorage({G.n[i].w : i \in Kids(a)})
    ELSE IF \A i \in Kids(a) : G.n[i].k = "flt" THEN "f"
    ELSE "v"

---------------------------------------------------------------------------
(* What can be stored *)
NodeOk(a) == CASE a.k = "int" -> InType(a.w, "i32") \/ InType(a.w, "u32")
               [] a.k = "str" -> \A i \in 1..Len(a.c) : a.c[i] # 0
               [] a.k = "bad" -> FALSE
               [] OTHER -> TRUE
\* deeply hashable, once stored (keys have no cycles)
Hashable(G, i) == \A j \in Reach(G, i) : G.n[j].k \notin {"set", "fset", "map"}

\* equality of keys as stored: numbers (booleans among them) by value, vectors by items whatever their storage
IsNum(a) == a.k \in {"int", "flt", "bool"}
AsInt(a) == IF a.k = "bool" THEN W(a.v) ELSE a.w
NumEq(a, b) ==
    IF a.k = "flt" /\ b.k = "flt" THEN FEq(Narrow(a.d), Narrow(b.d))
    ELSE IF a.k = "flt" THEN ~FNan(Narrow(a.d)) /\ IntFCmp(AsInt(b), Narrow(a.d)) = 0
    ELSE IF b.k = "flt" THEN ~FNan(Narrow(b.d)) /\ IntFCmp(AsInt(a), Narrow(b.d)) = 0
    ELSE AsInt(a) = AsInt(b)
IsVec(a) == a.k \in {"list", "tup", "prim"}
F64(f) == IF FNan(f) THEN <<0, 2047, 1, 0>>                 \* a single as a double
          ELSE IF FExp(f) = 255 THEN <<FSign(f), 2047, 0, 0>>
          ELSE IF FExp(f) = 0
          THEN IF FMan(f) = 0 THEN <<FSign(f), 0, 0, 0>>
               ELSE LET k == Log2(FMan(f)) IN <<FSign(f), 1023 - 149 + k, (FMan(f) - 2^k) * 2^(23 - k), 0>>
          ELSE <<FSign(f), FExp(f) - 127 + 1023, FMan(f), 0>>
ItemNode(G, a, i) == IF a.k = "prim"
                     THEN IF a.t = "f" THEN [k |-> "flt", d |-> F64(a.xs[i])] ELSE [k |-> "int", w |-> a.xs[i]]
                     ELSE G.n[a.ch[i]]
RECURSIVE KeyEq(_, _, _)
KeyEq(G, a, b) ==
    CASE IsNum(a) /\ IsNum(b) -> NumEq(a, b)
      [] a.k = "none" /\ b.k = "none" -> TRUE
      [] a.k = "str" /\ b.k = "str" -> a.c = b.c
      [] a.k = "bits" /\ b.k = "bits" -> a.b = b.b
      [] IsVec(a) /\ IsVec(b) -> Size(a) = Size(b) /\ \A i \in 1..Size(a) : KeyEq(G, ItemNode(G, a, i), ItemNode(G, b, i))
      [] OTHER -> FALSE
KeysOf(a) == IF a.k = "map" THEN a.ks ELSE a.ch
KeyedOk(G, a) ==
    LET ks == KeysOf(a) IN
    /\ \A i \in 1..Len(ks) : Hashable(G, ks[i])
    /\ \A i \in 1..Len(ks) : KeyEq(G, G.n[ks[i]], G.n[ks[i]])       \* not NaN
    /\ \A i, j \in 1..Len(ks) : i < j => ~KeyEq(G, G.n[ks[i]], G.n[ks[j]])
Storable(G) == LET R == Reach(G, G.r) IN
    /\ \A i \in R : NodeOk(G.n[i])
    /\ \A i \in R : G.n[i].k \in {"set", "fset", "map"} => KeyedOk(G, G.n[i])

---------------------------------------------------------------------------
(* Does H, the graph that is read, represent G, the graph that was written? *)
FSame(x, y) == x = y \/ (FNan(x) /\ FNan(y))
\* A writer stores vectors as Storage says; another one (G.loose) may do with wider items.
AsStored(G, a, st) ==
    IF "loose" \notin DOMAIN G THEN st = Storage(G, a)
    ELSE IF Size(a) = 0 THEN st = "e"
    ELSE IF a.k = "prim" THEN st = a.t
    ELSE CASE st = "v" -> TRUE
           [] st = "f" -> \A j \in 1..Len(a.ch) : G.n[a.ch[j]].k = "flt"
           [] st \in {"i8", "u8", "i16", "u16", "i32", "u32"} -> \A j \in 1..Len(a.ch) : G.n[a.ch[j]].k = "int"
           [] OTHER -> FALSE
RECURSIVE Same(_, _, _, _)
\* same value and kinds, for keys (which have no cycles)
Same(G, i, H, o) ==
    LET a == G.n[i] b == H.n[o] IN
    CASE a.k = "int" -> b.k = "int" /\ a.w = b.w
      [] a.k = "flt" -> b.k = "flt" /\ FSame(Narrow(a.d), b.f)
      [] a.k = "bool" -> b.k = "bool" /\ a.v = b.v
      [] a.k = "none" -> b.k = "none"
      [] a.k = "str" -> b.k = "str" /\ a.c = b.c
      [] a.k = "bits" -> b.k = "bits" /\ a.b = b.b
      [] IsVec(a) -> /\ b.k = "vec"
                     /\ LET st == b.st IN
                        /\ AsStored(G, a, st)
                        /\ IF st = "e" THEN Len(b.xs) = 0
                           ELSE IF st = "v" THEN Len(b.ch) = Len(a.ch) /\ \A k \in 1..Len(a.ch) : Same(G, a.ch[k], H, b.ch[k])
                           ELSE /\ Len(b.xs) = Size(a)
                                /\ \A k \in 1..Size(a) :
                                     IF a.k = "prim" THEN IF st = "f" THEN FSame(a.xs[k], b.xs[k]) ELSE a.xs[k] = b.xs[k]
                                     ELSE IF st = "f" THEN FSame(Narrow(G.n[a.ch[k]].d), b.xs[k])
                                     ELSE G.n[a.ch[k]].w = b.xs[k]
      [] OTHER -> FALSE

Bad == {<<0, 0>>}
\* the keys as, bs (node indices) paired up: a set of pairs of positions; Bad if that does not work out
PairKeys(G, as, H, bs) ==
    IF Len(as) # Len(bs) THEN Bad
    ELSE LET ps == {<<i, CHOOSE j \in 0..Len(bs) : IF j = 0 THEN \A k \in 1..Len(bs) : ~Same(G, as[i], H, bs[k]) ELSE Same(G, as[i], H, bs[j])>> : i \in 1..Len(as)}
         IN  IF \E p \in ps : p[2] = 0 THEN Bad
             ELSE IF Cardinality({p[2] : p \in ps}) # Len(as) THEN Bad ELSE ps
\* the pairs that have to match when i matches o; Bad when i and o themselves do not
Pairs(G, i, H, o) ==
    LET a == G.n[i] b == H.n[o] IN
    CASE IsList(a) /\ b.k = "vec" /\ b.st = "v" ->
            IF AsStored(G, a, "v") /\ Len(a.ch) = Len(b.ch) THEN {<<a.ch[k], b.ch[k]>> : k \in 1..Len(a.ch)} ELSE Bad
      [] a.k \in {"set", "fset"} ->
            IF b.k # "set" THEN Bad
            ELSE LET ps == PairKeys(G, a.ch, H, b.ch) IN
                 IF ps = Bad THEN Bad ELSE {<<a.ch[p[1]], b.ch[p[2]]>> : p \in ps}
      [] a.k = "map" ->
            IF b.k # "map" THEN Bad
            ELSE LET ps == PairKeys(G, a.ks, H, b.ks) IN
                 IF ps = Bad \/ Len(b.vs) # Len(b.ks) THEN Bad
                 ELSE {<<a.ks[p[1]], b.ks[p[2]]>> : p \in ps} \cup {<<a.vs[p[1]], b.vs[p[2]]>> : p \in ps}
      [] OTHER -> IF Same(G, i, H, o) THEN {} ELSE Bad
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(G, H, todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == UNION {Pairs(G, p[1], H, p[2]) : p \in todo} IN
         IF <<0, 0>> \in next THEN Bad
         ELSE MatchFrom(G, H, next \ (done \cup todo), done \cup todo)
\* the pairs of nodes that represent each other; Bad if H does not represent G
Match(G, H) == MatchFrom(G, H, {<<G.r, H.r>>}, {})
Represents(G, H) == Match(G, H) # Bad

\* containers: one object <=> one container (empty vectors have no identity)
Identity(a) == Container(a) /\ ~((IsVec(a)) /\ Size(a) = 0)
SharingOk(G, H) ==
    LET M == Match(G, H)
        C == {p \in M : Identity(G.n[p[1]])}
        group(x) == IF x.k = "vec" THEN 1 ELSE IF x.k = "set" THEN 2 ELSE 3
        oid(p) == <<group(H.n[p[2]]), H.n[p[2]].id>>
    IN  /\ M # Bad
        /\ \A p, q \in C : (p[1] = q[1]) = (oid(p) = oid(q))
\* a vector is hashable if it reaches neither sets, maps nor cycles
HashableVec(G, i) == \A j \in Reach(G, i) : G.n[j].k \notin {"set", "fset", "map"} /\ ~InCycle(G, j)
HashabilityOk(G, H) ==
    LET M == Match(G, H) IN
    M # Bad /\ \A p \in M : IsVec(G.n[p[1]]) => (H.n[p[2]].h = 1) = HashableVec(G, p[1])
\* the storage of every vector (Match has checked it too; here also that items of other kinds keep theirs)
StorageOk(G, H) ==
    LET M == Match(G, H) IN
    M # Bad /\ \A p \in M : IsVec(G.n[p[1]]) => H.n[p[2]].st = Storage(G, G.n[p[1]])
=============================================================================
