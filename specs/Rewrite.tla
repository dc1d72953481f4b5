------------------------------ MODULE Rewrite ------------------------------
(* Writing again what was read.  A graph that is written may have nodes            *)
(*   [k |-> "read", f, i, lo, hi, all]   what node i of the graph read from file f  *)
(*      is (all), or its items lo+1..hi                                          *)
(* Compose gives the graph of ordinary nodes (Store) that means the same.          *)
EXTENDS Store

\* a node that was read, as a node to write; d: what is added to the indices
Plain(b, d) ==
    CASE b.k = "vec" -> IF b.st = "e" THEN [k |-> "list", ch |-> <<>>]
                        ELSE IF b.st = "v" THEN [k |-> "list", ch |-> [j \in 1..Len(b.ch) |-> b.ch[j] + d]]
                        ELSE [k |-> "prim", t |-> b.st, xs |-> b.xs]
      [] b.k = "set" -> [k |-> "set", ch |-> [j \in 1..Len(b.ch) |-> b.ch[j] + d]]
      [] b.k = "map" -> [k |-> "map", ks |-> [j \in 1..Len(b.ks) |-> b.ks[j] + d], vs |-> [j \in 1..Len(b.vs) |-> b.vs[j] + d]]
      [] b.k = "flt" -> [k |-> "flt", d |-> F64(b.f)]
      [] OTHER -> b
\* a file as a graph to write
Again(H) == [n |-> [i \in 1..Len(H.n) |-> Plain(H.n[i], 0)], r |-> H.r]

PlainSlice(b, d, lo, hi) ==
    IF b.st = "e" \/ hi <= lo THEN [k |-> "list", ch |-> <<>>]
    ELSE IF b.st = "v" THEN [k |-> "list", ch |-> [j \in 1..(hi - lo) |-> b.ch[lo + j] + d]]
    ELSE [k |-> "prim", t |-> b.st, xs |-> SubSeq(b.xs, lo + 1, hi)]

\* each read node brings a copy of its file, behind the nodes of G
RECURSIVE Place(_, _, _, _, _)
Place(G, Hs, i, at, acc) == IF i > Len(G.n) THEN acc
    ELSE IF G.n[i].k = "read" THEN Place(G, Hs, i + 1, at + Len(Hs[G.n[i].f].n), Append(acc, at))
    ELSE Place(G, Hs, i + 1, at, Append(acc, 0))
RECURSIVE Copies(_, _, _, _, _)
Copies(G, Hs, at, i, acc) == IF i > Len(G.n) THEN acc
    ELSE IF G.n[i].k = "read"
    THEN LET H == Hs[G.n[i].f] IN Copies(G, Hs, at, i + 1, acc \o [j \in 1..Len(H.n) |-> Plain(H.n[j], at[i])])
    ELSE Copies(G, Hs, at, i + 1, acc)
Compose(G, Hs) ==
    LET at == Place(G, Hs, 1, Len(G.n), <<>>)
        Ref(x) == IF G.n[x].k = "read" /\ G.n[x].all THEN at[x] + G.n[x].i ELSE x
        Refs(xs) == [j \in 1..Len(xs) |-> Ref(xs[j])]
        own(x) == LET a == G.n[x] IN
            CASE a.k \in {"list", "tup", "set", "fset"} -> [k |-> a.k, ch |-> Refs(a.ch)]
              [] a.k = "map" -> [k |-> "map", ks |-> Refs(a.ks), vs |-> Refs(a.vs)]
              [] a.k = "read" -> IF a.all THEN [k |-> "none"] ELSE PlainSlice(Hs[a.f].n[a.i], at[x], a.lo, a.hi)
              [] OTHER -> a
    IN  [n |-> [x \in 1..Len(G.n) |-> own(x)] \o Copies(G, Hs, at, 1, <<>>), r |-> Ref(G.r)]

\* one object that is written is one container, in every place (the converse is asked of whole files only)
SharedStays(G, H) ==
    LET M == Match(G, H)
        oid(p) == H.n[p[2]].id
    IN  M # Bad /\ \A p, q \in {m \in M : Identity(G.n[m[1]])} : p[1] = q[1] => oid(p) = oid(q)
=============================================================================
