----------------------------- MODULE RewriteGen -----------------------------
(* For all small graphs (StoreGen): what was written, read, and written again, from   *)
(* any place, alone or twice in a list or a map, is still what that place was.      *)
EXTENDS StoreGen, Rewrite
At(g, i) == [n |-> g.n, r |-> i]
Alone(i) == [n |-> <<[k |-> "read", f |-> 1, i |-> i, all |-> TRUE, lo |-> 0, hi |-> 0]>>, r |-> 1]
Cut(i, lo, hi) == [n |-> <<[k |-> "read", f |-> 1, i |-> i, all |-> FALSE, lo |-> lo, hi |-> hi]>>, r |-> 1]
Twice(i) == [n |-> <<[k |-> "list", ch |-> <<2, 2>>], [k |-> "read", f |-> 1, i |-> i, all |-> TRUE, lo |-> 0, hi |-> 0]>>, r |-> 1]
Mapped(i) == [n |-> <<[k |-> "map", ks |-> <<2>>, vs |-> <<3>>], [k |-> "none"], [k |-> "read", f |-> 1, i |-> i, all |-> TRUE, lo |-> 0, hi |-> 0]>>, r |-> 1]
\* only what is reached from the root, as a reader sees it
RewriteInv ==
    LET H == Write(G) IN
    /\ SharingOk(Again(H), Write(Again(H))) /\ SharingOk(G, Write(Again(H)))
    /\ \A i \in {j \in Reach(G, G.r) : G.n[j].k # "int"} :
        LET A == Compose(Alone(i), <<H>>) T == Compose(Twice(i), <<H>>) M == Compose(Mapped(i), <<H>>) IN
        /\ Storable(A) /\ Represents(At(G, i), Write(A)) /\ SharingOk(At(G, i), Write(A))
        /\ Storable(T) /\ SharedStays(T, Write(T))
        /\ LET h == Write(T) IN Represents(At(G, i), At(h, h.n[h.r].ch[1]))
        /\ LET h == Write(M) IN Storable(M) /\ Represents(At(G, i), At(h, h.n[h.r].vs[1]))
        /\ IsList(G.n[i]) => \A lo, hi \in 0..Size(G.n[i]) : lo <= hi =>
            LET C == Compose(Cut(i, lo, hi), <<H>>)
                g == [n |-> Append(G.n, [G.n[i] EXCEPT !.ch = SubSeq(@, lo + 1, hi)]), r |-> Len(G.n) + 1]
            IN  Storable(C) /\ Represents(g, Write(C))
InvBoth == RewriteInv /\ Show
=============================================================================
