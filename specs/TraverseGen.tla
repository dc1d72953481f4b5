----------------------------- MODULE TraverseGen -----------------------------
(* All walks through small graphs of lists, whatever the callback answers, up to a      *)
(* number of visits.                                                                  *)
EXTENDS Traverse, Json
CONSTANTS N, MaxKids, MaxVisits, Emit
VARIABLES G, todo, h
vars == <<G, todo, h>>
Kids1 == UNION {[1..n -> 1..N] : n \in 0..MaxKids}
Init == G \in [1..N -> Kids1] /\ todo = <<<<1, 0>>>> /\ h = <<>>
Act(a) == /\ todo' = Visit(todo, G[todo[1][1]], a)
          /\ h' = Append(h, [v |-> todo[1][1], d |-> todo[1][2], a |-> a])
          /\ UNCHANGED G
\* a walk that does not end by itself is ended
Next == IF Finished(todo) THEN UNCHANGED vars
        ELSE IF Len(h) = MaxVisits - 1 THEN Act(Stop)
        ELSE \E a \in {In, Past, Stop} : Act(a)
Spec == Init /\ [][Next]_vars
\* where the walk is: each visited value is the root, or an item of the last value above it
Above(i) == LET s == {j \in 1..(i - 1) : h[j].d = h[i].d - 1} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A x \in s : x <= j
Paths == \A i \in 1..Len(h) : IF i = 1 THEN h[i].d = 0 /\ h[i].v = 1
                              ELSE LET p == Above(i) IN
                                   /\ p # 0 /\ h[p].a = In
                                   /\ \E x \in 1..Len(G[h[p].v]) :
                                         \* it is the x-th, after x-1 others below the same
                                         /\ G[h[p].v][x] = h[i].v
                                         /\ x = 1 + Cardinality({j \in (p + 1)..(i - 1) : h[j].d = h[i].d})
\* if nothing is passed over and it is not ended, all is visited
RECURSIVE Reaches(_)
Reaches(S) == LET T == S \cup UNION {ToSet(G[i]) : i \in S} IN IF T = S THEN S ELSE Reaches(T)
Complete == (todo = <<>> /\ \A i \in 1..Len(h) : h[i].a = In \/ \E j \in 1..(i - 1) : h[j].v = h[i].v /\ h[j].a = In)
            => {h[i].v : i \in 1..Len(h)} = Reaches({1})
Out == Finished(todo) /\ Emit => PrintT(<<"B", ToJson([g |-> G, h |-> h])>>)
Inv == Paths /\ Complete /\ Out
=============================================================================
