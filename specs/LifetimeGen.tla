---------------------------- MODULE LifetimeGen -----------------------------
(* All histories of opening two kinds of contents from a file and a buffer, taking *)
(* values, slices, iterators and buffers, replacing the file, and dropping.        *)
EXTENDS Lifetime, Json
CONSTANTS Emit, Depth, Objs, Views, Iters, Mems, Bufs
VARIABLES S, hist
B3 == [k |-> "bytes", xs |-> <<1, 2, 3>>]
T1 == [k |-> "seq", xs |-> <<B3, [k |-> "map", es |-> <<<<Leaf("i1"), [k |-> "bits", b |-> <<1, 0, 1>>]>>>>], Leaf("sx")>>]
T2 == [k |-> "set", xs |-> <<Leaf("i5"), Leaf("sy")>>]
T3 == B3
Trees == {T1, T2}
Writes(h) == Cardinality({i \in 1..Len(h) : h[i].op = "write"})
Do(e) == LET a == Apply(S, e) IN /\ S' = a.S /\ hist' = Append(hist, e)
W1 == [op |-> "write", src |-> "p", tree |-> T1, ver |-> 1]
Init == S = Apply(Empty, W1).S /\ hist = <<W1>>
Live == {v \in DOMAIN S.views : S.views[v].held}
LiveO == {o \in DOMAIN S.objs : S.objs[o].held}
\* names are interchangeable: the first free one
Free(names, used) == LET f == {n \in names : n \notin used} IN IF f = {} THEN {} ELSE {CHOOSE n \in f : TRUE}
Srcs == {"p"} \cup Bufs
Next ==
    /\ Len(hist) < Depth
    /\ \/ \E t \in Trees : Writes(hist) < 2 /\ Do([op |-> "write", src |-> "p", tree |-> t, ver |-> Writes(hist) + 1])
       \/ Do([op |-> "unlink", src |-> "p"])
       \/ \E b \in Bufs : \/ \E t \in {T1, T3} : b \notin DOMAIN S.bufs /\ Do([op |-> "fill", src |-> b, tree |-> t])
                          \/ b \in DOMAIN S.bufs /\ (Do([op |-> "spoil", src |-> b]) \/ Do([op |-> "dropbuf", src |-> b]))
       \/ \E o \in Free(Objs, DOMAIN S.objs) : \E s \in Srcs : Do([op |-> "open", dst |-> o, src |-> s])
       \/ \E o \in LiveO : \E s \in Srcs : Do([op |-> "reopen", id |-> o, src |-> s])
       \/ \E o \in LiveO : \E d \in Free(Views, DOMAIN S.views) : Do([op |-> "root", id |-> o, dst |-> d])
       \/ \E v \in Live : \E d \in Free(Views, DOMAIN S.views) :
             \/ \E k \in 0..1 : Do([op |-> "sub", id |-> v, at |-> k, dst |-> d])
             \/ Do([op |-> "slice", id |-> v, lo |-> 0, hi |-> 1, dst |-> d])
             \/ Do([op |-> "slice", id |-> v, lo |-> 1, hi |-> 1, dst |-> d])
       \/ \E v \in Live : \E d \in Free(Iters, DOMAIN S.iters) : \E h \in {"iter", "rev", "values", "items"} : Do([op |-> "iter", id |-> v, how |-> h, dst |-> d])
       \/ \E i \in DOMAIN S.iters : \E d \in Free(Views, DOMAIN S.views) :
             LET n == Len(Items(S.views[S.iters[i].view].tree, S.iters[i].how)) IN
             \E p \in (IF Ordered(S.views[S.iters[i].view].tree) \/ Cardinality(S.iters[i].done) = n THEN {0} ELSE {CHOOSE p \in (1..n) \ S.iters[i].done : TRUE}) :
                Do([op |-> "next", id |-> i, pos |-> p, dst |-> d])
       \/ \E i \in DOMAIN S.iters : Do([op |-> "rest", id |-> i])
       \/ \E v \in Live : \E d \in Free(Mems, DOMAIN S.mems) : Do([op |-> "mem", id |-> v, dst |-> d])
       \/ \E m \in DOMAIN S.mems : \E d \in Free(Mems, DOMAIN S.mems) : Do([op |-> "submem", id |-> m, lo |-> 1, hi |-> 2, dst |-> d])
       \/ \E x \in LiveO \cup Live \cup DOMAIN S.iters \cup DOMAIN S.mems : Do([op |-> "drop", id |-> x])
       \/ \E v \in Live : Do([op |-> "use", id |-> v]) \/ (S.views[v].tree.k = "bits" /\ Do([op |-> "detach", id |-> v]))
Spec == Init /\ [][Next]_<<S, hist>>
View0 == S
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', same |-> S' = S])>>)
\* nobody outlives what it points into; a value says what it said when it was taken
Inv == OwnersAlive(S)
Frozen == [][\A v \in DOMAIN S.views : v \in DOMAIN S'.views => S'.views[v].tree = S.views[v].tree /\ S'.views[v].obj \in {S.views[v].obj, ""}]_<<S, hist>>
\* an object with live values is not changed by anything
Kept == [][\A o \in DOMAIN S.objs : LiveViews(S, o) # {} /\ o \in DOMAIN S'.objs => [S'.objs[o] EXCEPT !.held = S.objs[o].held] = S.objs[o]]_<<S, hist>>
Gone == (\A o \in DOMAIN S.objs : ~S.objs[o].held) /\ (\A v \in DOMAIN S.views : ~S.views[v].held) /\ S.iters = <<>> /\ S.mems = <<>> => OpenFiles(S) = {} /\ S.objs = <<>>
=============================================================================
