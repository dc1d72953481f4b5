----------------------------- MODULE BuffersGen -----------------------------
(* All histories of exporting, releasing and changing one or two small vectors.   *)
EXTENDS Buffers, Json
CONSTANTS Emit, Depth, Ids, Bufs
VARIABLES B, hist
Do(e) == LET a == BApply(B, e) IN /\ B' = a.S /\ hist' = Append(hist, e)
It(n) == [k |-> "i", w |-> W(n)]
Bad == [k |-> "o", o |-> "str"]
New(id) == [op |-> "new", id |-> id, t |-> "u8", xs |-> <<It(1), It(2)>>, how |-> 0]
Init == B = [BEmpty EXCEPT !.P = Apply(Empty, New("a")).S] /\ hist = <<New("a")>>
Live == DOMAIN B.P.vecs
Free(names, used) == LET f == {n \in names : n \notin used} IN IF f = {} THEN {} ELSE {CHOOSE n \in f : TRUE}
Y(n) == [s |-> "y", x |-> It(n)]
X == [s |-> "x"]
R == [s |-> "r"]
Scripts == {<<>>, <<Y(7)>>, <<Y(7), X, R, Y(8)>>, <<Y(7), X, Y(8)>>, <<X, X, R, Y(8)>>, <<Y(7), X>>, <<Y(7), [s |-> "!"]>>, <<X, [s |-> "!"]>>, <<Y(7), [s |-> "y", x |-> Bad]>>}
Next ==
    /\ Len(hist) < Depth
    /\ \/ \E id \in Live :
          \/ \E b \in Free(Bufs, DOMAIN B.win) : \E ro \in BOOLEAN : Do([op |-> "export", id |-> id, buf |-> b, ro |-> ro])
          \/ Len(B.P.vecs[id].xs) < 4 /\ (Do([op |-> "append", id |-> id, x |-> It(5)]) \/ Do([op |-> "append_bulk", id |-> id, xs |-> <<It(3), It(1)>>, how |-> 0]))
          \/ Do([op |-> "append_bulk", id |-> id, xs |-> <<It(3), Bad>>, how |-> 0])
          \/ Do([op |-> "append", id |-> id, x |-> Bad])
          \/ \E o \in {"pop", "clear", "sort", "serialize", "max"} : Do([op |-> o, id |-> id])
          \/ Do([op |-> "pop_bulk", id |-> id, n |-> 1])
          \/ \E o \in {"remove", "fast_remove"} : \E n \in {1, 9} : Do([op |-> o, id |-> id, x |-> It(n)])
          \/ Do([op |-> "set", id |-> id, i |-> 0, x |-> It(6)])
          \/ Do([op |-> "reinit", id |-> id, t |-> "u8", xs |-> <<It(4)>>])
          \/ Do([op |-> "readinto", id |-> id, b |-> <<9, 8>>])
          \/ Do([op |-> "temp", id |-> id])
          \/ \E src \in Live : Len(B.P.vecs[id].xs) + Len(B.P.vecs[src].xs) < 5 /\ (Do([op |-> "bulk_mem", id |-> id, src |-> src]) \/ Do([op |-> "append_vec", id |-> id, src |-> src]))
          \/ \E sc \in Scripts : \E i \in BOOLEAN : Len(B.P.vecs[id].xs) < 3 /\ Do([op |-> "gen", id |-> id, t |-> "u8", init |-> i, script |-> sc])
          \/ \E d \in Free(Ids, Live) : Do([op |-> "slice", id |-> id, dst |-> d, lo |-> <<1>>, hi |-> <<>>, step |-> 1, how |-> 0])
       \/ \E b \in DOMAIN B.win :
          \/ Do([op |-> "release", buf |-> b])
          \/ \E at \in {0, 3} : Do([op |-> "bwrite", buf |-> b, at |-> at, byte |-> 77])
          \/ \E d \in Free(Bufs, DOMAIN B.win) : Do([op |-> "sub", buf |-> b, dst |-> d, lo |-> 1, hi |-> 2])
Spec == Init /\ [][Next]_<<B, hist>>
View0 == B
Show == Emit => PrintT(<<"B", ToJson([h |-> hist', same |-> B' = B])>>)
Inv == Inside(B) /\ TypeOK(B.P)
\* while a buffer is alive its vector keeps its size
Steady == [][\A b \in DOMAIN B.win : b \in DOMAIN B'.win => Len(Raw(B'.P.vecs[B.win[b].vec])) = Len(Raw(B.P.vecs[B.win[b].vec]))]_<<B, hist>>
=============================================================================
