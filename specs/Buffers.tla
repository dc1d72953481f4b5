------------------------------- MODULE Buffers ------------------------------
(* Buffers exported by prim-vectors: windows [vec, off, len] onto the bytes of a   *)
(* vector (PrimVector), taken directly or from another buffer, for reading or also *)
(* for writing.  While there is one, nothing resizes the vector; what is changed   *)
(* in place is seen through all of them.                                         *)
(* The state is [P |-> state of PrimVector, win |-> buffer -> window].              *)
EXTENDS PrimVector

BEmpty == [P |-> Empty, win |-> <<>>]
\* P.bufs says which vectors are exported
Sync(B, win) == [B EXCEPT !.win = win, !.P.bufs = [b \in DOMAIN win |-> win[b].vec]]
BOk(B, v) == [S |-> B, r |-> [k |-> "ok", v |-> v]]
BExc(B) == [S |-> B, r |-> [k |-> "exc"]]
Lift(B, a) == [S |-> [B EXCEPT !.P = a.S], r |-> a.r]
Through(B, w) == SubSeq(Raw(B.P.vecs[w.vec]), w.off + 1, w.off + w.len)
\* bytes put at an offset of a vector
Poke(B, id, at, bs) ==
    LET v == B.P.vecs[id]
        raw == Raw(v)
    IN  [B EXCEPT !.P = SetXs(B.P, id, FromRaw(v.t, [i \in 1..Len(raw) |-> IF i > at /\ i <= at + Len(bs) THEN bs[i - at] ELSE raw[i]]))]
Min2(a, b) == IF a < b THEN a ELSE b

\* Appending what a script gives one by one; the script may take (x) and release (r) buffers of the vector,
\* or raise (!), in between.  Result: [ok, xs: the items appended, held: buffers it still has, seen: the bytes
\* the vector had when each buffer was taken]
RECURSIVE Script(_, _, _, _, _, _)
Script(v, sc, i, xs, held, seen) ==
    IF i > Len(sc) THEN [ok |-> TRUE, xs |-> xs, held |-> held, seen |-> seen]
    ELSE LET s == sc[i] IN
         CASE s.s = "y" -> LET x == ArgItem(v.t, s.x) IN
                           IF held > 0 \/ x = <<>> THEN [ok |-> FALSE, xs |-> xs, held |-> held, seen |-> seen]
                           ELSE Script(v, sc, i + 1, Append(xs, x), held, seen)
           [] s.s = "x" -> Script(v, sc, i + 1, xs, held + 1, Append(seen, Raw([v EXCEPT !.xs = @ \o xs])))
           [] s.s = "r" -> Script(v, sc, i + 1, xs, IF held > 0 THEN held - 1 ELSE 0, seen)
           [] OTHER     -> [ok |-> FALSE, xs |-> xs, held |-> held, seen |-> seen]

RECURSIVE BApply(_, _)
BApply(B, e) ==
    LET P == B.P
        locked == "id" \in DOMAIN e /\ Exported(P, e.id)
    IN
    CASE e.op = "export"  -> BOk(Sync(B, Put(B.win, e.buf, [vec |-> e.id, off |-> 0, len |-> Len(Raw(P.vecs[e.id])), ro |-> e.ro])), None)
      [] e.op = "sub"     -> LET w == B.win[e.buf]
                                 a == Min2(e.lo, w.len)
                                 b == IF e.hi < a THEN a ELSE Min2(e.hi, w.len)
                             IN  BOk(Sync(B, Put(B.win, e.dst, [w EXCEPT !.off = @ + a, !.len = b - a])), None)
      [] e.op = "release" -> BOk(Sync(B, Drop(B.win, e.buf)), None)
      [] e.op = "bwrite"  -> LET w == B.win[e.buf] IN
                             IF w.ro \/ e.at >= w.len THEN BExc(B) ELSE BOk(Poke(B, w.vec, w.off + e.at, <<e.byte>>), None)
      \* a use of the buffer that ends with the operation
      [] e.op = "temp"    -> BOk(B, None)
      [] e.op = "readinto" -> LET n == Min2(Len(e.b), Len(Raw(P.vecs[e.id]))) IN BOk(Poke(B, e.id, 0, SubSeq(e.b, 1, n)), n)
      \* the items of a buffer (bytes); a buffer of itself is an export
      [] e.op = "bulk_mem" -> LET ys == [i \in 1..Len(Raw(P.vecs[e.src])) |-> [k |-> "i", w |-> W(Raw(P.vecs[e.src])[i])]] IN
                             IF e.src = e.id THEN BExc(B) ELSE Lift(B, Apply(P, [op |-> "append_bulk", id |-> e.id, xs |-> ys]))
      [] e.op = "gen"     -> IF locked THEN BExc(B)
                             ELSE LET v == IF e.init THEN [t |-> e.t, xs |-> <<>>] ELSE P.vecs[e.id]
                                      r == Script(v, e.script, 1, <<>>, 0, <<>>)
                                  IN  IF r.ok THEN BOk([B EXCEPT !.P = SetVec(P, e.id, v.t, v.xs \o r.xs)], None)
                                      \* what is left of a vector whose initialization fails is not specified (see GenOK)
                                      ELSE BExc(B)
      \* a number which does something to the vector when it is asked for its value
      [] e.op = "sly"     -> BApply(BApply(B, e.do).S, e.then)
      [] OTHER -> Lift(B, Apply(P, e))

\* what the script saw of the buffers it took, and what the vector may be afterwards
GenOK(B, e) ==
    LET v == IF e.init THEN [t |-> e.t, xs |-> <<>>] ELSE B.P.vecs[e.id]
        r == Script(v, e.script, 1, <<>>, 0, <<>>)
    IN  IF Exported(B.P, e.id) THEN e.saw = <<>>
        ELSE /\ Len(e.saw) = Len(r.seen)
             /\ \A i \in 1..Len(r.seen) : e.saw[i].then = r.seen[i] /\ e.saw[i].later = r.seen[i] /\ e.saw[i].moved = 0

\* a buffer never sticks out of its vector
Inside(B) == \A b \in DOMAIN B.win : LET w == B.win[b] IN w.vec \in DOMAIN B.P.vecs /\ w.off + w.len <= Len(Raw(B.P.vecs[w.vec]))
=============================================================================
