---------------------------- MODULE FormatTrace -----------------------------
(* Files that were written or read, judged by Format.                            *)
EXTENDS Format, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>

\* --- what was written is the graph e.g
\* bytes that belong to nothing are zero
Body(P, R, k, i) ==      \* the heap bytes of an entry of a table, as <<first, length>>
    LET o == Off(P, k, i)
        n == Count(P, o)
    IN  CASE k = tS -> IF \E v \in R : v[1] = 29 /\ Index(v) = i THEN <<o, 4 + n + 1>> ELSE <<o, 4 + 4 * (n + 1)>>
          [] k = tV -> LET s == {ItemSize(v[1]) : v \in {u \in R : u[1] \in VectorTypes /\ Index(u) = i}} IN
                       <<o, 4 + n * (IF s = {} THEN 0 ELSE CHOOSE x \in s : TRUE)>>
          [] k = tB -> <<o, 4 + (n + 7) \div 8>>
          [] k = tE -> <<o, 24>>
          [] k = tM -> <<o, 32>>
Entries(P) == UNION {{<<k, i>> : i \in Range0(P.n[k])} : k \in 1..5}
NoOverlap(P, R) ==
    LET E == Entries(P)
        f == TLCEval([e \in E |-> Body(P, R, e[1], e[2])])
    IN  \A d, e \in E : d # e => f[d][1] + f[d][2] <= f[e][1] \/ f[e][1] + f[e][2] <= f[d][1]
ZeroSlack(P, R) ==
    LET used == UNION {LET x == Body(P, R, e[1], e[2]) IN x[1]..(x[1] + x[2] - 1) : e \in Entries(P)}
    IN  \A o \in Range0(P.len) : o \in used \/ P.b[At(P, o) + 1] = 0
ZeroParts(P, R) ==
    /\ \A v \in R : v[1] \in {17, 18} => U32At(P.b, At(P, Off(P, Table(v[1]), Index(v))) + 4) = <<0, 0>>
    /\ \A v \in R : v[1] = 11 /\ NBits(P, v) % 8 # 0 =>
          P.b[At(P, Off(P, tB, Index(v))) + 4 + (NBits(P, v) \div 8) + 1] \div 2^(NBits(P, v) % 8) = 0
    /\ \A v \in R : v[1] = 16 => \A k \in (NBits(P, v) + 5)..31 : (IF k < 16 THEN BitOf(v[3], k) ELSE BitOf(v[2], k - 16)) = 0
\* equal strings and bitvectors are stored once
Once(P, R) ==
    LET str == {v \in R : v[1] \in {10, 29}}  bit == {v \in R : v[1] = 11}
        same(x, y, cx, cy) == (cx = cy) = (x = y)
        cs == TLCEval([v \in str |-> Chars(P, v)])
        bs == TLCEval([v \in bit |-> Bits(P, v)])
    IN  /\ \A x, y \in str : same(x, y, cs[x], cs[y])
        /\ \A x, y \in bit : same(x, y, bs[x], bs[y])
\* every entry of the tables is used
AllUsed(P, R) == \A e \in Entries(P) : \E v \in R : v[1] \in VectorTypes \cup {10, 11, 17, 18, 29} /\ Table(v[1]) = e[1] /\ Index(v) = e[2]
Written(e) ==
    LET P == TLCEval(Parse(e.b))
        R == Walk(P)
        H == TLCEval(Decode(e.b))
    IN  /\ Verdict(e.b) = "accept"
        /\ SharingOk(e.g, H) /\ HashabilityOk(e.g, H) /\ StorageOk(e.g, H)
        /\ NoOverlap(P, R) /\ ZeroSlack(P, R) /\ ZeroParts(P, R) /\ Once(P, R) /\ AllUsed(P, R)

\* --- what was read is what the bytes e.b hold
\* e.res: the outcome of opening; e.acc: of getting at all values; e.h: the graph
Opened(e) ==
    LET v == Verdict(e.b) IN
    CASE v = "refuse" -> e.res = "exc"
      [] v = "accept" -> e.res = "ok" /\ e.acc = "ok" /\ SameGraph(TLCEval(Decode(e.b)), e.h)
      [] v = "open" -> TRUE
\* an image that was made from the graph e.g by another writer
Made(e) == /\ Storable(e.g) =>
                /\ Verdict(e.b) = "accept"
                /\ SharingOk([n |-> e.g.n, r |-> e.g.r, loose |-> TRUE], TLCEval(Decode(e.b)))
           /\ Opened(e)

EventOk(e) == CASE e.op = "written" -> Written(e)
                [] e.op = "open" -> Opened(e)
                [] e.op = "made" -> Made(e)
                [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ IF EventOk(Trace[l]) THEN l' = l + 1 ELSE FALSE
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
