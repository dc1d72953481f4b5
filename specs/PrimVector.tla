----------------------------- MODULE PrimVector -----------------------------
(* PointlessPrimVector: a growable vector of one machine type, which can be      *)
(* exported as a (writable) buffer, serialized, sliced and searched.            *)
(*                                                                              *)
(* The state is  [vecs, bufs, iters]:                                           *)
(*   vecs  : id -> [t |-> type, xs |-> items]                                    *)
(*   bufs  : id -> id of the exported vector (live buffers)                     *)
(*   iters : id -> [vec, pos, done]                                             *)
(* Items are integers (Words) or singles (Floats), per type.                     *)
(*                                                                              *)
(* Apply(S, e) is the only definition of what an operation does; it is used by   *)
(* the exploration (PrimVectorGen) and by the trace check (PrimVectorTrace).     *)
EXTENDS Words, Floats, TLC

Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f"}
TypeIds == <<"i8", "u8", "i16", "u16", "i32", "u32", "f", "i64", "u64">>
Signed(t) == t \in {"i8", "i16", "i32", "i64"}

Empty == [vecs |-> <<>>, bufs |-> <<>>, iters |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* --- arguments: [k |-> "i", w] an integer, [k |-> "f", d] a double, [k |-> "big"] an integer outside
\* of the 64-bit range, [k |-> "o"] some other object
ArgItem(t, a) ==   \* the item, or <<>> when the argument is refused
    IF t = "f" THEN (IF a.k = "f" THEN Narrow(a.d) ELSE <<>>)
    ELSE IF a.k = "i" /\ InType(a.w, t) THEN a.w ELSE <<>>
\* what a search looks for: refused ("no"), absent for sure ("none") or an item
NeedleIndex(t, a) ==
    IF t = "f" THEN (IF a.k = "f" THEN Narrow(a.d) ELSE IF a.k = "i" THEN WF32(a.w) ELSE <<>>)
    ELSE IF a.k = "i" THEN a.w ELSE <<>>
Same(t, x, y) == IF t = "f" THEN FEq(x, y) ELSE x = y
Less(t, x, y) == IF t = "f" THEN FCmp(x, y) = -1 ELSE WLT(x, y)
RECURSIVE Find(_, _, _, _)
Find(t, xs, x, i) == IF i > Len(xs) THEN 0 ELSE IF Same(t, xs[i], x) THEN i ELSE Find(t, xs, x, i + 1)

ItemBytes(t, x) == IF t = "f" THEN <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
                   ELSE IntBytes(x, TSize(t))
BytesItem(t, b) == IF t = "f" THEN <<b[3] + 256 * b[4], b[1] + 256 * b[2]>> ELSE BytesInt(b, Signed(t))
Raw(v) == LET n == TSize(v.t)
              bs == [i \in 1..Len(v.xs) |-> ItemBytes(v.t, v.xs[i])]
          IN  [k \in 1..(n * Len(v.xs)) |-> bs[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
FromRaw(t, b) == LET n == TSize(t) IN [i \in 1..(Len(b) \div n) |-> BytesItem(t, SubSeq(b, n * (i - 1) + 1, n * i))]
\* [uint32 type] [uint32 number of items] [items]
TypeId(t) == CHOOSE i \in 0..8 : TypeIds[i + 1] = t
Serialized(v) == IntBytes(W(TypeId(v.t)), 4) \o IntBytes(W(Len(v.xs)), 4) \o Raw(v)
\* the vector in a byte string, or <<>>
Deserialized(b) ==
    IF Len(b) < 8 THEN <<>>
    ELSE LET ti == BytesInt(SubSeq(b, 1, 4), FALSE)
             n  == BytesInt(SubSeq(b, 5, 8), FALSE)
         IN  IF ~WLE(ti, W(8)) THEN <<>>
             ELSE LET t == TypeIds[WVal(ti) + 1] IN
                  IF ~WSmall(n) \/ WVal(n) > 100000 THEN <<>>
                  ELSE IF Len(b) # 8 + WVal(n) * TSize(t) THEN <<>>
                  ELSE <<[t |-> t, xs |-> FromRaw(t, SubSeq(b, 9, Len(b)))]>>

\* Python's slice.indices() for step 1; a limit is <<>> (absent) or <<n>>
Clip(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
SliceOf(xs, lo, hi) ==
    LET n == Len(xs)
        a == IF lo = <<>> THEN 0 ELSE Clip(lo[1], n)
        b == IF hi = <<>> THEN n ELSE Clip(hi[1], n)
    IN  IF b <= a THEN <<>> ELSE SubSeq(xs, a + 1, b)

HasNan(t, xs) == t = "f" /\ \E i \in 1..Len(xs) : FNan(xs[i])
Least(t, xs) == CHOOSE i \in 1..Len(xs) : \A j \in 1..Len(xs) : ~Less(t, xs[j], xs[i])
Most(t, xs)  == CHOOSE i \in 1..Len(xs) : \A j \in 1..Len(xs) : ~Less(t, xs[i], xs[j])

\* all items accepted?  the items they become
RECURSIVE ArgItems(_, _, _, _)
ArgItems(t, as, i, acc) ==
    IF i > Len(as) THEN [ok |-> TRUE, xs |-> acc]
    ELSE LET x == ArgItem(t, as[i]) IN
         IF x = <<>> THEN [ok |-> FALSE, xs |-> <<>>] ELSE ArgItems(t, as, i + 1, Append(acc, x))

Exported(S, id) == \E b \in DOMAIN S.bufs : S.bufs[b] = id

---------------------------------------------------------------------------
(* Results: [S |-> state after, r |-> result].  A result is [k |-> "exc"], or    *)
(* [k |-> "ok", v |-> value]; v is <<>> for None.                               *)
None == <<>>
Ok(S, v) == [S |-> S, r |-> [k |-> "ok", v |-> v]]
Exc(S)   == [S |-> S, r |-> [k |-> "exc"]]
SetVec(S, id, t, xs) == [S EXCEPT !.vecs = Put(S.vecs, id, [t |-> t, xs |-> xs])]
SetXs(S, id, xs) == SetVec(S, id, S.vecs[id].t, xs)

DelAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Apply(S, e) ==
    LET has == "id" \in DOMAIN e
        v   == IF has /\ e.id \in DOMAIN S.vecs THEN S.vecs[e.id] ELSE [t |-> "i8", xs |-> <<>>]
        t   == v.t
        xs  == v.xs
        n   == Len(xs)
        ix  == IF "i" \in DOMAIN e THEN (IF e.i < 0 THEN e.i + n ELSE e.i) ELSE 0
        locked == has /\ Exported(S, e.id)
    IN
    CASE e.op = "new" ->
            IF e.t \notin Types THEN Exc(S)
            ELSE LET a == ArgItems(e.t, e.xs, 1, <<>>) IN IF a.ok THEN Ok(SetVec(S, e.id, e.t, a.xs), None) ELSE Exc(S)
      [] e.op = "load" ->
            LET d == Deserialized(e.b) IN
            IF d = <<>> THEN Exc(S) ELSE Ok(SetVec(S, e.id, d[1].t, d[1].xs), None)
      [] e.op = "drop" -> Ok([S EXCEPT !.vecs = Drop(S.vecs, e.id)], None)
      [] e.op = "append" ->
            LET x == ArgItem(t, e.x) IN
            IF locked \/ x = <<>> THEN Exc(S) ELSE Ok(SetXs(S, e.id, Append(xs, x)), None)
      [] e.op = "append_bulk" ->
            LET a == ArgItems(t, e.xs, 1, <<>>) IN
            IF locked \/ ~a.ok THEN Exc(S) ELSE Ok(SetXs(S, e.id, xs \o a.xs), None)
      [] e.op = "append_vec" ->       \* another prim-vector, or the vector itself
            LET w == S.vecs[e.src]
                conv(y) == IF w.t = t THEN y ELSE IF w.t = "f" \/ t = "f" THEN <<>> ELSE IF InType(y, t) THEN y ELSE <<>>
                ys == [i \in 1..Len(w.xs) |-> conv(w.xs[i])]
            IN  IF locked \/ \E i \in 1..Len(ys) : ys[i] = <<>> THEN Exc(S)
                ELSE Ok(SetXs(S, e.id, xs \o ys), None)
      [] e.op = "pop" ->
            IF locked \/ n = 0 THEN Exc(S) ELSE Ok(SetXs(S, e.id, SubSeq(xs, 1, n - 1)), xs[n])
      [] e.op = "pop_bulk" ->
            IF locked \/ e.n > n THEN Exc(S)
            ELSE Ok(SetXs(S, e.id, SubSeq(xs, 1, n - (IF e.n < 0 THEN 0 ELSE e.n))), None)
      [] e.op = "clear" -> IF locked THEN Exc(S) ELSE Ok(SetXs(S, e.id, <<>>), None)
      [] e.op = "index" ->
            LET x == NeedleIndex(t, e.x) k == IF x = <<>> THEN 0 ELSE Find(t, xs, x, 1) IN
            IF k = 0 THEN Exc(S) ELSE Ok(S, k - 1)
      [] e.op = "contains" ->
            LET x == NeedleIndex(t, e.x) k == IF x = <<>> THEN 0 ELSE Find(t, xs, x, 1) IN Ok(S, k # 0)
      [] e.op = "remove" ->
            LET x == NeedleIndex(t, e.x) k == IF x = <<>> THEN 0 ELSE Find(t, xs, x, 1) IN
            IF locked \/ k = 0 THEN Exc(S) ELSE Ok(SetXs(S, e.id, DelAt(xs, k)), None)
      [] e.op = "fast_remove" ->      \* the last item takes the place of the removed one
            LET x == NeedleIndex(t, e.x) k == IF x = <<>> THEN 0 ELSE Find(t, xs, x, 1) IN
            IF locked \/ k = 0 THEN Exc(S)
            ELSE Ok(SetXs(S, e.id, SubSeq([xs EXCEPT ![k] = xs[n]], 1, n - 1)), None)
      [] e.op = "get" -> IF ix < 0 \/ ix >= n THEN Exc(S) ELSE Ok(S, xs[ix + 1])
      [] e.op = "set" ->
            LET x == ArgItem(t, e.x) IN
            IF ix < 0 \/ ix >= n \/ x = <<>> THEN Exc(S) ELSE Ok(SetXs(S, e.id, [xs EXCEPT ![ix + 1] = x]), None)
      [] e.op = "del" -> Exc(S)
      [] e.op = "badkey" -> Exc(S)    \* indices which are not integers, assignments to slices
      [] e.op = "slice" ->
            IF e.step # 1 THEN Exc(S) ELSE Ok(SetVec(S, e.dst, t, SliceOf(xs, e.lo, e.hi)), None)
      [] e.op = "len" -> Ok(S, n)
      [] e.op = "typecode" -> Ok(S, t)
      [] e.op = "reversed" -> Ok(S, [i \in 1..n |-> xs[n + 1 - i]])
      [] e.op = "max" -> IF n = 0 THEN Exc(S) ELSE IF HasNan(t, xs) THEN Ok(S, None) ELSE Ok(S, xs[Most(t, xs)])
      [] e.op = "min" -> IF n = 0 THEN Exc(S) ELSE IF HasNan(t, xs) THEN Ok(S, None) ELSE Ok(S, xs[Least(t, xs)])
      [] e.op = "range" -> IF n = 0 THEN Exc(S) ELSE IF HasNan(t, xs) THEN Ok(S, None) ELSE Ok(S, <<xs[Least(t, xs)], xs[Most(t, xs)]>>)
      [] e.op = "sort" -> IF HasNan(t, xs) THEN Ok(S, None)    \* any permutation, see SortOK
            ELSE Ok(SetXs(S, e.id, SortSeq(xs, LAMBDA x, y : Less(t, x, y))), None)
      [] e.op = "serialize" -> Ok(S, Serialized(v))
      [] e.op = "remap" ->            \* FromRemap(source, indices)
            LET w == S.vecs[e.src] m == v.xs
                okix == (t # "f" \/ n = 0) /\ \A i \in 1..n : t # "f" /\ ~WNeg(m[i]) /\ WLT(m[i], W(Len(w.xs)))
            IN  IF ~okix THEN Exc(S)
                ELSE Ok(SetVec(S, e.dst, w.t, [i \in 1..n |-> w.xs[WVal(m[i]) + 1]]), None)
      [] e.op = "export" -> Ok([S EXCEPT !.bufs = Put(S.bufs, e.buf, e.id)], Len(Raw(v)))
      [] e.op = "release" -> Ok([S EXCEPT !.bufs = Drop(S.bufs, e.buf)], None)
      [] e.op = "bread" -> Ok(S, Raw(S.vecs[S.bufs[e.buf]]))
      [] e.op = "bwrite" ->           \* one byte through a buffer
            LET w == S.vecs[S.bufs[e.buf]]
                b == Raw(w)
            IN  IF e.at >= Len(b) THEN Exc(S)
                ELSE Ok(SetXs(S, S.bufs[e.buf], FromRaw(w.t, [b EXCEPT ![e.at + 1] = e.byte])), None)
      [] e.op = "iter" -> Ok([S EXCEPT !.iters = Put(S.iters, e.it, [vec |-> e.id, pos |-> 0, done |-> FALSE])], None)
      [] e.op = "next" ->             \* an iterator sees the items as they are when it gets to them
            LET it == S.iters[e.it] w == S.vecs[it.vec] IN
            IF ~it.done /\ it.pos < Len(w.xs)
            THEN Ok([S EXCEPT !.iters[e.it].pos = it.pos + 1], <<w.xs[it.pos + 1]>>)
            ELSE Ok([S EXCEPT !.iters[e.it].done = TRUE], <<>>)
      [] e.op = "reinit" ->           \* __init__ again: replaced by a new vector, unless exported
            IF locked THEN Exc(S)
            ELSE LET a == ArgItems(e.t, e.xs, 1, <<>>) IN
                 IF e.t \in Types /\ a.ok THEN Ok(SetVec(S, e.id, e.t, a.xs), None)
                 ELSE Exc(SetVec(S, e.id, "i8", <<>>))

\* what a sort may produce (equal items in any order; the order of NaNs is not specified)
Perm(xs, ys) == Len(xs) = Len(ys) /\ \A x \in {xs[i] : i \in 1..Len(xs)} \cup {ys[i] : i \in 1..Len(ys)} :
                   Cardinality({i \in 1..Len(xs) : xs[i] = x}) = Cardinality({i \in 1..Len(ys) : ys[i] = x})
SortOK(t, xs, ys) == Perm(xs, ys) /\ (HasNan(t, xs) \/ \A i \in 1..(Len(ys) - 1) : ~Less(t, ys[i + 1], ys[i]))

---------------------------------------------------------------------------
(* Invariants of the design *)
TypeOK(S) == \A id \in DOMAIN S.vecs : \A i \in 1..Len(S.vecs[id].xs) :
                IF S.vecs[id].t = "f" THEN Len(S.vecs[id].xs[i]) = 2 ELSE InType(S.vecs[id].xs[i], S.vecs[id].t)
SerialOK(S) == \A id \in DOMAIN S.vecs : Deserialized(Serialized(S.vecs[id])) = <<S.vecs[id]>>
SearchOK(S) == \A id \in DOMAIN S.vecs : \A i \in 1..Len(S.vecs[id].xs) :
                LET v == S.vecs[id] k == Find(v.t, v.xs, v.xs[i], 1) IN
                (v.t = "f" /\ FNan(v.xs[i])) \/ (k <= i /\ Same(v.t, v.xs[k], v.xs[i]))
ExtremesOK(S) == \A id \in DOMAIN S.vecs : LET v == S.vecs[id] IN
                v.xs # <<>> /\ ~HasNan(v.t, v.xs) => \A i \in 1..Len(v.xs) :
                    ~Less(v.t, v.xs[i], v.xs[Least(v.t, v.xs)]) /\ ~Less(v.t, v.xs[Most(v.t, v.xs)], v.xs[i])
=============================================================================
