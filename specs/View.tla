-------------------------------- MODULE View --------------------------------
(* Vectors read from files, and slices of them: immutable sequences.             *)
(* The state is [views, iters]:                                                  *)
(*   views : id -> [t |-> storage, xs |-> items, of |-> the vector it is a part of] *)
(*   iters : id -> [xs |-> items, pos, done]                                     *)
(* t is "v" (any values), "e" (the empty vector), or the type of all items; items *)
(* are trees of Values.  Nothing but opening and slicing makes a view, and        *)
(* nothing changes one.                                                          *)
EXTENDS Values

Empty == [views |-> <<>>, iters |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Ok(S, v) == [S |-> S, r |-> [k |-> "ok", v |-> v]]
Exc(S) == [S |-> S, r |-> [k |-> "exc"]]
Unspec(S) == [S |-> S, r |-> [k |-> "any"]]         \* not specified
None == <<>>

PTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f"}
Item(t, x) == IF t = "f" THEN x.k = "flt" ELSE x.k = "int" /\ InType(x.w, t)
\* the types that a sequence of items may be stored as, when it is not given
Types(xs) == IF xs = <<>> THEN {"e"} ELSE {"v"} \cup {t \in PTypes : \A i \in 1..Len(xs) : Item(t, xs[i])}
ItemBytes(t, x) == IF t = "f" THEN <<x.f[2] % 256, x.f[2] \div 256, x.f[1] % 256, x.f[1] \div 256>> ELSE IntBytes(x.w, TSize(t))
Raw(t, xs) == IF xs = <<>> THEN <<>> ELSE
    LET n == TSize(t)
        bs == [i \in 1..Len(xs) |-> ItemBytes(t, xs[i])]
    IN  [k \in 1..(n * Len(xs)) |-> bs[((k - 1) \div n) + 1][((k - 1) % n) + 1]]

Clip(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
SliceOf(xs, lo, hi) ==
    LET n == Len(xs)
        a == IF lo = <<>> THEN 0 ELSE Clip(lo[1], n)
        b == IF hi = <<>> THEN n ELSE Clip(hi[1], n)
    IN  IF b <= a THEN <<>> ELSE SubSeq(xs, a + 1, b)
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]

\* comparison of sequences; 3 if it comes to items of kinds that have no order
RelOf(op, c) ==
    IF c = 3 THEN (IF op = "eq" THEN "F" ELSE IF op = "ne" THEN "T" ELSE "X")
    ELSE IF c = 2 THEN (IF op = "ne" THEN "T" ELSE "F")
    ELSE IF CASE op = "lt" -> c < 0 [] op = "le" -> c <= 0 [] op = "eq" -> c = 0 [] op = "ne" -> c # 0 [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0
         THEN "T" ELSE "F"
Lt(a, b) == NumCmp(a, b) = -1
Nan(x) == x.k = "flt" /\ FNan(x.f)
\* extremes: any of equal ones; with NaNs any item
IsMin(xs, x) == \E i \in 1..Len(xs) : xs[i] = x /\ ((\E j \in 1..Len(xs) : Nan(xs[j])) \/ \A j \in 1..Len(xs) : ~Lt(xs[j], x))
IsMax(xs, x) == \E i \in 1..Len(xs) : xs[i] = x /\ ((\E j \in 1..Len(xs) : Nan(xs[j])) \/ \A j \in 1..Len(xs) : ~Lt(x, xs[j]))
Sorted(xs) == \A i \in 1..(Len(xs) - 1) : WLE(xs[i].w, xs[i + 1].w)
\* where it would go
Left(xs, w) == Cardinality({i \in 1..Len(xs) : WLT(xs[i].w, w)})

Apply(S, e) ==
    LET has == "id" \in DOMAIN e
        v  == IF has /\ e.id \in DOMAIN S.views THEN S.views[e.id] ELSE [t |-> "e", xs |-> <<>>, of |-> "?"]
        xs == v.xs
        n  == Len(xs)
        ix == IF "i" \in DOMAIN e THEN (IF e.i < 0 THEN e.i + n ELSE e.i) ELSE 0
        prim == v.t \in PTypes
    IN
    CASE e.op = "open" -> Ok([S EXCEPT !.views = Put(@, e.id, [t |-> e.t, xs |-> e.xs, of |-> e.id])], None)
      [] e.op = "slice" -> IF e.step # 1 THEN Exc(S)
            ELSE Ok([S EXCEPT !.views = Put(@, e.dst, [t |-> v.t, xs |-> SliceOf(xs, e.lo, e.hi), of |-> v.of])], None)
      [] e.op = "drop" -> Ok([S EXCEPT !.views = Drop(@, e.id)], None)
      [] e.op = "len" -> Ok(S, n)
      [] e.op = "get" -> IF ix < 0 \/ ix >= n THEN Exc(S) ELSE Ok(S, xs[ix + 1])
      [] e.op = "list" -> Ok(S, xs)
      [] e.op = "reversed" -> Ok(S, Rev(xs))
      [] e.op \in {"set", "del", "badkey", "hash", "bufwrite", "add"} -> Exc(S)
      [] e.op = "contains" ->          \* x is <<>> for an object that can not be stored
            IF e.x = <<>> THEN IF n = 0 THEN Ok(S, FALSE) ELSE Exc(S)
            ELSE Ok(S, \E i \in 1..n : Eq(xs[i], e.x[1]))
      [] e.op = "rel" ->
            LET ys == S.views[e.src].xs
                c == RelOf(e.rel, SeqCmp(xs, ys, 1))
                \* equality looks at the lengths first
                d == IF e.rel \in {"eq", "ne"} /\ Len(xs) # Len(ys) THEN RelOf(e.rel, 1) ELSE c
            IN  IF ~Deep([k |-> "seq", xs |-> xs]) \/ ~Deep([k |-> "seq", xs |-> ys]) THEN Unspec(S)
                ELSE IF d = "X" THEN Exc(S) ELSE Ok(S, d = "T")
      [] e.op = "foreign" -> Ok(S, e.rel = "ne")
      [] e.op = "typecode" -> IF prim THEN Ok(S, v.t) ELSE Exc(S)
      [] e.op \in {"min", "max", "range"} -> IF ~prim \/ n = 0 THEN Exc(S) ELSE Ok(S, None)     \* see ExtremeOK
      [] e.op = "bisect" -> IF v.t # "u64" \/ e.x = <<>> \/ WNeg(e.x) THEN Exc(S) ELSE Ok(S, Left(xs, e.x))
      [] e.op = "buffer" -> IF prim \/ v.t = "e" THEN Ok(S, Raw(v.t, xs)) ELSE Exc(S)
      [] e.op = "iter" -> Ok([S EXCEPT !.iters = Put(@, e.it, [xs |-> IF e.rev THEN Rev(xs) ELSE xs, pos |-> 0, done |-> FALSE])], None)
      [] e.op = "next" ->
            LET it == S.iters[e.it] IN
            IF ~it.done /\ it.pos < Len(it.xs) THEN Ok([S EXCEPT !.iters[e.it].pos = @ + 1], <<it.xs[it.pos + 1]>>)
            ELSE Ok([S EXCEPT !.iters[e.it].done = TRUE], <<>>)

ExtremeOK(S, e) ==
    LET xs == S.views[e.id].xs IN
    CASE e.op = "min" -> IsMin(xs, e.res.v)
      [] e.op = "max" -> IsMax(xs, e.res.v)
      [] e.op = "range" -> IsMin(xs, e.res.v[1]) /\ IsMax(xs, e.res.v[2])
\* parts of one vector have one identity
IdentityOK(S, ids) == \A x, y \in DOMAIN S.views : S.views[x].of = S.views[y].of => ids[x] = ids[y]

---------------------------------------------------------------------------
(* laws *)
SliceLaws(xs) == LET n == Len(xs) L == {<<>>} \cup {<<i>> : i \in (-n - 1)..(n + 1)} IN
    \A lo, hi \in L : LET s == SliceOf(xs, lo, hi) IN
        /\ Len(s) <= n
        /\ SliceOf(s, <<>>, <<>>) = s
        /\ \A k \in 1..Len(s) : \E a \in 0..(n - Len(s)) : \A j \in 1..Len(s) : s[j] = xs[a + j]
        /\ (lo # <<>> /\ hi = lo) => s = <<>>
        /\ hi # <<>> => SliceOf(xs, <<>>, hi) \o SliceOf(xs, hi, <<>>) = xs
=============================================================================
