------------------------------- MODULE Large -------------------------------
(* Long things.  A sequence of many items is described by a few segments: item j  *)
(* of a segment is  e + ((a*j + b) \div d) % m.  What can be done to long vectors, *)
(* bitvectors, strings, sets and maps, and what is to be seen of them afterwards, *)
(* is computed from the segments; nothing here depends on how long they are.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(x, y) == IF x < y THEN x ELSE y
Item(s, j) == s.e + (((s.a * j + s.b) \div s.d) % s.m)
Const(n, v) == [n |-> n, a |-> 0, b |-> 0, d |-> 1, m |-> 1, e |-> v]
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE Head(q).n + Size(Tail(q))
RECURSIVE At(_, _)
At(q, i) == IF i < Head(q).n THEN Item(Head(q), i) ELSE At(Tail(q), i - Head(q).n)
\* items lo .. hi-1
Part(s, lo, hi) == [s EXCEPT !.n = hi - lo, !.b = @ + s.a * lo]
RECURSIVE Slice(_, _, _)
Slice(q, lo, hi) ==
    IF q = <<>> \/ lo >= hi THEN <<>>
    ELSE LET s == Head(q)  n == s.n IN
         (IF lo < n THEN <<Part(s, lo, Min2(hi, n))>> ELSE <<>>) \o Slice(Tail(q), IF lo < n THEN 0 ELSE lo - n, hi - n)
Put(q, i, v) == Slice(q, 0, i) \o <<Const(1, v)>> \o Slice(q, i + 1, Size(q))
\* of bits: how many items from the front, and from the back, are v
RECURSIVE Run(_, _)
Run(q, v) == IF q = <<>> THEN 0 ELSE IF Head(q).n = 0 THEN Run(Tail(q), v) ELSE IF Head(q).e = v THEN Head(q).n + Run(Tail(q), v) ELSE 0
Back(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* where integers are indices from the back
Index(q, i) == IF i < 0 THEN i + Size(q) ELSE i
In(q, i) == Index(q, i) >= 0 /\ Index(q, i) < Size(q)
All(q, P(_)) == \A i \in 0..(Size(q) - 1) : P(At(q, i))
Extreme(q, v, P(_, _)) == (\E i \in 0..(Size(q) - 1) : At(q, i) = v) /\ All(q, LAMBDA y : P(y, v))
AtMost(x, y) == x <= y
AtLeast(x, y) == x >= y
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
\* a segment that has each of m values as often as the others
Fair(s) == s.d = 1 /\ s.n % s.m = 0 /\ Gcd(s.a % s.m, s.m) = 1
Sorted(s) == [n |-> s.n, a |-> 1, b |-> 0, d |-> s.n \div s.m, m |-> s.m, e |-> s.e]
\* the narrowest type of a list of numbers, which here are below 2^31
Fits(q, t) ==
    CASE t = "u8"  -> All(q, LAMBDA y : y >= 0 /\ y <= 255)
      [] t = "u16" -> All(q, LAMBDA y : y >= 0 /\ y <= 65535)
      [] t = "u32" -> All(q, LAMBDA y : y >= 0)
      [] t = "i8"  -> All(q, LAMBDA y : y >= -128 /\ y <= 127)
      [] t = "i16" -> All(q, LAMBDA y : y >= -32768 /\ y <= 32767)
      [] t = "i32" -> TRUE
Types == <<"u8", "u16", "u32", "i8", "i16", "i32">>
Narrow(q) == Types[CHOOSE i \in 1..6 : Fits(q, Types[i]) /\ \A j \in 1..(i - 1) : ~Fits(q, Types[j])]
\* keys of sets and maps go up or down by the same step: where is k?
RECURSIVE Where(_, _, _)
Where(q, k, off) ==
    IF q = <<>> THEN -1
    ELSE LET s == Head(q)  x == k - s.e - s.b IN
         IF x >= 0 /\ x % s.a = 0 /\ x \div s.a < s.n THEN off + x \div s.a ELSE Where(Tail(q), k, off + s.n)

(* S: name -> [k, q, v]; kinds: "bits", "prim", "view" (a vector of a file), "vbits" (a bitvector of a file), "str", "map", "set"; v: values of a map *)
Mutable(o) == o.k \in {"bits", "prim"}
Ok(v) == [k |-> "ok", v |-> v]
Exc == [k |-> "exc", v |-> 0]
Bool(x) == IF x THEN 1 ELSE 0
\* the result that event e must have, and what is afterwards at e.id (or at e.dst)
Res(S, e) ==
    LET o == S[e.id]  q == o.q  n == Size(q) IN
    CASE e.op = "len"   -> Ok(n)
      [] e.op = "get"   -> IF In(q, e.i) THEN Ok(At(q, Index(q, e.i))) ELSE Exc
      [] e.op = "zpre"  -> Ok(Run(q, 0))
      [] e.op = "opre"  -> Ok(Run(q, 1))
      [] e.op = "zpost" -> Ok(Run(Back(q), 0))
      [] e.op = "opost" -> Ok(Run(Back(q), 1))
      [] e.op = "any"   -> Ok(Bool(Run(q, 0) # n))
      [] e.op \in {"max", "min"} ->          \* nothing else is the greatest, or the least
            IF n = 0 THEN Exc
            ELSE IF e.res.k = "ok" /\ (IF e.op = "max" THEN Extreme(q, e.res.v, AtMost) ELSE Extreme(q, e.res.v, AtLeast)) THEN e.res ELSE Ok("another")
      [] e.op = "find"  -> LET w == Where(q, e.x, 0) IN
                           IF o.k = "map" THEN (IF w = -1 THEN Exc ELSE Ok(At(o.v, w))) ELSE Ok(Bool(w # -1))
      [] e.op = "pop"   -> IF n = 0 THEN Exc ELSE Ok(At(q, n - 1))
      [] e.op = "popn"  -> IF n < e.n THEN Exc ELSE Ok(0)
      [] e.op = "set"   -> IF In(q, e.i) /\ Mutable(o) THEN Ok(0) ELSE Exc
      [] e.op = "remove" -> IF \E i \in 0..(n - 1) : At(q, i) = e.x THEN Ok(0) ELSE Exc
      [] OTHER          -> Ok(0)
First(q, x) == LET n == Size(q) IN CHOOSE i \in 0..(n - 1) : At(q, i) = x /\ \A j \in 0..(i - 1) : At(q, j) # x
After(S, e) ==
    LET o == S[e.id]  q == o.q  n == Size(q)
        To(r) == [S EXCEPT ![e.id].q = r]
        Mk(r) == (e.dst :> r) @@ S IN
    CASE e.op = "append" -> To(q \o <<Const(1, e.x)>>)
      [] e.op = "extend" -> To(q \o <<Const(e.n, e.x)>>)
      [] e.op = "bulk"   -> To(q \o S[e.src].q)
      [] e.op = "pop"    -> IF n = 0 THEN S ELSE To(Slice(q, 0, n - 1))
      [] e.op = "popn"   -> IF n < e.n THEN S ELSE To(Slice(q, 0, n - e.n))
      [] e.op = "set"    -> IF In(q, e.i) /\ Mutable(o) THEN To(Put(q, Index(q, e.i), e.x)) ELSE S
      [] e.op = "remove" -> IF \E i \in 0..(n - 1) : At(q, i) = e.x THEN LET i == First(q, e.x) IN To(Slice(q, 0, i) \o Slice(q, i + 1, n)) ELSE S
      [] e.op = "slice"  -> LET lo == IF e.lo < 0 THEN (IF e.lo + n < 0 THEN 0 ELSE e.lo + n) ELSE Min2(e.lo, n)
                                hi == IF e.hi < 0 THEN (IF e.hi + n < 0 THEN 0 ELSE e.hi + n) ELSE Min2(e.hi, n) IN
                            Mk([o EXCEPT !.q = Slice(q, lo, hi)])
      [] e.op = "store"  -> Mk([o EXCEPT !.k = CASE o.k = "bits" -> "vbits" [] o.k = "prim" -> "view" [] OTHER -> o.k])
      [] e.op = "copy"   -> Mk([o EXCEPT !.k = IF o.k = "vbits" THEN "bits" ELSE o.k])
      [] e.op = "sort"   -> To(<<Sorted(q[1])>>)
      \* indices sorted by what they select of a vector with all of 0 .. n-1: the inverse
      [] e.op = "proj"   -> To(<<[n |-> n, a |-> e.inv, b |-> 0, d |-> 1, m |-> n, e |-> 0]>>)
      [] OTHER -> S
\* is the event one that the specification describes?
Meant(S, e) ==
    CASE e.op = "sort" -> Len(S[e.id].q) = 1 /\ Fair(S[e.id].q[1])
      [] e.op = "proj" -> LET s == S[e.src].q  p == S[e.id].q  n == Size(p) IN
                          /\ Len(s) = 1 /\ Len(p) = 1 /\ s[1].d = 1 /\ s[1].b = 0 /\ s[1].e = 0 /\ s[1].n = n /\ s[1].m = n
                          /\ p[1] = [n |-> n, a |-> 1, b |-> 0, d |-> 1, m |-> n, e |-> 0] /\ (s[1].a * e.inv) % n = 1
      [] OTHER -> TRUE
\* what is shown of everything: [n, ps, vs] some places and what is there
Shown(q, w) == w.n = Size(q) /\ \A i \in 1..Len(w.ps) : w.vs[i] = At(q, w.ps[i])
\* all items
Same(q, xs) == Len(xs) = Size(q) /\ \A i \in 1..Len(xs) : xs[i] = At(q, i - 1)
\* bits, by the lengths of runs
RECURSIVE Runs(_, _, _)
Runs(q, v, n) ==       \* n items v were seen
    IF q = <<>> THEN <<n>>
    ELSE IF Head(q).n = 0 THEN Runs(Tail(q), v, n)
    ELSE IF Head(q).e = v THEN Runs(Tail(q), v, n + Head(q).n)
    ELSE <<n>> \o Runs(Tail(q), 1 - v, Head(q).n)
EventOk(S, e) ==
    CASE e.op = "all"  -> Same(S[e.id].q, e.xs)
      [] e.op = "runs" -> e.xs = Runs(S[e.id].q, 0, 0)
      [] e.op = "type" -> e.res = (IF S[e.id].t # "" THEN S[e.id].t ELSE Narrow(S[e.id].q))
      [] e.op = "pairs" -> LET o == S[e.id] IN     \* keys in increasing order, and their values
                           /\ Same(o.q, e.xs) /\ (o.k = "map" => Same(o.v, e.ys))
      [] OTHER -> Meant(S, e) /\ e.res = Res(S, e)
Post(S, e) == DOMAIN e.post = DOMAIN S /\ \A i \in DOMAIN S : S[i].k \notin {"map", "set"} => Shown(S[i].q, e.post[i])
=============================================================================
