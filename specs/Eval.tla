-------------------------------- MODULE Eval --------------------------------
(* Lookups in files that were read, and access expressions.  H is what a reader sees   *)
(* of a file (Store); a place is a node of it, or the item of a vector or bitvector    *)
(* that has no node:  [k |-> "node", i]  [k |-> "val", v]  or nowhere.                 *)
EXTENDS Values

Nowhere == [k |-> "nowhere"]
Node(i) == [k |-> "node", i |-> i]
Val(v) == [k |-> "val", v |-> v]
At(H, pl) == IF pl.k = "node" THEN H.n[pl.i] ELSE pl.v

---------------------------------------------------------------------------
(* Numbers as canonical decimal texts *)
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Numeral(neg, ds) == LET d == NoZeros(ds) IN IF neg /\ d # <<48>> THEN <<45>> \o d ELSE d
\* division of four 16-bit limbs by 10
RECURSIVE WDigits(_)
WDigits(w) ==
    LET r1 == w[2]            q1 == r1 \div 10
        r2 == (r1 % 10) * B16 + w[3]  q2 == r2 \div 10
        r3 == (r2 % 10) * B16 + w[4]  q3 == r3 \div 10
        r4 == (r3 % 10) * B16 + w[5]  q4 == r4 \div 10
        q == <<0, q1, q2, q3, q4>>
    IN  IF q = <<0, 0, 0, 0, 0>> THEN <<48 + (r4 % 10)>> ELSE Append(WDigits(q), 48 + (r4 % 10))
WNumeral(w) == Numeral(w[1] = 1, WDigits(w))
RECURSIVE Small(_, _)
Small(ds, acc) == IF ds = <<>> THEN acc ELSE Small(Tail(ds), acc * 10 + ds[1] - 48)
\* the index (from 1) that a numeral stands for, 0 if it is none of 1..n
Index(num, n) == IF num[1] = 45 \/ Len(num) > 8 THEN 0 ELSE LET x == Small(num, 0) IN IF x < n THEN x + 1 ELSE 0

---------------------------------------------------------------------------
(* One step *)
Pick(n, P(_)) == LET S == {j \in 1..n : P(j)} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
\* the position of an integer or string among keys
IntKey(H, ks, num) == LET P(j) == H.n[ks[j]].k = "int" /\ WNumeral(H.n[ks[j]].w) = num IN Pick(Len(ks), P)
StrKey(H, ks, c) == LET P(j) == H.n[ks[j]].k = "str" /\ H.n[ks[j]].c = c IN Pick(Len(ks), P)
\* key: [k |-> "int", num] or [k |-> "str", c]
Step(H, pl, key) ==
    IF pl = Nowhere THEN Nowhere ELSE
    LET a == At(H, pl) IN
    CASE a.k = "vec" -> IF key.k = "str" THEN Nowhere
                        ELSE IF a.st = "v" THEN LET x == Index(key.num, Len(a.ch)) IN IF x = 0 THEN Nowhere ELSE Node(a.ch[x])
                        ELSE LET x == Index(key.num, Len(a.xs)) IN
                             IF x = 0 THEN Nowhere
                             \* values have 32 bits
                             ELSE IF a.st \in {"i64", "u64"} THEN Nowhere
                             ELSE IF a.st = "f" THEN Val([k |-> "flt", f |-> a.xs[x]])
                             ELSE Val([k |-> "int", w |-> a.xs[x]])
      [] a.k = "bits" -> IF key.k = "str" THEN Nowhere
                         ELSE LET x == Index(key.num, Len(a.b)) IN IF x = 0 THEN Nowhere ELSE Val([k |-> "bool", v |-> a.b[x]])
      [] a.k = "map" -> LET x == IF key.k = "str" THEN StrKey(H, a.ks, key.c) ELSE IntKey(H, a.ks, key.num)
                        IN  IF x = 0 THEN Nowhere ELSE Node(a.vs[x])
      [] OTHER -> Nowhere

---------------------------------------------------------------------------
(* Expressions: sequences of bytes, with arguments for the placeholders in them *)
Space(c) == c = 32 \/ (c >= 9 /\ c <= 13)
RECURSIVE Skip(_, _)
Skip(e, p) == IF p <= Len(e) /\ Space(e[p]) THEN Skip(e, p + 1) ELSE p
RECURSIVE DigitsEnd(_, _)
DigitsEnd(e, p) == IF p <= Len(e) /\ Digit(e[p]) THEN DigitsEnd(e, p + 1) ELSE p
RECURSIVE QuoteEnd(_, _)
QuoteEnd(e, p) == IF p > Len(e) THEN 0 ELSE IF e[p] = 39 THEN p ELSE QuoteEnd(e, p + 1)
Is(e, p, c) == p <= Len(e) /\ e[p] = c
Bad0 == [at |-> 0, key |-> [k |-> "none"], args |-> <<>>]
Types64 == {<<117, 51, 50>>, <<117, 54, 52>>, <<105, 51, 50>>, <<105, 54, 52>>}
\* the key at p, where it ends, and the arguments that are left
KeyAt(e, p, args) ==
    IF p > Len(e) THEN Bad0
    ELSE IF e[p] = 39 THEN LET q == QuoteEnd(e, p + 1) IN
                           IF q = 0 THEN Bad0 ELSE [at |-> q + 1, key |-> [k |-> "str", c |-> SubSeq(e, p + 1, q - 1)], args |-> args]
    ELSE IF e[p] = 37
    THEN IF Is(e, p + 1, 115)
         THEN [at |-> p + 2, key |-> [k |-> "str", c |-> Head(args).c], args |-> Tail(args)]
         ELSE IF p + 3 <= Len(e) /\ SubSeq(e, p + 1, p + 3) \in Types64
         THEN [at |-> p + 4, key |-> [k |-> "int", num |-> WNumeral(Head(args).w)], args |-> Tail(args)]
         ELSE Bad0
    ELSE LET s == IF e[p] \in {43, 45} THEN p + 1 ELSE p
             q == DigitsEnd(e, s)
         IN  IF q = s THEN Bad0 ELSE [at |-> q, key |-> [k |-> "int", num |-> Numeral(e[p] = 45, SubSeq(e, s, q - 1))], args |-> args]
RECURSIVE EvalFrom(_, _, _, _, _)
EvalFrom(H, pl, e, p0, args) ==
    LET p == Skip(e, p0) IN
    IF pl = Nowhere THEN Nowhere
    ELSE IF p > Len(e) THEN pl
    ELSE IF e[p] # 91 THEN Nowhere
    ELSE LET x == KeyAt(e, p + 1, args) IN
         IF x.at = 0 THEN Nowhere
         ELSE LET q == Skip(e, x.at) IN
              IF ~Is(e, q, 93) THEN Nowhere ELSE EvalFrom(H, Step(H, pl, x.key), e, q + 1, x.args)
Eval(H, i, e, args) == EvalFrom(H, Node(i), e, 1, args)

---------------------------------------------------------------------------
(* What the C library says of a value v at a place: its contents, or which container it is; and its type *)
TypeNo == [i8 |-> 2, u8 |-> 3, i16 |-> 4, u16 |-> 5, i32 |-> 6, u32 |-> 7, i64 |-> 25, u64 |-> 26, f |-> 8, e |-> 9]
Tells(H, pl, v) ==
    /\ pl # Nowhere
    /\ LET a == At(H, pl) IN
       CASE a.k = "vec" -> /\ v.k = "vec" /\ v.st = a.st /\ v.n = (IF a.st = "v" THEN Len(a.ch) ELSE Len(a.xs))
                           /\ (v.n > 0 => v.id = a.id) /\ (IF a.st = "v" THEN v.ty \in {0, 1} ELSE v.ty = TypeNo[a.st])
         [] a.k = "set" -> v.k = "set" /\ v.id = a.id /\ v.n = Len(a.ch)
         [] a.k = "map" -> v.k = "map" /\ v.id = a.id /\ v.n = Len(a.ks)
         [] a.k = "int" -> v.k = "int" /\ v.w = a.w
         [] a.k = "flt" -> v.k = "flt" /\ FSame(v.f, a.f)
         [] a.k = "bool" -> v.k = "bool" /\ v.v = a.v
         [] a.k = "none" -> v.k = "none"
         [] a.k = "str" -> v.k = "str" /\ v.c = a.c
         [] a.k = "bits" -> v.k = "bits" /\ v.b = a.b
\* the items of a place, as values
ItemsAt(H, pl) == LET a == At(H, pl) IN [j \in 1..Len(a.ch) |-> Node(a.ch[j])]
VecIs(H, pl, st) == pl # Nowhere /\ At(H, pl).k = "vec" /\ At(H, pl).st \in {"e", st}
IntIs(H, pl, T(_)) == pl # Nowhere /\ At(H, pl).k = "int" /\ T(At(H, pl).w)
In32(w) == InType(w, "u32")
AnyInt(w) == TRUE
\* the outcome of a function for a certain type of value; ty is the type the value has in the file
Fits(H, pl, f, ty) ==
    CASE f = "value" -> pl # Nowhere
      [] f = "u32" -> IntIs(H, pl, AnyInt) /\ ty = 21
      [] f = "u32range" -> IntIs(H, pl, In32)
      [] f = "i64" -> IntIs(H, pl, AnyInt)
      [] f = "boolean" -> pl # Nowhere /\ At(H, pl).k = "bool"
      [] f = "map" -> pl # Nowhere /\ At(H, pl).k = "map"
      [] f = "set" -> pl # Nowhere /\ At(H, pl).k = "set"
      [] f = "bitvector" -> pl # Nowhere /\ At(H, pl).k = "bits"
      [] f = "string" -> pl # Nowhere /\ At(H, pl).k = "str" /\ ty = 29
      [] f = "vector" -> pl # Nowhere /\ At(H, pl).k = "vec" /\ At(H, pl).st # "v"
      [] f = "vector_v" -> VecIs(H, pl, "v")
      [] f = "vector_i8" -> VecIs(H, pl, "i8")
      [] f = "vector_u8" -> VecIs(H, pl, "u8")
      [] f = "vector_i16" -> VecIs(H, pl, "i16")
      [] f = "vector_u16" -> VecIs(H, pl, "u16")
      [] f = "vector_i32" -> VecIs(H, pl, "i32")
      [] f = "vector_u32" -> VecIs(H, pl, "u32")
      [] f = "vector_i64" -> VecIs(H, pl, "i64")
      [] f = "vector_u64" -> VecIs(H, pl, "u64")
      [] f = "vector_f" -> VecIs(H, pl, "f")
Gives(H, pl, o) ==
    LET a == At(H, pl) IN
    CASE o.f \in {"value", "map", "set", "vector", "bitvector"} -> Tells(H, pl, o.v)
      [] o.f \in {"u32", "u32range", "i64"} -> o.v.w = a.w
      [] o.f = "boolean" -> o.v.v = a.v
      [] o.f = "string" -> o.v.c = a.c
      [] o.f = "vector_v" -> IF a.st = "e" THEN o.v.vs = <<>>
                             ELSE Len(o.v.vs) = Len(a.ch) /\ \A j \in 1..Len(a.ch) : Tells(H, Node(a.ch[j]), o.v.vs[j])
      [] OTHER -> IF a.st = "f" THEN Len(o.v.xs) = Len(a.xs) /\ \A j \in 1..Len(a.xs) : FSame(o.v.xs[j], a.xs[j])
                  ELSE o.v.xs = a.xs
\* o: [f, ok, v, kept]
OutcomeOk(H, pl, ty, o) ==
    /\ o.ok = Fits(H, pl, o.f, ty)
    /\ o.ok => Gives(H, pl, o)
    /\ o.kept                     \* what the caller had there before stays, if there is nothing to give

KeyList(a) == IF a.k = "map" THEN a.ks ELSE a.ch
\* where an equal key is
EqKey(H, ks, j) == LET P(x) == Eq(TreeH(H, ks[x]), TreeH(H, j)) IN Pick(Len(ks), P)
SameKeys(H, i, j) ==
    LET a == KeyList(H.n[i]) b == KeyList(H.n[j]) IN
    Len(a) = Len(b) /\ (\A x \in 1..Len(a) : EqKey(H, b, a[x]) # 0) /\ \A x \in 1..Len(b) : EqKey(H, a, b[x]) # 0
=============================================================================
