------------------------------- MODULE Values -------------------------------
(* Values by contents, whatever they are represented by, as trees:              *)
(*   [k |-> "int", w]  [k |-> "flt", f] (a single)  [k |-> "bool", v]            *)
(*   [k |-> "none"]    [k |-> "str", c]             [k |-> "bits", b]            *)
(*   [k |-> "seq", xs] lists, tuples, primitive vectors, vectors, slices         *)
(*   [k |-> "con"]     sets and maps, which are neither keys nor comparable      *)
(* and their hash, order and equality.                                          *)
EXTENDS Store

---------------------------------------------------------------------------
(* Trees of graph nodes: of graphs that are written, and graphs that are read.   *)
(* (only for nodes that do not reach cycles)                                    *)
PrimTree(t, x) == IF t = "f" THEN [k |-> "flt", f |-> x] ELSE [k |-> "int", w |-> x]
RECURSIVE TreeG(_, _)
TreeG(G, i) ==
    LET a == G.n[i] IN
    CASE a.k = "int" -> [k |-> "int", w |-> a.w]
      [] a.k = "flt" -> [k |-> "flt", f |-> Narrow(a.d)]
      [] a.k = "bool" -> [k |-> "bool", v |-> a.v]
      [] a.k = "none" -> [k |-> "none"]
      [] a.k = "str" -> [k |-> "str", c |-> a.c]
      [] a.k = "bits" -> [k |-> "bits", b |-> a.b]
      [] a.k \in {"list", "tup"} -> [k |-> "seq", xs |-> [j \in 1..Len(a.ch) |-> TreeG(G, a.ch[j])]]
      [] a.k = "prim" -> [k |-> "seq", xs |-> [j \in 1..Len(a.xs) |-> PrimTree(a.t, a.xs[j])]]
      [] OTHER -> [k |-> "con"]
RECURSIVE TreeH(_, _)
TreeH(H, i) ==
    LET a == H.n[i] IN
    CASE a.k = "vec" -> IF a.st = "v" THEN [k |-> "seq", xs |-> [j \in 1..Len(a.ch) |-> TreeH(H, a.ch[j])]]
                        ELSE [k |-> "seq", xs |-> [j \in 1..Len(a.xs) |-> PrimTree(a.st, a.xs[j])]]
      [] a.k \in {"set", "map"} -> [k |-> "con"]
      [] OTHER -> a

RECURSIVE Deep(_)      \* no set or map anywhere
Deep(v) == CASE v.k = "con" -> FALSE [] v.k = "seq" -> \A i \in 1..Len(v.xs) : Deep(v.xs[i]) [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Hash: a 32-bit word *)
StrMult == <<15, 16963>>              \* 1000003
RECURSIVE StrHashFrom(_, _, _)
StrHashFrom(c, i, x) == IF i > Len(c) THEN Xor32(x, U32(Len(c))) ELSE StrHashFrom(c, i + 1, Xor32(Mul32(StrMult, x), U32(c[i])))
StrHash(c) == StrHashFrom(c, 1, IF c = <<>> THEN <<0, 0>> ELSE Shl32(U32(c[1]), 7))

\* numbers: those within 32 bits hash as that integer; of the others, those that are a single as its bits
Within32(w) == InType(w, "i32") \/ InType(w, "u32")
FltHash(f) == LET w == IF FNan(f) THEN <<>> ELSE FInt(f) IN IF w # <<>> /\ Within32(w) THEN Low32(w) ELSE f
IntHash(w) == IF Within32(w) THEN Low32(w)
              ELSE LET f == WF32(w) IN IF IntFCmp(w, f) = 0 THEN f ELSE Low32(w)

BitMult == <<15258, 51713>>           \* 1000000001
RECURSIVE BitHashFrom(_, _, _)
BitHashFrom(b, i, h) ==
    IF i > Len(b) THEN h
    ELSE LET bit(j) == IF i + j <= Len(b) THEN b[i + j] ELSE 0
             byte == bit(0) + 2 * bit(1) + 4 * bit(2) + 8 * bit(3) + 16 * bit(4) + 32 * bit(5) + 64 * bit(6) + 128 * bit(7)
         IN  BitHashFrom(b, i + 8, Add32(Mul32(h, BitMult), <<0, byte>>))
BitHash(b) == BitHashFrom(b, 1, <<0, 1>>)

RECURSIVE SeqHashFrom(_, _, _, _)
SeqHashFrom(hs, i, x, m) ==
    IF i > Len(hs) THEN Add32(x, U32(97531))
    ELSE SeqHashFrom(hs, i + 1, Mul32(Xor32(x, hs[i]), m), Add32(m, U32(82520 + 2 * Len(hs))))
SeqHash(hs) == SeqHashFrom(hs, 1, <<52, 22136>>, StrMult)      \* 16r345678

RECURSIVE Hash(_)
Hash(v) ==
    CASE v.k = "int" -> IntHash(v.w)
      [] v.k = "flt" -> FltHash(v.f)
      [] v.k = "bool" -> <<0, v.v>>
      [] v.k = "none" -> <<0, 0>>
      [] v.k = "str" -> StrHash(v.c)
      [] v.k = "bits" -> BitHash(v.b)
      [] v.k = "seq" -> SeqHash([i \in 1..Len(v.xs) |-> Hash(v.xs[i])])

---------------------------------------------------------------------------
(* Order: -1, 0, 1; 2 for a NaN (different from everything, in no order); 3 for   *)
(* values which can not be compared                                             *)
Num(v) == v.k \in {"int", "flt", "bool"}
NumCmp(a, b) ==
    LET ia == IF a.k = "bool" THEN W(a.v) ELSE a.w
        ib == IF b.k = "bool" THEN W(b.v) ELSE b.w
    IN  IF a.k = "flt" /\ b.k = "flt" THEN FCmp(a.f, b.f)
        ELSE IF a.k = "flt" THEN IF FNan(a.f) THEN 2 ELSE -IntFCmp(ib, a.f)
        ELSE IF b.k = "flt" THEN IF FNan(b.f) THEN 2 ELSE IntFCmp(ia, b.f)
        ELSE WCmp(ia, ib)
IntCmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
RECURSIVE IntsCmp(_, _, _)
IntsCmp(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN IntCmp(Len(a), Len(b))
                    ELSE IF a[i] # b[i] THEN IntCmp(a[i], b[i]) ELSE IntsCmp(a, b, i + 1)
RECURSIVE Cmp(_, _)
RECURSIVE SeqCmp(_, _, _)
SeqCmp(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN IntCmp(Len(a), Len(b))
                   ELSE LET c == Cmp(a[i], b[i]) IN IF c # 0 THEN c ELSE SeqCmp(a, b, i + 1)
Cmp(a, b) ==
    CASE Num(a) /\ Num(b) -> NumCmp(a, b)
      [] a.k = "none" /\ b.k = "none" -> 0
      [] a.k = "str" /\ b.k = "str" -> IntsCmp(a.c, b.c, 1)
      [] a.k = "bits" /\ b.k = "bits" -> IntsCmp(a.b, b.b, 1)
      [] a.k = "seq" /\ b.k = "seq" -> SeqCmp(a.xs, b.xs, 1)
      [] OTHER -> 3

\* equality as keys: values of different kinds are different
RECURSIVE Eq(_, _)
Eq(a, b) == IF a.k = "seq" /\ b.k = "seq" THEN Len(a.xs) = Len(b.xs) /\ \A i \in 1..Len(a.xs) : Eq(a.xs[i], b.xs[i])
            ELSE Cmp(a, b) = 0
=============================================================================
