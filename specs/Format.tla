------------------------------- MODULE Format -------------------------------
(* The file format, byte by byte; b is the sequence of the bytes of a file.       *)
(*                                                                              *)
(*   0  root value (8 bytes)      8  number of strings     12  number of vectors  *)
(*  16  number of bitvectors     20  number of sets        24  number of maps     *)
(*  28  version (2)              32  64-bit heap offsets of all of these          *)
(*  ... the heap                                                                *)
(* Numbers are little-endian.  A value is a 32-bit type and 32 bits of data, <<t, *)
(* hi, lo>> here (t = -1 if the type has more than 16 bits).                     *)
EXTENDS Values, HashTable

Huge == 536870912                      \* 2^29: counts and offsets beyond any file here
U32At(b, o) == <<b[o + 4] * 256 + b[o + 3], b[o + 2] * 256 + b[o + 1]>>
U16At(b, o) == b[o + 2] * 256 + b[o + 1]
ToNum(w) == IF w[1] >= 256 THEN Huge ELSE w[1] * B16 + w[2]
NumAt(b, o) == ToNum(U32At(b, o))
ValueAt(b, o) == LET t == U32At(b, o) d == U32At(b, o + 4) IN <<IF t[1] = 0 THEN t[2] ELSE -1, d[1], d[2]>>
Data(v) == <<v[2], v[3]>>
Index(v) == ToNum(Data(v))

\* the tables of offsets; <<>> if the file is too short to have them, or of another version
Parse(b) ==
    IF Len(b) < 32 THEN <<>>
    ELSE LET n == [i \in 1..5 |-> NumAt(b, 4 + 4 * i)]
             total == n[1] + n[2] + n[3] + n[4] + n[5]
         IN  IF \E i \in 1..5 : n[i] >= 2^20 THEN <<>>
             ELSE IF U32At(b, 28) # <<0, 2>> \/ 32 + 8 * total > Len(b) THEN <<>>
             ELSE [b |-> b, n |-> n, heap |-> 32 + 8 * total, len |-> Len(b) - (32 + 8 * total), root |-> ValueAt(b, 0)]
tS == 1  tV == 2  tB == 3  tE == 4  tM == 5         \* the tables
RECURSIVE Before(_, _)
Before(n, k) == IF k = 1 THEN 0 ELSE Before(n, k - 1) + n[k - 1]
\* offset in the heap of the i-th entry of a table
Off(P, k, i) == LET o == 32 + 8 * (Before(P.n, k) + i) IN
                IF U32At(P.b, o + 4) # <<0, 0>> THEN Huge ELSE NumAt(P.b, o)
Fits(P, off, n) == off + n <= P.len
At(P, off) == P.heap + off
Count(P, off) == NumAt(P.b, At(P, off))

---------------------------------------------------------------------------
(* Types *)
VectorTypes == {0, 1, 2, 3, 4, 5, 6, 7, 8, 25, 26}
ItemType(t) == CASE t = 2 -> "i8" [] t = 3 -> "u8" [] t = 4 -> "i16" [] t = 5 -> "u16" [] t = 6 -> "i32" [] t = 7 -> "u32"
                 [] t = 25 -> "i64" [] t = 26 -> "u64" [] t = 8 -> "f"
ItemSize(t) == IF t \in {0, 1} THEN 8 ELSE TSize(ItemType(t))
Known == VectorTypes \cup {9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 29}
Table(t) == CASE t \in {10, 29} -> tS [] t \in VectorTypes -> tV [] t = 11 -> tB [] t = 17 -> tE [] t = 18 -> tM

\* a value, by itself
Inline(v) == CASE v[1] = 16 -> v[3] % 32 <= 27
               [] v[1] \in {9, 19, 24} -> Data(v) = <<0, 0>>
               [] v[1] = 23 -> v[2] = 0 /\ v[3] \in {0, 1}
               [] OTHER -> TRUE
\* ...and what it refers to
HeapOk(P, v) ==
    LET t == v[1] IN
    IF t \notin VectorTypes \cup {10, 11, 17, 18, 29} THEN TRUE
    ELSE IF Index(v) >= P.n[Table(t)] THEN FALSE
    ELSE LET o == Off(P, Table(t), Index(v)) IN
    IF t \in {17, 18}
    THEN IF ~Fits(P, o, IF t = 17 THEN 24 ELSE 32) THEN FALSE
         ELSE LET h == ValueAt(P.b, At(P, o) + 8) k == ValueAt(P.b, At(P, o) + 16)
              IN  h[1] = 7 /\ k[1] = 1 /\ (t = 18 => ValueAt(P.b, At(P, o) + 24)[1] \in {0, 1})
    ELSE IF ~Fits(P, o, 4) THEN FALSE
    ELSE LET n == Count(P, o) IN
         CASE t \in VectorTypes -> n < 2^24 /\ Fits(P, o, 4 + n * ItemSize(t))
           [] t = 11 -> Fits(P, o, 4 + (n + 7) \div 8)
           [] t = 10 -> n < 2^24 /\ Fits(P, o, 4 + 4 * (n + 1))
                        /\ \A i \in 0..n : (U32At(P.b, At(P, o) + 4 + 4 * i) = <<0, 0>>) = (i = n)
           [] t = 29 -> Fits(P, o, 4 + n + 1)
                        /\ \A i \in 0..n : (P.b[At(P, o) + 4 + i + 1] = 0) = (i = n)
ValueOk(P, v) == v[1] \in Known /\ Inline(v) /\ HeapOk(P, v)

---------------------------------------------------------------------------
(* Structure *)
Items(P, v) == LET o == At(P, Off(P, tV, Index(v))) IN [i \in 1..NumAt(P.b, o) |-> ValueAt(P.b, o + 4 + 8 * (i - 1))]     \* t = 0 or 1
NItems(P, v) == IF v[1] = 9 THEN 0 ELSE Count(P, Off(P, tV, Index(v)))
Part(P, v, i) == ValueAt(P.b, At(P, Off(P, Table(v[1]), Index(v))) + 8 * i)      \* of a set or map: 1 hashes, 2 keys, 3 values
NEntries(P, v) == NumAt(P.b, At(P, Off(P, Table(v[1]), Index(v))))
VKids(P, v) == CASE v[1] \in {0, 1} -> ToSet(Items(P, v))
                [] v[1] = 17 -> {Part(P, v, 1), Part(P, v, 2)}
                [] v[1] = 18 -> {Part(P, v, 1), Part(P, v, 2), Part(P, v, 3)}
                [] OTHER -> {}
Broken == {<<-2, 0, 0>>}
\* every value in the file; Broken if one of them is not right by itself
RECURSIVE WalkFrom(_, _, _)
WalkFrom(P, todo, done) ==
    IF todo = {} THEN done
    ELSE IF \E v \in todo : ~ValueOk(P, v) THEN Broken
    ELSE WalkFrom(P, (UNION {VKids(P, v) : v \in todo}) \ (done \cup todo), done \cup todo)
Walk(P) == TLCEval(WalkFrom(P, {P.root}, {}))

\* a container, whatever type it is referred to with
Ident(v) == <<IF v[1] \in {0, 1} THEN tV ELSE Table(v[1]), Index(v)>>
IsContainer(v) == v[1] \in {0, 1, 17, 18}
InLoop(P, v) == LET R == WalkFrom(P, VKids(P, v), {}) IN \E u \in R : IsContainer(u) /\ Ident(u) = Ident(v)

\* can it be (part of) a key
RECURSIVE KeyOk(_, _)
KeyOk(P, v) == CASE v[1] \in {0, 17, 18} -> FALSE
                 [] v[1] = 1 -> \A u \in ToSet(Items(P, v)) : KeyOk(P, u)
                 [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Contents *)
Chars(P, v) ==
    LET o == At(P, Off(P, tS, Index(v)))
        n == NumAt(P.b, o)
    IN  IF v[1] = 29 THEN [i \in 1..n |-> P.b[o + 4 + i]]
        ELSE [i \in 1..n |-> NumAt(P.b, o + 4 + 4 * (i - 1))]
BitOf(x, k) == (x \div 2^k) % 2
NBits(P, v) == CASE v[1] = 11 -> Count(P, Off(P, tB, Index(v)))
                 [] v[1] \in {12, 13} -> ToNum(Data(v))
                 [] v[1] \in {14, 15} -> v[2] + v[3]
                 [] v[1] = 16 -> v[3] % 32
\* 14: v[3] zeros and then v[2] ones; 15: v[3] ones and then v[2] zeros; 16: bits from the sixth lowest one on
Bits(P, v) ==
    LET n == NBits(P, v) IN
    CASE v[1] = 11 -> LET o == At(P, Off(P, tB, Index(v))) + 4 IN [i \in 1..n |-> BitOf(P.b[o + (i - 1) \div 8 + 1], (i - 1) % 8)]
      [] v[1] = 12 -> [i \in 1..n |-> 0]
      [] v[1] = 13 -> [i \in 1..n |-> 1]
      [] v[1] = 14 -> [i \in 1..n |-> IF i <= v[3] THEN 0 ELSE 1]
      [] v[1] = 15 -> [i \in 1..n |-> IF i <= v[3] THEN 1 ELSE 0]
      [] v[1] = 16 -> [i \in 1..n |-> LET k == i + 4 IN IF k < 16 THEN BitOf(v[3], k) ELSE BitOf(v[2], k - 16)]
Prims(P, v) ==
    LET o == At(P, Off(P, tV, Index(v)))
        n == NumAt(P.b, o)
        t == ItemType(v[1])
        s == TSize(t)
    IN  [i \in 1..n |-> IF t = "f" THEN U32At(P.b, o + 4 + 4 * (i - 1))
                        ELSE BytesInt(SubSeq(P.b, o + 4 + s * (i - 1) + 1, o + 4 + s * i), t \in {"i8", "i16", "i32", "i64"})]
IntOf(v) == IF v[1] = 20 /\ v[2] >= 32768 THEN FromLimbs64(<<65535, 65535, v[2], v[3]>>, TRUE) ELSE <<0, 0, 0, v[2], v[3]>>
Leaf(P, v) ==
    CASE v[1] \in {20, 21} -> [k |-> "int", w |-> IntOf(v)]
      [] v[1] = 22 -> [k |-> "flt", f |-> Data(v)]
      [] v[1] = 23 -> [k |-> "bool", v |-> v[3]]
      [] v[1] = 24 -> [k |-> "none"]
      [] v[1] \in {10, 29} -> [k |-> "str", c |-> Chars(P, v)]
      [] v[1] \in 11..16 -> [k |-> "bits", b |-> Bits(P, v)]
RECURSIVE TreeV(_, _)      \* of keys
TreeV(P, v) ==
    CASE v[1] = 9 -> [k |-> "seq", xs |-> <<>>]
      [] v[1] = 1 -> LET its == Items(P, v) IN [k |-> "seq", xs |-> [i \in 1..Len(its) |-> TreeV(P, its[i])]]
      [] v[1] \in VectorTypes \ {0, 1} -> LET xs == Prims(P, v) IN [k |-> "seq", xs |-> [i \in 1..Len(xs) |-> PrimTree(ItemType(v[1]), xs[i])]]
      [] OTHER -> Leaf(P, v)

---------------------------------------------------------------------------
(* Sets and maps *)
Empty == 19
Full(P, v) == LET ks == Items(P, Part(P, v, 2)) IN {i \in 1..Len(ks) : ks[i][1] # Empty}
TableOk(P, v) ==
    LET hv == Part(P, v, 1)  kv == Part(P, v, 2)
        n == NEntries(P, v)
        B == NItems(P, kv)
    IN  IF NItems(P, hv) # B \/ (v[1] = 18 /\ NItems(P, Part(P, v, 3)) # B) THEN FALSE
        ELSE IF n >= B \/ NBuckets(n) # B THEN FALSE
        ELSE LET ks == Items(P, kv)
                 o == At(P, Off(P, tV, Index(hv))) + 4
                 h == [i \in 1..B |-> U32At(P.b, o + 4 * (i - 1))]
                 full == {i \in 1..B : ks[i][1] # Empty}
             IN  /\ Cardinality(full) = n
                 /\ v[1] = 18 => LET vs == Items(P, Part(P, v, 3)) IN \A i \in (1..B) \ full : vs[i][1] = Empty
                 /\ \A i \in (1..B) \ full : h[i] = <<0, 0>>
                 /\ \A i \in full : KeyOk(P, ks[i])
                 /\ LET T == TLCEval([i \in full |-> TreeV(P, ks[i])]) IN
                    /\ \A i \in full : h[i] = Hash(T[i])
                    /\ \A i \in full : Probe(h[i], B, LAMBDA j : j + 1 \notin full \/ (h[j + 1] = h[i] /\ Eq(T[i], T[j + 1]))) = i - 1

---------------------------------------------------------------------------
(* Well-formed files.  Of some bytes it is left open if they are refused: where   *)
(* empty slots are values, characters are none, objects are not aligned, or       *)
(* bitvectors are enormous.                                                     *)
SlotsOf(P, R) == UNION {{Part(P, v, i) : i \in 2..(IF v[1] = 18 THEN 3 ELSE 2)} : v \in {u \in R : u[1] \in {17, 18}}}
Aligned(P) == \A k \in 1..5 : \A i \in Range0(P.n[k]) : Off(P, k, i) % 4 = 0
Open(P, R) ==
    \/ \E v \in {u \in R : u[1] \in {17, 18}} : \E i \in Full(P, v) :
          LET Y == WalkFrom(P, {Items(P, Part(P, v, 2))[i]}, {}) IN
          (\E u \in Y : u[1] = Empty) /\ \A u \in Y : u[1] \notin {0, 17, 18}
    \/ ~Aligned(P)
    \/ \E v \in R : v[1] \in 11..16 /\ NBits(P, v) > 5000
    \/ \E v \in R : v[1] \in {0, 1} /\ v \notin SlotsOf(P, R) /\ \E u \in ToSet(Items(P, v)) : u[1] = Empty
Sound(P, R) ==
    /\ \A v \in R : v[1] = 1 => ~InLoop(P, v)
    /\ \A v \in R : v[1] \in {17, 18} => TableOk(P, v)
Shown(P) ==      \* the values that can be got at
    LET RECURSIVE From(_, _)
        Kid(v) == CASE v[1] \in {0, 1} -> ToSet(Items(P, v))
                    [] v[1] = 17 -> {Items(P, Part(P, v, 2))[i] : i \in Full(P, v)}
                    [] v[1] = 18 -> {Items(P, Part(P, v, 2))[i] : i \in Full(P, v)} \cup {Items(P, Part(P, v, 3))[i] : i \in Full(P, v)}
                    [] OTHER -> {}
        From(todo, done) == IF todo = {} THEN done
                            ELSE From((UNION {Kid(v) : v \in todo}) \ (done \cup todo), done \cup todo)
    IN  From({P.root}, {})
OpenShown(P) ==
    \E v \in Shown(P) : v[1] = Empty \/ (v[1] = 10 /\ \E i \in 1..Len(Chars(P, v)) : Chars(P, v)[i] >= 1114112)
\* "refuse", "accept", or "open"
Verdict(b) ==
    LET P == Parse(b) IN
    IF P = <<>> THEN "refuse"
    ELSE LET R == Walk(P) IN
         IF R = Broken THEN "refuse"
         ELSE IF Open(P, R) THEN "open"
         ELSE IF ~Sound(P, R) THEN "refuse"
         ELSE IF OpenShown(P) THEN "open" ELSE "accept"

---------------------------------------------------------------------------
(* The graph that is read (see Store.tla) from a well-formed file *)
Decode(b) ==
    LET P == Parse(b)
        R == TLCEval(SetToSeq(Shown(P)))
        at(v) == CHOOSE i \in 1..Len(R) : R[i] = v
        full(v) == SetToSortSeq(Full(P, v), <)
        picks(v, p) == LET its == Items(P, Part(P, v, p)) f == full(v) IN [j \in 1..Len(f) |-> at(its[f[j]])]
        node(v) ==
            LET id == Ident(v) IN
            CASE v[1] \in {0, 1} -> IF NItems(P, v) = 0 THEN [k |-> "vec", st |-> "e", id |-> 0, h |-> IF KeyOk(P, v) THEN 1 ELSE 0, xs |-> <<>>]
                                    ELSE LET its == Items(P, v) IN
                                    [k |-> "vec", st |-> "v", id |-> Index(v), h |-> IF KeyOk(P, v) THEN 1 ELSE 0, ch |-> [j \in 1..Len(its) |-> at(its[j])]]
              [] v[1] = 9 -> [k |-> "vec", st |-> "e", id |-> 0, h |-> 1, xs |-> <<>>]
              [] v[1] \in VectorTypes \ {0, 1} -> [k |-> "vec", st |-> IF NItems(P, v) = 0 THEN "e" ELSE ItemType(v[1]), id |-> Index(v), h |-> 1, xs |-> Prims(P, v)]
              [] v[1] = 17 -> [k |-> "set", id |-> Index(v), ch |-> picks(v, 2)]
              [] v[1] = 18 -> [k |-> "map", id |-> Index(v), ks |-> picks(v, 2), vs |-> picks(v, 3)]
              [] OTHER -> Leaf(P, v)
    IN  [n |-> TLCEval([i \in 1..Len(R) |-> node(R[i])]), r |-> at(P.root), refs |-> R]

\* Do two graphs that are read hold the same?  Entries of sets and maps are in any order.
NodeSame(a, b) == CASE a.k = "flt" -> b.k = "flt" /\ FSame(a.f, b.f)
                    [] a.k = "vec" -> b.k = "vec" /\ a.st = b.st
                                      /\ (a.st = "v" => Len(a.ch) = Len(b.ch))
                                      /\ (a.st = "f" => Len(a.xs) = Len(b.xs) /\ \A i \in 1..Len(a.xs) : FSame(a.xs[i], b.xs[i]))
                                      /\ (a.st \notin {"v", "f"} => a.xs = b.xs)
                    [] a.k = "set" -> b.k = "set" /\ Len(a.ch) = Len(b.ch)
                    [] a.k = "map" -> b.k = "map" /\ Len(a.ks) = Len(b.ks) /\ Len(a.vs) = Len(b.vs)
                    [] OTHER -> a = b
RECURSIVE TreeSame(_, _)       \* values and kinds
TreeSame(x, y) == x.k = y.k /\ IF x.k = "seq" THEN Len(x.xs) = Len(y.xs) /\ \A i \in 1..Len(x.xs) : TreeSame(x.xs[i], y.xs[i])
                               ELSE IF x.k = "flt" THEN FSame(x.f, y.f) ELSE x = y
KeyPairs(H, as, K, bs) ==
    LET ps == {<<i, CHOOSE j \in 0..Len(bs) : IF j = 0 THEN \A m \in 1..Len(bs) : ~TreeSame(TreeH(H, as[i]), TreeH(K, bs[m]))
                                              ELSE TreeSame(TreeH(H, as[i]), TreeH(K, bs[j]))>> : i \in 1..Len(as)}
    IN  IF (\E p \in ps : p[2] = 0) \/ Cardinality({p[2] : p \in ps}) # Len(as) THEN Bad ELSE ps
HPairs(H, i, K, o) ==
    LET a == H.n[i] b == K.n[o] IN
    IF ~NodeSame(a, b) THEN Bad
    ELSE CASE a.k = "vec" /\ a.st = "v" -> {<<a.ch[j], b.ch[j]>> : j \in 1..Len(a.ch)}
           [] a.k = "set" -> LET ps == KeyPairs(H, a.ch, K, b.ch) IN IF ps = Bad THEN Bad ELSE {<<a.ch[p[1]], b.ch[p[2]]>> : p \in ps}
           [] a.k = "map" -> LET ps == KeyPairs(H, a.ks, K, b.ks) IN
                             IF ps = Bad THEN Bad ELSE {<<a.ks[p[1]], b.ks[p[2]]>> : p \in ps} \cup {<<a.vs[p[1]], b.vs[p[2]]>> : p \in ps}
           [] OTHER -> {}
RECURSIVE HMatchFrom(_, _, _, _)
HMatchFrom(H, K, todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == UNION {HPairs(H, p[1], K, p[2]) : p \in todo} IN
         IF <<0, 0>> \in next THEN Bad ELSE HMatchFrom(H, K, next \ (done \cup todo), done \cup todo)
HMatch(H, K) == HMatchFrom(H, K, {<<H.r, K.r>>}, {})
HIdentity(a) == a.k \in {"set", "map"} \/ (a.k = "vec" /\ a.st # "e")
Group(a) == CASE a.k = "vec" -> 1 [] a.k = "set" -> 2 [] a.k = "map" -> 3
\* the same values, sharing, and (unless a vector is referred to as hashable and not) hashability
SameGraph(H, K) ==
    LET M == TLCEval(HMatch(H, K))
        C == {p \in M : HIdentity(H.n[p[1]])}
        x(p) == <<Group(H.n[p[1]]), H.n[p[1]].id>>
        y(p) == <<Group(K.n[p[2]]), K.n[p[2]].id>>
    IN  /\ M # Bad
        /\ \A p, q \in C : (x(p) = x(q)) = (y(p) = y(q))
        /\ \A p \in C : H.n[p[1]].k = "vec" =>
              \/ H.n[p[1]].h = K.n[p[2]].h
              \/ \E q \in C : x(q) = x(p) /\ H.n[q[1]].h # H.n[p[1]].h
=============================================================================
