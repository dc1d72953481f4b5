-------------------------------- MODULE Text --------------------------------
(* The text of values that were read, of primitive vectors and of bitvectors, as      *)
(* sequences of code points.  H is what a reader sees of a file (Store); sets and maps *)
(* come in the order in which they are iterated.  np are the characters which the      *)
(* environment (Python's Unicode database) does not print.                             *)
EXTENDS Store

---------------------------------------------------------------------------
(* Decimal numbers: big numbers are sequences of digits to base 10000, lowest first *)
Ten4 == 10000
RECURSIVE MulAdd(_, _, _, _)
\* b * k + c, k <= 65536, c < 65536
MulAdd(b, k, c, i) ==
    IF i > Len(b) THEN (IF c = 0 THEN b ELSE IF c < Ten4 THEN Append(b, c) ELSE b \o <<c % Ten4, c \div Ten4>>)
    ELSE LET x == b[i] * k + c IN MulAdd([b EXCEPT ![i] = x % Ten4], k, x \div Ten4, i + 1)
Times(b, k, c) == MulAdd(b, k, c, 1)
RECURSIVE DivRem(_, _, _, _)
\* <<b \div k, b % k>>, k <= 65536
DivRem(b, k, r, i) ==
    IF i = 0 THEN <<b, r>>
    ELSE LET x == r * Ten4 + b[i] IN DivRem([b EXCEPT ![i] = x \div k], k, x % k, i - 1)
Over(b, k) == DivRem(b, k, 0, Len(b))
Odd(b) == b # <<>> /\ b[1] % 2 = 1

Digit(n) == 48 + n
Dec4(n) == <<Digit(n \div 1000), Digit((n \div 100) % 10), Digit((n \div 10) % 10), Digit(n % 10)>>
RECURSIVE Digits(_)
Digits(b) == IF b = <<>> THEN <<>> ELSE Digits(Tail(b)) \o Dec4(Head(b))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
BigText(b) == IF b = <<>> THEN <<48>> ELSE NoZeros(Digits(b))

\* a machine word: sign and four limbs
IntText(w) ==
    LET b == Times(Times(Times(Times(<<>>, 65536, w[2]), 65536, w[3]), 65536, w[4]), 65536, w[5])
    IN  (IF w[1] = 1 THEN <<45>> ELSE <<>>) \o BigText(b)

\* b * 2^k
RECURSIVE Up(_, _)
Up(b, k) == IF k = 0 THEN b ELSE IF k >= 16 THEN Up(Times(b, 65536, 0), k - 16) ELSE Times(b, 2^k, 0)
\* <<b \div 2^k, whether something is left>>
RECURSIVE Down(_, _, _)
Down(b, k, left) ==
    IF k = 0 THEN <<b, left>>
    ELSE LET j == IF k >= 16 THEN 16 ELSE k  d == Over(b, 2^j) IN Down(d[1], k - j, left \/ d[2] # 0)
\* b / 2^k, to the nearest, to even from the middle
Nearest(b, k) ==
    LET d == Down(b, k - 1, FALSE)  h == Over(d[1], 2)
    IN  IF h[2] = 1 /\ (d[2] \/ Odd(h[1])) THEN Times(h[1], 1, 1) ELSE h[1]

\* a single as C's %f gives it: the exact value, six decimals
FloatText(f) ==
    (IF FSign(f) = 1 THEN <<45>> ELSE <<>>)
    \o (IF FNan(f) THEN <<110, 97, 110>>
        ELSE IF FInf(f) THEN <<105, 110, 102>>
        ELSE LET m == IF FExp(f) = 0 THEN FMan(f) ELSE FMan(f) + 2^23
                 e == (IF FExp(f) = 0 THEN 1 ELSE FExp(f)) - 150
                 full == Times(Times(Times(<<>>, 65536, m \div B16), 65536, m % B16), 1000, 0)
                 mil == Times(full, 1000, 0)
                 n == IF e >= 0 THEN Up(mil, e) ELSE Nearest(mil, -e)
                 ds == Digits(n)
                 pad == [i \in 1..(IF Len(ds) < 7 THEN 7 - Len(ds) ELSE 0) |-> 48] \o ds
                 c == Len(pad) - 6
             IN  NoZeros(SubSeq(pad, 1, c)) \o <<46>> \o SubSeq(pad, c + 1, Len(pad)))

---------------------------------------------------------------------------
(* Strings, as Python writes them *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexText(_, _)
HexText(c, k) == IF k = 0 THEN <<>> ELSE Append(HexText(c \div 16, k - 1), Hex(c % 16))
CharText(c, q, np) ==
    IF c = q \/ c = 92 THEN <<92, c>>
    ELSE IF c = 9 THEN <<92, 116>>
    ELSE IF c = 10 THEN <<92, 110>>
    ELSE IF c = 13 THEN <<92, 114>>
    ELSE IF c < 32 \/ c = 127 THEN <<92, 120>> \o HexText(c, 2)
    ELSE IF c < 127 \/ c \notin np THEN <<c>>
    ELSE IF c < 256 THEN <<92, 120>> \o HexText(c, 2)
    ELSE IF c < B16 THEN <<92, 117>> \o HexText(c, 4)
    ELSE <<92, 85>> \o HexText(c, 8)
StrText(cs, np) ==
    LET has(c) == \E i \in 1..Len(cs) : cs[i] = c
        q == IF has(39) /\ ~has(34) THEN 34 ELSE 39
        RECURSIVE Go(_)
        Go(i) == IF i > Len(cs) THEN <<>> ELSE CharText(cs[i], q, np) \o Go(i + 1)
    IN  <<q>> \o Go(1) \o <<q>>

\* bits, the last one first
BitsText(b) == [i \in 1..Len(b) |-> 48 + b[Len(b) + 1 - i]] \o <<98>>

---------------------------------------------------------------------------
Comma == <<44, 32>>
Dots == <<46, 46, 46>>
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o Comma \o Joined(Tail(ts))
Between(a, ts, b) == a \o Joined(ts) \o b
SetOpen == <<115, 101, 116, 40, 91>>
TrueText == <<84, 114, 117, 101>>
FalseText == <<70, 97, 108, 115, 101>>
NoneText == <<78, 111, 110, 101>>
TypedText(st, x) == IF st = "f" THEN FloatText(x) ELSE IntText(x)
VecText(ts, tup) == IF tup THEN Between(<<40>>, ts, IF Len(ts) = 1 THEN <<44, 41>> ELSE <<41>>)
                    ELSE Between(<<91>>, ts, <<93>>)

\* node i, with the containers on the way to it; vectors in keys and in sets are tuples
RECURSIVE Render(_, _, _, _, _)
Render(H, i, on, tup, np) ==
    LET a == H.n[i]
        R(j, tp) == Render(H, j, on \cup {i}, tp, np)
    IN  CASE a.k = "int"  -> IntText(a.w)
          [] a.k = "flt"  -> FloatText(a.f)
          [] a.k = "bool" -> IF a.v = 1 THEN TrueText ELSE FalseText
          [] a.k = "none" -> NoneText
          [] a.k = "str"  -> StrText(a.c, np)
          [] a.k = "bits" -> BitsText(a.b)
          [] a.k = "vec"  -> IF i \in on THEN <<91>> \o Dots \o <<93>>
                             ELSE IF a.st = "v" THEN VecText([j \in 1..Len(a.ch) |-> R(a.ch[j], tup)], tup)
                             ELSE VecText([j \in 1..Len(a.xs) |-> TypedText(a.st, a.xs[j])], tup)
          [] a.k = "set"  -> IF i \in on THEN SetOpen \o Dots \o <<93, 41>>
                             ELSE Between(SetOpen, [j \in 1..Len(a.ch) |-> R(a.ch[j], TRUE)], <<93, 41>>)
          [] a.k = "map"  -> IF i \in on THEN <<123>> \o Dots \o <<125>>
                             ELSE Between(<<123>>, [j \in 1..Len(a.ks) |-> R(a.ks[j], TRUE) \o <<58, 32>> \o R(a.vs[j], FALSE)], <<125>>)
ValueText(H, i, np) == Render(H, i, {}, FALSE, np)
\* items lo..hi of a vector: within them it is the vector itself that is repeated
SliceText(H, i, lo, hi, np) ==
    LET a == H.n[i] IN
    IF a.st = "v" THEN VecText([j \in 1..(hi - lo) |-> Render(H, a.ch[lo + j], {i}, FALSE, np)], FALSE)
    ELSE VecText([j \in 1..(hi - lo) |-> TypedText(a.st, a.xs[lo + j])], FALSE)
\* a primitive vector
PrimText(t, xs) == VecText([j \in 1..Len(xs) |-> TypedText(t, xs[j])], FALSE)
\* the text of an object that is not to be printed: its type's name and its address
HiddenText(name, addr) ==
    LET RECURSIVE Lead(_)
        Lead(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Lead(Tail(s)) ELSE s
    IN  <<60>> \o name \o <<32, 111, 98, 106, 101, 99, 116, 32, 97, 116, 32, 48, 120>>
        \o Lead(HexText(addr[2], 4) \o HexText(addr[3], 4) \o HexText(addr[4], 4) \o HexText(addr[5], 4)) \o <<62>>
=============================================================================
