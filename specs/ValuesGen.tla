----------------------------- MODULE ValuesGen ------------------------------
(* The laws of hash, order and equality, on a universe of values.                *)
EXTENDS Values, Json

CONSTANTS Deep2, Emit
I(n) == [k |-> "int", w |-> W(n)]
BigI(s, a, b, c, d) == [k |-> "int", w |-> <<s, a, b, c, d>>]
F(hi, lo) == [k |-> "flt", f |-> <<hi, lo>>]
FN(n) == [k |-> "flt", f |-> IntF32(n)]
S(c) == [k |-> "str", c |-> c]
Bts(b) == [k |-> "bits", b |-> b]
Sq(xs) == [k |-> "seq", xs |-> xs]
Nums == {I(0), I(1), I(-1), I(2), I(255), I(256), I(16777216), I(16777217),
         BigI(0, 0, 0, 32767, 65535), BigI(0, 0, 0, 32768, 0), BigI(0, 0, 0, 65535, 65535), BigI(1, 0, 0, 32768, 0),
         BigI(0, 0, 1, 0, 0), BigI(0, 0, 1, 0, 1), BigI(1, 0, 0, 32768, 1), BigI(1, 0, 0, 32768, 128), BigI(0, 32768, 0, 0, 0), BigI(1, 32768, 0, 0, 0), BigI(0, 65535, 65535, 65535, 65535),
         FN(0), F(32768, 0), FN(1), FN(-1), FN(2), FN(255), F(16256, 1), F(16128, 0), F(48896, 0), F(19328, 0), F(20224, 0), F(52992, 0), F(20352, 0), F(52992, 1), F(24320, 0), F(57088, 0), F(24448, 0),
         F(32640, 0), F(65408, 0), F(0, 1), F(32768, 1),
         [k |-> "bool", v |-> 0], [k |-> "bool", v |-> 1]}
Nan == F(32704, 0)
Strs == {S(<<>>), S(<<97>>), S(<<98>>), S(<<97, 97>>), S(<<97, 98>>), S(<<233>>), S(<<8364>>), S(<<65535>>), S(<<65536>>), S(<<1114111>>), S(<<97, 65536>>), S(<<55296>>)}
Bitss == {Bts(b) : b \in UNION {[1..n -> {0, 1}] : n \in 0..3}} \cup {Bts([i \in 1..9 |-> IF i = 9 THEN 1 ELSE 0]), Bts([i \in 1..8 |-> 0]), Bts([i \in 1..9 |-> 0])}
Base == Nums \cup Strs \cup Bitss \cup {[k |-> "none"], Nan}
Few == {I(0), I(1), FN(1), F(32768, 0), FN(0), [k |-> "bool", v |-> 1], [k |-> "none"], S(<<97>>), Bts(<<1>>), BigI(0, 0, 1, 0, 0), F(20352, 0), Sq(<<>>), Sq(<<I(1)>>), Sq(<<FN(1)>>), Nan}
Seqs == {Sq(s) : s \in UNION {[1..n -> Few] : n \in 0..Deep2}}
U == Base \cup Seqs

VARIABLES a, b
None == [k |-> "none"]
Init == a \in U /\ b = None
Next == b = None /\ b' \in U /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
EqHash == Eq(a, b) => Hash(a) = Hash(b)
Agree == /\ (Cmp(a, b) = 0 => Eq(a, b))
         /\ (Eq(a, b) => Cmp(a, b) = 0)
AntiSym == LET c == Cmp(a, b) d == Cmp(b, a) IN IF c \in {-1, 0, 1} THEN d = -c ELSE d = c
HasNan(v) == v = Nan \/ (v.k = "seq" /\ \E i \in 1..Len(v.xs) : v.xs[i] = Nan)
Reflexive == Eq(a, a) = ~HasNan(a)
Trans == \A c \in (IF Num(a) THEN Nums ELSE IF a.k = "str" THEN Strs ELSE IF a.k = "bits" THEN Bitss ELSE IF a.k = "seq" THEN Seqs ELSE {}) :
            /\ (Eq(a, b) /\ Eq(b, c)) => Eq(a, c)
            /\ (Cmp(a, b) \in {-1, 0} /\ Cmp(b, c) \in {-1, 0} /\ Cmp(a, c) \in {-1, 0, 1}) =>
                    Cmp(a, c) = IF Cmp(a, b) = 0 /\ Cmp(b, c) = 0 THEN 0 ELSE -1
InvTrans == Trans
Inv == EqHash /\ Agree /\ AntiSym /\ Reflexive
Show == Emit => PrintT(<<"B", ToJson([h |-> <<a, b>>, same |-> FALSE])>>)
=============================================================================
