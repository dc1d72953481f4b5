------------------------------- MODULE Floats -------------------------------
(* IEEE-754.  A double is <<sign, exponent (11), m23, l29>>: the mantissa's      *)
(* upper 23 and lower 29 bits.  A single is a 32-bit word <<hi, lo>>.           *)
EXTENDS Words

F32(s, e, m) == <<s * 32768 + e * 128 + m \div B16, m % B16>>
FSign(f) == f[1] \div 32768
FExp(f)  == (f[1] % 32768) \div 128
FMan(f)  == (f[1] % 128) * B16 + f[2]
FNan(f)  == FExp(f) = 255 /\ FMan(f) # 0
FInf(f)  == FExp(f) = 255 /\ FMan(f) = 0
FZero(f) == FExp(f) = 0 /\ FMan(f) = 0

\* conversion of a double to a single, round to nearest even; NaN is one value here
Narrow(d) ==
    LET s == d[1]  e == d[2]  m == d[3]  l == d[4]  half == 2^28
    IN  IF e = 2047 THEN (IF m = 0 /\ l = 0 THEN F32(s, 255, 0) ELSE <<32704, 0>>)
        ELSE LET E == e - 1023 + 127 IN
        IF E >= 255 THEN F32(s, 255, 0)
        ELSE IF E >= 1
        THEN LET up == l > half \/ (l = half /\ m % 2 = 1)
                 x  == E * 2^23 + m       \* carry goes into the exponent
                 y  == IF up THEN x + 1 ELSE x
             IN  <<s * 32768 + y \div B16, y % B16>>
        ELSE LET k == 1 - E               \* subnormal: shift the 24-bit mantissa right by k
                 full == 2^23 + m
             IN  IF e = 0 \/ k > 24 THEN <<s * 32768, 0>>
                 ELSE LET q == full \div 2^k
                          r == full % 2^k
                          h == 2^(k - 1)
                          up == r > h \/ (r = h /\ (l > 0 \/ q % 2 = 1))
                          y == IF up THEN q + 1 ELSE q
                      IN  <<s * 32768 + y \div B16, y % B16>>

\* comparison of singles: -1, 0, 1, or 2 (unordered)
FMag(f) == (f[1] % 32768) * B16 + f[2]
FCmp(a, b) ==
    IF FNan(a) \/ FNan(b) THEN 2
    ELSE IF FZero(a) /\ FZero(b) THEN 0
    ELSE IF FSign(a) # FSign(b) THEN (IF FSign(a) = 1 THEN -1 ELSE 1)
    ELSE LET c == IF FMag(a) < FMag(b) THEN -1 ELSE IF FMag(a) > FMag(b) THEN 1 ELSE 0
         IN  IF FSign(a) = 1 THEN -c ELSE c
FEq(a, b) == FCmp(a, b) = 0

\* a small integer (|n| < 2^24) as a single
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
IntF32(n) == IF n = 0 THEN <<0, 0>>
             ELSE LET a == IF n < 0 THEN -n ELSE n
                      k == Log2(a)
                  IN  F32(IF n < 0 THEN 1 ELSE 0, 127 + k, (a - 2^k) * 2^(23 - k))
\* the same for any integer, rounding to nearest even
WBit(w, k) == (w[5 - (k \div 16)] \div 2^(k % 16)) % 2       \* bit k of the magnitude
WTop(w) == LET S == {k \in 0..63 : WBit(w, k) = 1} IN IF S = {} THEN -1 ELSE CHOOSE k \in S : \A j \in S : j <= k
WF32(w) ==
    LET k == WTop(w) IN
    IF k < 0 THEN <<0, 0>>
    ELSE IF k <= 23 THEN LET a == w[4] * B16 + w[5] IN F32(w[1], 127 + k, (a - 2^k) * 2^(23 - k))
    ELSE LET RECURSIVE Top24(_, _)
             Top24(i, acc) == IF i < k - 23 THEN acc ELSE Top24(i - 1, acc * 2 + WBit(w, i))
             m24 == Top24(k, 0)
             rb == WBit(w, k - 24)
             st == \E j \in 0..(k - 25) : WBit(w, j) = 1
             up == rb = 1 /\ (st \/ m24 % 2 = 1)
             x == (127 + k) * 2^23 + (m24 - 2^23) + (IF up THEN 1 ELSE 0)
         IN  <<w[1] * 32768 + x \div B16, x % B16>>

\* an integral single as an integer (magnitude < 2^63), or <<>> if it is not integral or too large
FInt(f) ==
    IF FZero(f) THEN WZero
    ELSE IF FExp(f) = 255 \/ FExp(f) < 127 \/ FExp(f) > 127 + 62 THEN <<>>
    ELSE LET k == FExp(f) - 127
             m == 2^23 + FMan(f)
         IN  IF k <= 23
             THEN IF m % 2^(23 - k) # 0 THEN <<>> ELSE LET a == m \div 2^(23 - k) IN <<FSign(f), 0, 0, a \div B16, a % B16>>
             ELSE LET sh == k - 23
                      bit(j) == IF j < sh \/ j > sh + 23 THEN 0 ELSE (m \div 2^(j - sh)) % 2
                      limb(i) == LET RECURSIVE Sum(_, _)
                                     Sum(j, acc) == IF j > 15 THEN acc ELSE Sum(j + 1, acc + bit(16 * i + j) * 2^j)
                                 IN  Sum(0, 0)
                  IN  <<FSign(f), limb(3), limb(2), limb(1), limb(0)>>
\* exact comparison of an integer with a single (not NaN)
IntFCmp(w, f) ==
    IF FInf(f) THEN (IF FSign(f) = 1 THEN 1 ELSE -1)
    ELSE IF FExp(f) > 127 + 62 /\ FExp(f) >= 127 + 64 THEN (IF FSign(f) = 1 THEN 1 ELSE -1)
    ELSE IF FExp(f) = 127 + 63 THEN      \* 2^63 <= |f| < 2^64
        LET m == 2^23 + FMan(f)
            g == <<FSign(f), m \div 256, (m % 256) * 256, 0, 0>>
        IN  WCmp(w, g)
    ELSE LET g == FInt(f) IN
         IF g # <<>> THEN WCmp(w, g)
         ELSE \* not integral, |f| < 2^23: compare with the truncation
              LET k == FExp(f) - 127
                  a == IF k < 0 THEN 0 ELSE (2^23 + FMan(f)) \div 2^(23 - k)
                  t == IF a = 0 THEN WZero ELSE <<FSign(f), 0, 0, a \div B16, a % B16>>
                  c == WCmp(w, t)
              IN  IF c # 0 THEN c ELSE IF FSign(f) = 1 THEN 1 ELSE -1
=============================================================================
