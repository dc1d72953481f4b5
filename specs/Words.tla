------------------------------- MODULE Words -------------------------------
(* Machine words.  TLC's integers have 32 bits, so                              *)
(*   - an integer is  <<sign, a3, a2, a1, a0>>, 16-bit limbs, zero has sign 0;   *)
(*   - a 32-bit word is <<hi, lo>>, 16-bit limbs;                               *)
(*   - a byte string is a sequence of numbers 0..255.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bitwise, SequencesExt

B16 == 65536

---------------------------------------------------------------------------
(* Integers *)
W(n) == IF n < 0 THEN <<1, 0, 0, (-n) \div B16, (-n) % B16>> ELSE <<0, 0, 0, n \div B16, n % B16>>
WZero == <<0, 0, 0, 0, 0>>

\* compares magnitudes: -1, 0, 1
RECURSIVE MagCmp(_, _, _)
MagCmp(a, b, i) == IF i > 5 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE MagCmp(a, b, i + 1)
WCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN MagCmp(a, b, 2) ELSE MagCmp(b, a, 2)
WLT(a, b) == WCmp(a, b) < 0
WLE(a, b) == WCmp(a, b) <= 0
WNeg(a) == a[1] = 1
\* the value as a TLC number, for |a| < 2^31
WSmall(a) == a[2] = 0 /\ a[3] = 0 /\ a[4] < 32768
WVal(a) == (IF a[1] = 1 THEN -1 ELSE 1) * (a[4] * B16 + a[5])

\* limits of the machine types
TMin(t) == CASE t = "i8"  -> W(-128)
             [] t = "i16" -> W(-32768)
             [] t = "i32" -> <<1, 0, 0, 32768, 0>>
             [] t = "i64" -> <<1, 32768, 0, 0, 0>>
             [] OTHER     -> WZero
TMax(t) == CASE t = "i8"  -> W(127)
             [] t = "u8"  -> W(255)
             [] t = "i16" -> W(32767)
             [] t = "u16" -> W(65535)
             [] t = "i32" -> <<0, 0, 0, 32767, 65535>>
             [] t = "u32" -> <<0, 0, 0, 65535, 65535>>
             [] t = "i64" -> <<0, 32767, 65535, 65535, 65535>>
             [] t = "u64" -> <<0, 65535, 65535, 65535, 65535>>
InType(w, t) == WLE(TMin(t), w) /\ WLE(w, TMax(t))
TSize(t) == CASE t \in {"i8", "u8"} -> 1 [] t \in {"i16", "u16"} -> 2
              [] t \in {"i32", "u32", "f"} -> 4 [] OTHER -> 8

\* two's complement of a magnitude, as four limbs (most significant first)
Limbs64(w) ==
    IF w[1] = 0 THEN <<w[2], w[3], w[4], w[5]>>
    ELSE LET l4 == (B16 - w[5]) % B16
             c4 == IF w[5] = 0 THEN 1 ELSE 0
             n3 == 65535 - w[4] + c4
             n2 == 65535 - w[3] + n3 \div B16
             n1 == 65535 - w[2] + n2 \div B16
         IN  <<n1 % B16, n2 % B16, n3 % B16, l4>>
\* ...and back, for a signed word
FromLimbs64(l, signed) ==
    IF ~signed \/ l[1] < 32768 THEN <<0, l[1], l[2], l[3], l[4]>>
    ELSE LET r == Limbs64(<<1, l[1], l[2], l[3], l[4]>>) IN <<1, r[1], r[2], r[3], r[4]>>

\* little-endian bytes of an integer, n = 1, 2, 4 or 8
IntBytes(w, n) ==
    LET l == Limbs64(w) IN
    [k \in 1..n |-> LET x == l[4 - ((k - 1) \div 2)] IN IF k % 2 = 1 THEN x % 256 ELSE x \div 256]
BytesInt(b, signed) ==
    LET n == Len(b)
        neg == signed /\ b[n] >= 128
        at(k) == IF k <= n THEN b[k] ELSE IF neg THEN 255 ELSE 0
        limb(k) == at(2 * k + 1) + 256 * at(2 * k + 2)
    IN  FromLimbs64(<<limb(3), limb(2), limb(1), limb(0)>>, signed)

---------------------------------------------------------------------------
(* 32-bit words *)
Add32(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div B16) % B16, lo % B16>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* 16 x 16 bits -> <<hi, lo>>
Mul16(x, y) == LET p0 == x * (y % 256)
                   p1 == x * (y \div 256)
                   t  == p0 + (p1 % 256) * 256
               IN  <<(p1 \div 256) + (t \div B16), t % B16>>
Mul32(a, b) == LET m == Mul16(a[2], b[2])
               IN  <<(m[1] + Mul16(a[1], b[2])[2] + Mul16(a[2], b[1])[2]) % B16, m[2]>>
Shl32(a, k) == IF k = 0 THEN a ELSE     \* 0 < k < 16
    <<((a[1] * 2^k) % B16) + (a[2] \div 2^(16 - k)), (a[2] * 2^k) % B16>>
Shr32(a, k) == IF k = 0 THEN a ELSE
    <<a[1] \div 2^k, (a[2] \div 2^k) + (a[1] % 2^k) * 2^(16 - k)>>
U32(n) == <<n \div B16, n % B16>>
\* the low 32 bits of an integer
Low32(w) == LET l == Limbs64(w) IN <<l[3], l[4]>>

Range0(n) == IF n = 0 THEN {} ELSE 0..(n - 1)
=============================================================================
