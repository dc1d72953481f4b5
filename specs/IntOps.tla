------------------------------- MODULE IntOps -------------------------------
(* Arithmetic of unsigned integers that reports what does not fit, and expressions    *)
(* over it.  A number is a sequence of decimal digits, most significant first, without *)
(* leading zeros; a checked number is such a number or Over.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Trim(_)
Trim(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Trim(Tail(d)) ELSE d
Zero == <<0>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
\* the digit at 10^i
Dig(d, i) == IF i < Len(d) THEN d[Len(d) - i] ELSE 0
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, 1)
\* sums of columns, units first, to digits; the total is not negative
RECURSIVE Carry(_, _, _)
Carry(cols, i, c) == IF i > Len(cols) THEN IF c = 0 THEN <<>> ELSE Digits(c)
                     ELSE Append(Carry(cols, i + 1, (cols[i] + c) \div 10), (cols[i] + c) % 10)
Max2(x, y) == IF x > y THEN x ELSE y
Add(a, b) == Trim(Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dig(a, i - 1) + Dig(b, i - 1)], 1, 0))
Sub(a, b) == Trim(Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dig(a, i - 1) - Dig(b, i - 1)], 1, 0))
RECURSIVE Column(_, _, _, _)
Column(a, b, i, j) == IF j > i THEN 0 ELSE Dig(a, j) * Dig(b, i - j) + Column(a, b, i, j + 1)
Mul(a, b) == Trim(Carry([i \in 1..(Len(a) + Len(b)) |-> Column(a, b, i - 1, 0)], 1, 0))
RECURSIVE Times(_, _)
\* how often b goes into r
Times(r, b) == IF Cmp(r, b) = -1 THEN 0 ELSE 1 + Times(Sub(r, b), b)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(a, b, i, q, r) ==
    IF i > Len(a) THEN Trim(q)
    ELSE LET r2 == Trim(Append(r, a[i]))
             k == Times(r2, b)
         IN  LongDiv(a, b, i + 1, Append(q, k), Sub(r2, Mul(b, <<k>>)))
Div(a, b) == LongDiv(a, b, 1, <<>>, Zero)

M32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
M64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
Limit(t) == IF t = "u32" THEN M32 ELSE M64

---------------------------------------------------------------------------
(* Checked numbers *)
Over == <<>>
Fit(d, t) == IF Cmp(d, Limit(t)) = 1 THEN Over ELSE d
Arith(f, t, a, b) == IF a = Over \/ b = Over THEN Over
                     ELSE Fit(IF f = "add" THEN Add(a, b) ELSE Mul(a, b), t)

---------------------------------------------------------------------------
(* Expressions.  A text is a sequence of bytes.  Tokens are characters, and digits for *)
(* a number; a text with anything else, or a number of more than 30 digits, has none.  *)
MaxTokens == 512
MaxDigits == 30
IsDigit(c) == c >= 48 /\ c <= 57
Ops == {43, 45, 42, 47}
Signs == Ops \cup {40, 41, 120}
Num(d) == [c |-> 48, d |-> d]
Tok(c) == [c |-> c, d |-> Zero]
Bad == <<[c |-> 0, d |-> Zero]>>
RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN NumEnd(s, i + 1) ELSE i
RECURSIVE Tokens(_, _, _)
Tokens(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] \in {32, 9} THEN Tokens(s, i + 1, acc)
    ELSE IF s[i] \in Signs THEN Tokens(s, i + 1, Append(acc, Tok(s[i])))
    ELSE IF IsDigit(s[i]) THEN
         LET j == NumEnd(s, i)
             d == Trim([x \in 1..(j - i) |-> s[i + x - 1] - 48])
         IN  IF j - i > MaxDigits \/ Cmp(d, M64) = 1 THEN Bad ELSE Tokens(s, j, Append(acc, Num(d)))
    ELSE Bad

\* how many parentheses are open after each token
RECURSIVE Open(_, _, _, _)
Open(t, i, n, acc) == IF i > Len(t) THEN acc
                      ELSE LET m == n + (IF t[i].c = 40 THEN 1 ELSE IF t[i].c = 41 THEN -1 ELSE 0)
                           IN  Open(t, i + 1, m, Append(acc, m))
\* the last operator among cs between tokens a and b that is in no parentheses, or 0
RECURSIVE LastOp(_, _, _, _, _)
LastOp(t, o, a, b, cs) == IF b < a THEN 0
                          ELSE IF t[b].c \in cs /\ o[b] = (IF a = 1 THEN 0 ELSE o[a - 1]) THEN b
                          ELSE LastOp(t, o, a, b - 1, cs)
\* The value of tokens a to b: operators of the same precedence associate to the left, which
\* makes the last one of the lowest precedence the outermost one.  v: [k] is "num", "fail" (well-formed
\* without a value) or "bad" (malformed).
Failed == [k |-> "fail", d |-> Zero]
Malformed == [k |-> "bad", d |-> Zero]
Good(d) == IF Cmp(d, M64) = 1 THEN Failed ELSE [k |-> "num", d |-> d]
Apply(c, x, y) ==
    IF x.k = "bad" \/ y.k = "bad" THEN Malformed
    ELSE IF x.k = "fail" \/ y.k = "fail" THEN Failed
    ELSE CASE c = 43 -> Good(Add(x.d, y.d))
           [] c = 45 -> IF Cmp(x.d, y.d) = -1 THEN Failed ELSE Good(Sub(x.d, y.d))
           [] c = 42 -> Good(Mul(x.d, y.d))
           [] c = 47 -> IF y.d = Zero THEN Failed ELSE Good(Div(x.d, y.d))
RECURSIVE Value(_, _, _, _)
Value(t, o, a, b) ==
    IF a > b THEN Malformed
    ELSE LET p == LastOp(t, o, a, b, {43, 45})
             q == IF p # 0 THEN p ELSE LastOp(t, o, a, b, {42, 47})
         IN  IF q # 0 THEN Apply(t[q].c, Value(t, o, a, q - 1), Value(t, o, q + 1, b))
             ELSE IF a = b THEN IF t[a].c = 48 THEN Good(t[a].d)
                                ELSE IF t[a].c = 120 THEN Failed        \* variables have no value yet
                                ELSE Malformed
             ELSE IF t[a].c = 40 /\ t[b].c = 41 THEN Value(t, o, a + 1, b - 1)
             ELSE Malformed
ValueOf(s) == LET t == Tokens(s, 1, <<>>) IN
              IF t = Bad \/ Len(t) > MaxTokens THEN Malformed ELSE Value(t, Open(t, 1, 0, <<>>), 1, Len(t))

---------------------------------------------------------------------------
(* A context holds the expression that was compiled last *)
None == [k |-> "none", d |-> Zero]
Compile(s) == LET v == ValueOf(s) IN [ok |-> v.k # "bad", st |-> IF v.k = "bad" THEN None ELSE v]
=============================================================================
