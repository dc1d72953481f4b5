------------------------------ MODULE IntOpsGen ------------------------------
(* Texts put together from pieces.  The value that IntOps assigns by the outermost    *)
(* operator is compared to that of a machine which reads the tokens once, from left to *)
(* right, with a stack of operators and one of values.                                *)
EXTENDS IntOps, Json
CONSTANTS MaxLen, Emit, Pieces
P1 == {<<49>>, <<48>>, <<57>>, <<43>>, <<45>>, <<42>>, <<47>>, <<40>>, <<41>>, <<32>>, <<120>>, <<97>>,
       <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>}
\* what makes longer texts that are well-formed
P2 == {<<50>>, <<55>>, <<43>>, <<45>>, <<42>>, <<47>>, <<40>>, <<41>>}
VARIABLE h
RECURSIVE Flat(_, _)
Flat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o Flat(ps, i + 1)
Text == Flat(h, 1)
---------------------------------------------------------------------------
Prec(c) == CASE c \in {43, 45} -> 1 [] c \in {42, 47} -> 2 [] OTHER -> 0
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* applies the operators on top of the stack of at least this precedence
RECURSIVE Reduce(_, _, _)
Reduce(ops, vs, p) ==
    IF ops = <<>> \/ Prec(ops[Len(ops)]) < p \/ Prec(ops[Len(ops)]) = 0 THEN <<ops, vs>>
    ELSE Reduce(Front(ops), Append(SubSeq(vs, 1, Len(vs) - 2), Apply(ops[Len(ops)], vs[Len(vs) - 1], vs[Len(vs)])), p)
\* want: an operand comes next
RECURSIVE Machine(_, _, _, _, _)
Machine(t, i, ops, vs, want) ==
    IF i > Len(t) THEN IF want THEN Malformed
                       ELSE LET r == Reduce(ops, vs, 1) IN IF r[1] = <<>> THEN r[2][1] ELSE Malformed
    ELSE LET c == t[i].c IN
         IF want THEN CASE c = 40 -> Machine(t, i + 1, Append(ops, 40), vs, TRUE)
                        [] c = 48 -> Machine(t, i + 1, ops, Append(vs, Good(t[i].d)), FALSE)
                        [] c = 120 -> Machine(t, i + 1, ops, Append(vs, Failed), FALSE)
                        [] OTHER -> Malformed
         ELSE CASE c \in Ops -> LET r == Reduce(ops, vs, Prec(c)) IN Machine(t, i + 1, Append(r[1], c), r[2], TRUE)
                [] c = 41 -> LET r == Reduce(ops, vs, 1) IN
                             IF r[1] = <<>> THEN Malformed ELSE Machine(t, i + 1, Front(r[1]), r[2], FALSE)
                [] OTHER -> Malformed
ByMachine(s) == LET t == Tokens(s, 1, <<>>) IN IF t = Bad THEN Malformed ELSE Machine(t, 1, <<>>, <<>>, TRUE)
---------------------------------------------------------------------------
Init == h = <<>>
Pieces0 == IF Pieces = 1 THEN P1 ELSE P2
\* the longer texts do not go on where no continuation is well-formed
Alive == IF Pieces = 1 \/ h = <<>> THEN TRUE ELSE LET t == Tokens(Text, 1, <<>>)
                                       o == Open(t, 1, 0, <<>>)
                                   IN  /\ \A i \in 1..Len(o) : o[i] >= 0
                                       /\ o[Len(o)] <= MaxLen - Len(h)
                                       /\ t[1].c \in {48, 40}
                                       /\ \A i \in 2..Len(t) : (t[i].c \in {48, 40}) = (t[i - 1].c \in Ops \cup {40})
                                       /\ \A i \in 2..Len(h) : ~(h[i] \in {<<50>>, <<55>>} /\ h[i - 1] \in {<<50>>, <<55>>})
Next == Len(h) < MaxLen /\ Alive /\ \E p \in Pieces0 : h' = Append(h, p)
Spec == Init /\ [][Next]_h
Show == (Emit /\ h # <<>> /\ (Pieces = 1 \/ ValueOf(Text).k # "bad")) => PrintT(<<"B", ToJson([h |-> <<Text>>, same |-> FALSE])>>)
GenInv == ValueOf(Text) = ByMachine(Text) /\ Show
ASSUME \A a, b \in 0..60 : /\ Add(Digits(a), Digits(b)) = Digits(a + b)
                           /\ Mul(Digits(a), Digits(b)) = Digits(a * b)
                           /\ a >= b => Sub(Digits(a), Digits(b)) = Digits(a - b)
                           /\ b > 0 => Div(Digits(a), Digits(b)) = Digits(a \div b)
                           /\ Cmp(Digits(a), Digits(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
ASSUME \A a \in {999, 1000, 12345, 65535, 99999}, b \in {9, 10, 99, 101, 1000, 9999, 20000} :
           Mul(Digits(a), Digits(b)) = Digits(a * b) /\ Div(Digits(a), Digits(b)) = Digits(a \div b) /\ Div(Digits(a * b), Digits(b)) = Digits(a)
ASSUME LET x == <<6, 5, 5, 3, 6>> y == Mul(x, x) IN M32 = Sub(y, <<1>>) /\ M64 = Sub(Mul(y, y), <<1>>)
=============================================================================
