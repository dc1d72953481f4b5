------------------------------- MODULE EvalGen -------------------------------
(* Access expressions put together from pieces, good and bad ones, on a small file.     *)
EXTENDS Eval, Json
CONSTANTS MaxLen, Emit
\* {'': 5, 'a': [{0: bits, -1: 'x'}, [1, 2]], 1: [True, None]}
H0 == [r |-> 1, n |-> <<
    [k |-> "map", id |-> 1, ks |-> <<2, 4, 5>>, vs |-> <<3, 6, 7>>],
    [k |-> "str", c |-> <<>>], [k |-> "int", w |-> W(5)], [k |-> "str", c |-> <<97>>], [k |-> "int", w |-> W(1)],
    [k |-> "vec", st |-> "v", id |-> 2, h |-> 0, ch |-> <<8, 9>>],
    [k |-> "vec", st |-> "v", id |-> 3, h |-> 1, ch |-> <<10, 11>>],
    [k |-> "map", id |-> 4, ks |-> <<12, 13>>, vs |-> <<14, 15>>],
    [k |-> "vec", st |-> "u8", id |-> 5, h |-> 1, xs |-> <<W(1), W(2)>>],
    [k |-> "bool", v |-> 1], [k |-> "none"], [k |-> "int", w |-> W(0)], [k |-> "int", w |-> W(-1)],
    [k |-> "bits", b |-> <<1, 0>>], [k |-> "str", c |-> <<120>>]>>]
S(c) == [k |-> "str", c |-> c]
I(t, n) == [k |-> "int", t |-> t, w |-> W(n)]
\* bytes, and the arguments they ask for
P(e, a) == [e |-> e, a |-> a]
Good == {P(<<91, 48, 93>>, <<>>),            \* [0]
         P(<<91, 43, 48, 49, 32, 93>>, <<>>), \* [+01 ]
         P(<<91, 45, 48, 93>>, <<>>),        \* [-0]
         P(<<91, 45, 49, 93>>, <<>>),        \* [-1]
         P(<<91, 50, 93, 9>>, <<>>),         \* [2] and a tab
         P(<<91, 39, 39, 93>>, <<>>),        \* ['']
         P(<<32, 91, 39, 97, 39, 93>>, <<>>),    \*  ['a']
         P(<<91, 37, 115, 93>>, <<S(<<97>>)>>), P(<<91, 37, 115, 93>>, <<S(<<>>)>>),
         P(<<91, 37, 105, 51, 50, 93>>, <<I("i32", -1)>>), P(<<91, 37, 117, 54, 52, 93>>, <<I("u64", 1)>>),
         P(<<91, 37, 117, 51, 50, 93>>, <<I("u32", 0)>>), P(<<91, 37, 105, 54, 52, 93>>, <<I("i64", 1)>>)}
Wrong == {P(<<91>>, <<>>), P(<<93>>, <<>>), P(<<48>>, <<>>), P(<<91, 93>>, <<>>), P(<<91, 32, 48, 93>>, <<>>), P(<<91, 48, 48, 39, 93>>, <<>>),
          P(<<91, 39, 97, 93>>, <<>>), P(<<91, 45, 93>>, <<>>), P(<<91, 37, 105, 49, 54, 93>>, <<>>), P(<<91, 97, 93>>, <<>>), P(<<91, 43, 45, 49, 93>>, <<>>)}
VARIABLE h
RECURSIVE Chain(_, _)
Chain(ps, x) == IF x > Len(ps) THEN P(<<>>, <<>>) ELSE LET r == Chain(ps, x + 1) IN P(ps[x].e \o r.e, ps[x].a \o r.a)
Init == h = <<>>
Next == Len(h) < MaxLen /\ \E p \in Good \cup Wrong : h' = Append(h, p)
Spec == Init /\ [][Next]_h
\* good pieces are steps, one after the other; anything else leads nowhere
RECURSIVE Walk(_, _, _)
Walk(pl, ps, x) == IF x > Len(ps) \/ pl = Nowhere THEN pl ELSE Walk(EvalFrom(H0, pl, ps[x].e, 1, ps[x].a), ps, x + 1)
Whole(ps) == LET c == Chain(ps, 1) IN Eval(H0, 1, c.e, c.a)
EvalInv ==
    /\ (\A x \in 1..Len(h) : h[x] \in Good) => Whole(h) = Walk(Node(1), h, 1)
    /\ (\E x \in 1..Len(h) : h[x] \in Wrong /\ h[x].e # <<93>>) => Whole(h) = Nowhere \/ \E x \in 1..Len(h) : h[x].e = <<91>> \/ 39 \in {h[x].e[y] : y \in 1..Len(h[x].e)}
    /\ h = <<>> => Whole(h) = Node(1)
Show == (Emit /\ h # <<>>) => PrintT(<<"B", ToJson([h |-> LET c == Chain(h, 1) IN <<c.e, c.a>>, same |-> FALSE])>>)
InvBoth == EvalInv /\ Show
ASSUME WNumeral(TMax("u64")) = <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
ASSUME WNumeral(TMin("i64")) = <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>
ASSUME WNumeral(W(0)) = <<48>> /\ WNumeral(W(-65536)) = <<45, 54, 53, 53, 51, 54>> /\ WNumeral(<<0, 0, 0, 65535, 65535>>) = <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
=============================================================================
