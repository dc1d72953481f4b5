------------------------------ MODULE Traverse ------------------------------
(* C programs that go through a whole file: a walk with a callback (which goes on into *)
(* a value's parts, passes them over, or ends the walk), iteration of sets and maps,    *)
(* entries with a hash, numbers of containers, and the debugging text of a value.       *)
(* P is a file's bytes as parsed by Format, its values are <<type, hi, lo>>.            *)
(* State of a walk: the values still to be visited with their depths, or Ended.         *)
EXTENDS Format, Text

Ended == << <<"ended">> >>
In == 0  Past == 1  Stop == 2
\* parts of a value in the order in which they are visited: the vectors of a table are values as well
PartsOf(P, v) == CASE v[1] \in {0, 1} -> Items(P, v)
                   [] v[1] = 17 -> <<Part(P, v, 1), Part(P, v, 2)>>
                   [] v[1] = 18 -> <<Part(P, v, 1), Part(P, v, 2), Part(P, v, 3)>>
                   [] OTHER -> <<>>
\* one visit: the first of todo is visited, with the answer act; ps are its parts
Visit(todo, ps, act) ==
    CASE act = Stop -> Ended
      [] act = Past -> Tail(todo)
      [] act = In -> [j \in 1..Len(ps) |-> <<ps[j], todo[1][2] + 1>>] \o Tail(todo)
Finished(todo) == todo = <<>> \/ todo = Ended

\* distinct containers have distinct numbers below N; everything else that is empty has 0
NContainers(P) == 1 + P.n[tV] + P.n[tE] + P.n[tM]
Number(P, v) == CASE v[1] = 9 -> 0
                  [] v[1] \in VectorTypes -> 1 + Index(v)
                  [] v[1] = 17 -> 1 + P.n[tV] + Index(v)
                  [] v[1] = 18 -> 1 + P.n[tV] + P.n[tE] + Index(v)

Slots(P, v) == SetToSortSeq(Full(P, v), <)
KeysAt(P, v) == LET ks == Items(P, Part(P, v, 2)) s == Slots(P, v) IN [j \in 1..Len(s) |-> ks[s[j]]]
ValuesAt(P, v) == IF v[1] = 17 THEN <<>> ELSE LET ks == Items(P, Part(P, v, 3)) s == Slots(P, v) IN [j \in 1..Len(s) |-> ks[s[j]]]
\* the slots of keys with hash h (which are found, one or another of them perhaps twice, as probing may come by again)
WithHash(P, v, h) == {i \in Full(P, v) : Hash(TreeV(P, Items(P, Part(P, v, 2))[i])) = h}
Entry(P, v, i) == <<Items(P, Part(P, v, 2))[i], IF v[1] = 17 THEN <<0, 0, 0>> ELSE Items(P, Part(P, v, 3))[i]>>

---------------------------------------------------------------------------
(* Debugging text *)
Quoted(c) == <<34>> \o [i \in 1..Len(c) |-> IF c[i] < 128 THEN c[i] ELSE 63] \o <<34>>
RECURSIVE Commas(_)
Commas(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44>> \o Commas(Tail(ts))
\* a single to the nearest integer, to even from the middle
WholeText(f) ==
    (IF FSign(f) = 1 THEN <<45>> ELSE <<>>)
    \o (IF FNan(f) THEN <<110, 97, 110>>
        ELSE IF FInf(f) THEN <<105, 110, 102>>
        ELSE LET m == IF FExp(f) = 0 THEN FMan(f) ELSE FMan(f) + 2^23
                 e == (IF FExp(f) = 0 THEN 1 ELSE FExp(f)) - 150
                 b == Times(Times(<<>>, 65536, m \div B16), 65536, m % B16)
             IN  BigText(IF e >= 0 THEN Up(b, e) ELSE Nearest(b, -e)))
Comparable(ts) == \A i, j \in 1..Len(ts) : i = j \/ Cmp(ts[i], ts[j]) \in {-1, 1}
Before1(ts, i, j) == Cmp(ts[i], ts[j]) = -1
\* node i of what is read; keys in their order, if they have one
RECURSIVE Debug(_, _, _)
Debug(H, i, on) ==
    LET a == H.n[i]
        R(j) == Debug(H, j, on \cup {i})
        again == \E j \in on : H.n[j].k = a.k /\ H.n[j].id = a.id
        order(ks) == LET ts == TLCEval([j \in 1..Len(ks) |-> TreeH(H, ks[j])]) IN
                     IF Comparable(ts) THEN SetToSortSeq(1..Len(ks), LAMBDA x, y : Before1(ts, x, y)) ELSE [j \in 1..Len(ks) |-> j]
    IN  CASE a.k = "int"  -> IntText(a.w)
          [] a.k = "flt"  -> FloatText(a.f)
          [] a.k = "bool" -> IF a.v = 1 THEN TrueText ELSE FalseText
          [] a.k = "none" -> <<78, 85, 76, 76>>
          [] a.k = "str"  -> Quoted(a.c)
          [] a.k = "bits" -> <<60>> \o [j \in 1..Len(a.b) |-> 48 + a.b[j]] \o <<62>>
          [] a.k = "vec"  -> IF a.st = "v" THEN IF again THEN <<91>> \o Dots \o <<93>>
                                                ELSE (IF H.refs[i][1] = 1 THEN <<72>> ELSE <<>>) \o <<91>> \o Commas([j \in 1..Len(a.ch) |-> R(a.ch[j])]) \o <<93>>
                             ELSE (IF H.refs[i][1] \in {0, 9} THEN <<>> ELSE <<72>>) \o <<91>>
                                  \o Commas([j \in 1..Len(a.xs) |-> IF a.st = "f" THEN WholeText(a.xs[j]) ELSE IntText(a.xs[j])]) \o <<93>>
          [] a.k = "set"  -> SetOpen \o (IF again THEN Dots ELSE LET s == order(a.ch) IN Joined([j \in 1..Len(s) |-> R(a.ch[s[j]])])) \o <<93, 41>>
          [] a.k = "map"  -> <<123>> \o (IF again THEN Dots
                                         ELSE LET s == order(a.ks) IN Joined([j \in 1..Len(s) |-> R(a.ks[s[j]]) \o <<58, 32>> \o R(a.vs[s[j]])])) \o <<125>>
DebugText(H, i) == Debug(H, i, {}) \o <<10>>
\* every set and map has an order
RECURSIVE Below(_, _, _)
Below(H, todo, done) ==
    IF todo = {} THEN done
    ELSE LET kids(i) == LET a == H.n[i] IN
                 CASE a.k = "vec" /\ a.st = "v" -> ToSet(a.ch) [] a.k = "set" -> ToSet(a.ch) [] a.k = "map" -> ToSet(a.ks) \cup ToSet(a.vs) [] OTHER -> {}
         IN  Below(H, (UNION {kids(i) : i \in todo}) \ (done \cup todo), done \cup todo)
Ordered(H, i) == \A j \in Below(H, {i}, {}) : LET a == H.n[j] IN
    CASE a.k = "set" -> Comparable([x \in 1..Len(a.ch) |-> TreeH(H, a.ch[x])])
      [] a.k = "map" -> Comparable([x \in 1..Len(a.ks) |-> TreeH(H, a.ks[x])])
      [] OTHER -> TRUE
\* in no order, there are the same characters
Often(t) == [c \in ToSet(t) |-> Cardinality({i \in 1..Len(t) : t[i] = c})]
DebugOk(H, i, t) == LET d == TLCEval(DebugText(H, i)) IN IF Ordered(H, i) THEN t = d ELSE Len(t) = Len(d) /\ Often(t) = Often(d)
=============================================================================
