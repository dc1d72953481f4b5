------------------------------- MODULE TextGen -------------------------------
(* For all small graphs (StoreGen): the text of what is read has an ellipsis just if a  *)
(* container contains itself, and its brackets match.                               *)
EXTENDS StoreGen, Text
Inside(H, i) == LET RECURSIVE Go(_)
                    Items(j) == LET a == H.n[j] IN
                               CASE a.k = "vec" /\ a.st = "v" -> {a.ch[x] : x \in 1..Len(a.ch)}
                                 [] a.k = "set" -> {a.ch[x] : x \in 1..Len(a.ch)}
                                 [] a.k = "map" -> {a.ks[x] : x \in 1..Len(a.ks)} \cup {a.vs[x] : x \in 1..Len(a.vs)}
                                 [] OTHER -> {}
                    Go(S) == LET T == S \cup UNION {Items(j) : j \in S} IN IF T = S THEN S ELSE Go(T)
                IN  <<Go(Items(i)), Go({i})>>
Cyclic(H, i) == \E j \in Inside(H, i)[2] : j \in Inside(H, j)[1]
HasDots(t) == \E x \in 1..(Len(t) - 2) : SubSeq(t, x, x + 2) = Dots
Closes(c) == CASE c = 41 -> 40 [] c = 93 -> 91 [] c = 125 -> 123
RECURSIVE Matched(_, _, _)
Matched(t, x, open) ==
    IF x > Len(t) THEN open = <<>>
    ELSE IF t[x] \in {40, 91, 123} THEN Matched(t, x + 1, <<t[x]>> \o open)
    ELSE IF t[x] \in {41, 93, 125} THEN open # <<>> /\ Head(open) = Closes(t[x]) /\ Matched(t, x + 1, Tail(open))
    ELSE Matched(t, x + 1, open)
TextInv ==
    LET H == Write(G) IN
    \A i \in 1..Len(H.n) :
        LET t == ValueText(H, i, {}) IN
        /\ HasDots(t) = Cyclic(H, i) /\ Matched(t, 1, <<>>)
        \* all of a vector is the vector
        /\ H.n[i].k = "vec" => SliceText(H, i, 0, Len(IF H.n[i].st = "v" THEN H.n[i].ch ELSE H.n[i].xs), {}) = t
InvBoth == TextInv /\ Show
\* numbers whose text is known
ASSUME /\ IntText(W(0)) = <<48>> /\ IntText(W(-10203)) = <<45, 49, 48, 50, 48, 51>>
       /\ IntText(TMax("u64")) = <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
       \* 0.5, -0.1 (as a single), 2^-7 = 0.0078125 (to even: 0.007812), 3 * 2^-7 = 0.0234375 (0.023438), 0
       /\ FloatText(<<16128, 0>>) = <<48, 46, 53, 48, 48, 48, 48, 48>>
       /\ FloatText(<<48588, 52429>>) = <<45, 48, 46, 49, 48, 48, 48, 48, 48>>
       /\ FloatText(<<15360, 0>>) = <<48, 46, 48, 48, 55, 56, 49, 50>>
       /\ FloatText(<<15552, 0>>) = <<48, 46, 48, 50, 51, 52, 51, 56>>
       /\ FloatText(<<32768, 0>>) = <<45, 48, 46, 48, 48, 48, 48, 48, 48>>
=============================================================================
