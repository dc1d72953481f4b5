------------------------------ MODULE LargeGen ------------------------------
(* What Large computes from segments is what happens to the items: checked for    *)
(* all short sequences of short segments, and all their changes up to a depth.    *)
EXTENDS Large
CONSTANT Depth
VARIABLES q, xs, h
Segs == {[n |-> n, a |-> a, b |-> b, d |-> d, m |-> m, e |-> e] : n \in 0..3, a \in 0..2, b \in {0, 3}, d \in 1..2, m \in {1, 2, 3}, e \in {0, 1}}
Items(s) == [i \in 1..s.n |-> Item(s, i - 1)]
RECURSIVE Flat(_)
Flat(r) == IF r = <<>> THEN <<>> ELSE Items(Head(r)) \o Flat(Tail(r))
Flats == {Const(n, v) : n \in 0..3, v \in 0..1}
Init == \E s \in Segs, t \in Flats \cup {[Const(2, 0) EXCEPT !.a = 1, !.m = 2, !.b = 1]} : q = <<s, t>> /\ xs = Items(s) \o Items(t) /\ h = 0
Next == /\ h < Depth /\ h' = h + 1
        /\ \/ \E v \in 0..1 : q' = q \o <<Const(1, v)>> /\ xs' = Append(xs, v)
           \/ \E v \in 0..1, i \in 0..(Len(xs) - 1) : q' = Put(q, i, v) /\ xs' = [xs EXCEPT ![i + 1] = v]
           \/ \E lo, hi \in 0..Len(xs) : q' = Slice(q, lo, hi) /\ xs' = SubSeq(xs, lo + 1, hi)
           \/ \E v \in {x \in 0..1 : \E i \in 1..Len(xs) : xs[i] = x} :
                 LET i == First(q, v) IN q' = Slice(q, 0, i) \o Slice(q, i + 1, Size(q)) /\ xs' = SubSeq(xs, 1, i) \o SubSeq(xs, i + 2, Len(xs))
Spec == Init /\ [][Next]_<<q, xs, h>>
Agree == Flat(q) = xs /\ Size(q) = Len(xs) /\ \A i \in 1..Len(xs) : At(q, i - 1) = xs[i]
\* sequences of bits: prefix and suffix of equal bits, runs
IsBits == \A i \in 1..Len(q) : q[i].m = 1 /\ q[i].e \in 0..1
Lead(ys, v) == CHOOSE k \in 0..Len(ys) : (\A i \in 1..k : ys[i] = v) /\ (k = Len(ys) \/ ys[k + 1] # v)
RECURSIVE Grow(_, _)
Grow(ns, v) == IF ns = <<>> THEN <<>> ELSE [i \in 1..Head(ns) |-> v] \o Grow(Tail(ns), 1 - v)
BitsAgree == IsBits => /\ \A v \in 0..1 : Run(q, v) = Lead(xs, v) /\ Run(Back(q), v) = Lead(Back(xs), v)
                       /\ Grow(Runs(q, 0, 0), 0) = xs
\* the sorted segment has the items of a fair one, in order; the inverse sorts a projection
SortAgree == \A s \in {q[i] : i \in 1..Min2(1, Len(q))} : (h = 0 /\ s.n > 0 /\ Fair(s)) =>
                LET a == Items(s)  b == Items(Sorted(s)) IN
                /\ \A i \in 1..(s.n - 1) : b[i] <= b[i + 1]
                /\ \A x \in 0..9 : Cardinality({i \in 1..s.n : a[i] = x}) = Cardinality({i \in 1..s.n : b[i] = x})
InverseAgree == h > 0 \/ \A n \in 2..12 : \A a, inv \in 1..(n - 1) : (a * inv) % n = 1 => \A i \in 0..(n - 1) : (a * ((inv * i) % n)) % n = i
=============================================================================
