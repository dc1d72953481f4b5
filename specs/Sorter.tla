------------------------------- MODULE Sorter -------------------------------
(* Sorting as it can be observed.                                                *)
(* An array is reached through comparisons of two places and swaps of two places; *)
(* whatever is compared and swapped, the places exist, only swaps change it, and  *)
(* success means that it is sorted.  A comparison that fails fails the sort.      *)
(* sort_proj orders indices by the values they select in the first value vector,  *)
(* those with equal values by the second, and so on.                             *)
EXTENDS Words, Floats, SequencesExt, TLC

Nan(t, x) == t = "f" /\ FNan(x)
Lt(t, x, y) == IF t = "f" THEN FCmp(x, y) = -1 ELSE WLT(x, y)
Le(t, x, y) == ~Lt(t, y, x)
Sorted(t, xs) == \A i \in 1..(Len(xs) - 1) : Le(t, xs[i], xs[i + 1])
Count(xs, x) == Cardinality({i \in 1..Len(xs) : xs[i] = x})
Perm(xs, ys) == Len(xs) = Len(ys) /\ \A x \in {xs[i] : i \in 1..Len(xs)} : Count(xs, x) = Count(ys, x)
IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}

SortOK(t, xs, ys) == Perm(xs, ys) /\ ((\A i \in 1..Len(xs) : ~Nan(t, xs[i])) => Sorted(t, ys))

\* a value vector is [t, xs]; t is "v" for a vector of mixed values, "o" for any other object
RECURSIVE LexLT(_, _, _, _)
LexLT(vs, k, i, j) ==        \* is i to come before j, as vectors k.. see it
    IF k > Len(vs) THEN FALSE
    ELSE LET a == vs[k].xs[i + 1]  b == vs[k].xs[j + 1] IN
         IF Lt(vs[k].t, a, b) THEN TRUE ELSE IF Lt(vs[k].t, b, a) THEN FALSE ELSE LexLT(vs, k + 1, i, j)
Idx(w) == IF WNeg(w) \/ ~WSmall(w) THEN -1 ELSE WVal(w)
ProjFails(pt, p, vs) ==
    \/ pt = "f" \/ Len(vs) = 0 \/ Len(vs) > 16
    \/ \E k \in 1..Len(vs) : vs[k].t \in {"v", "o"} \/ Len(vs[k].xs) # Len(vs[1].xs)
    \/ \E i \in 1..Len(p) : Idx(p[i]) < 0 \/ Idx(p[i]) >= Len(vs[1].xs)
NoNan(vs) == \A k \in 1..Len(vs) : \A i \in 1..Len(vs[k].xs) : ~Nan(vs[k].t, vs[k].xs[i])
ProjOK(pt, p, vs, q) ==
    Perm(p, q) /\ (NoNan(vs) => \A i \in 1..(Len(q) - 1) : ~LexLT(vs, 1, Idx(q[i + 1]), Idx(q[i])))
=============================================================================
