------------------------------ MODULE Bentley -------------------------------
(* The sort that sort() and sort_proj() run (src/custom_sort.c): a quicksort that *)
(* gathers what equals the pivot at both ends, goes over to insertion sort below  *)
(* T1 items, and takes the median of medians above T2.  Here the thresholds are   *)
(* small, so that every path is taken by arrays which can be enumerated.  The     *)
(* implementation is bound to Sorter (any sequence of comparisons and swaps that  *)
(* ends in a sorted array), which this machine refines, and not to its steps.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, T1, T2
VARIABLES arr, work, orig
\* arr: 0..n-1 -> 0..K-1;  work: the segments <<a, n>> left to sort
Cmp(f, i, j) == IF f[i] < f[j] THEN -1 ELSE IF f[i] > f[j] THEN 1 ELSE 0
Swap(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]
RECURSIVE Sink(_, _, _)
Sink(f, pl, a) == IF pl > a /\ Cmp(f, pl - 1, pl) > 0 THEN Sink(Swap(f, pl, pl - 1), pl - 1, a) ELSE f
RECURSIVE Insertion(_, _, _, _)
Insertion(f, pm, a, n) == IF pm < a + n THEN Insertion(Sink(f, pm, a), pm + 1, a, n) ELSE f
Med3(f, a, b, c) == IF Cmp(f, a, b) < 0 THEN (IF Cmp(f, b, c) < 0 THEN b ELSE IF Cmp(f, a, c) < 0 THEN c ELSE a)
                    ELSE (IF Cmp(f, b, c) > 0 THEN b ELSE IF Cmp(f, a, c) < 0 THEN a ELSE c)
Presorted(f, a, n) == \A i \in (a + 1)..(a + n - 1) : f[i - 1] <= f[i]
Pivot(f, a, n) ==
    LET pm == a + (n \div 2)  pl == a  pn == a + n - 1  d == n \div 8 IN
    IF n <= T1 THEN pm
    ELSE IF n <= T2 THEN Med3(f, pl, pm, pn)
    ELSE Med3(f, Med3(f, pl, pl + d, pl + 2 * d), Med3(f, pm - d, pm, pm + d), Med3(f, pn - 2 * d, pn - d, pn))
RECURSIVE Up(_, _), Down(_, _), Cross(_, _)
Up(s, a) == IF s.pb <= s.pc /\ Cmp(s.f, s.pb, a) <= 0
            THEN IF Cmp(s.f, s.pb, a) = 0 THEN Up([s EXCEPT !.f = Swap(@, s.pa, s.pb), !.pa = @ + 1, !.pb = @ + 1], a)
                 ELSE Up([s EXCEPT !.pb = @ + 1], a)
            ELSE s
Down(s, a) == IF s.pb <= s.pc /\ Cmp(s.f, s.pc, a) >= 0
              THEN IF Cmp(s.f, s.pc, a) = 0 THEN Down([s EXCEPT !.f = Swap(@, s.pc, s.pd), !.pd = @ - 1, !.pc = @ - 1], a)
                   ELSE Down([s EXCEPT !.pc = @ - 1], a)
              ELSE s
Cross(s, a) == LET t == Down(Up(s, a), a) IN
               IF t.pb > t.pc THEN t ELSE Cross([t EXCEPT !.f = Swap(@, t.pb, t.pc), !.pb = @ + 1, !.pc = @ - 1], a)
RECURSIVE VecSwap(_, _, _, _)
VecSwap(f, x, y, r) == IF r = 0 THEN f ELSE VecSwap(Swap(f, x, y), x + 1, y + 1, r - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Init == /\ \E n \in 0..N : \E f \in [0..(n - 1) -> 0..(K - 1)] : arr = f /\ orig = f /\ work = <<<<0, n>>>>
Seg == work[Len(work)]
Pop == SubSeq(work, 1, Len(work) - 1)
Step ==
    /\ work # <<>>
    /\ LET a == Seg[1]  n == Seg[2] IN
       IF n < T1 THEN arr' = Insertion(arr, a + 1, a, n) /\ work' = Pop
       ELSE IF Presorted(arr, a, n) THEN arr' = arr /\ work' = Pop
       ELSE LET s0 == [f |-> Swap(arr, a, Pivot(arr, a, n)), pa |-> a + 1, pb |-> a + 1, pc |-> a + n - 1, pd |-> a + n - 1]
                s  == Cross(s0, a)
                r1 == Min2(s.pa - a, s.pb - s.pa)
                r2 == Min2(s.pd - s.pc, a + n - s.pd - 1)
                f1 == VecSwap(s.f, a, s.pb - r1, r1)
                f2 == VecSwap(f1, s.pb, a + n - r2, r2)
                lo == s.pb - s.pa
                hi == s.pd - s.pc
            IN  arr' = f2 /\ work' = Pop \o (IF hi > 1 THEN <<<<a + n - hi, hi>>>> ELSE <<>>) \o (IF lo > 1 THEN <<<<a, lo>>>> ELSE <<>>)
    /\ UNCHANGED orig
Next == Step
Spec == Init /\ [][Next]_<<arr, work, orig>> /\ WF_<<arr, work, orig>>(Next)
Count(f, v) == Cardinality({i \in DOMAIN f : f[i] = v})
IsPerm == \A v \in 0..(K - 1) : Count(arr, v) = Count(orig, v)
\* outside of the segments left to sort everything is where it belongs
InSeg(i, s) == s[1] <= i /\ i < s[1] + s[2]
Placed == \A i, j \in DOMAIN arr : i < j => (arr[i] <= arr[j] \/ \E k \in 1..Len(work) : InSeg(i, work[k]) /\ InSeg(j, work[k]))
\* the work shrinks, so it ends
RECURSIVE Left(_)
Left(w) == IF w = <<>> THEN 0 ELSE w[1][2] * w[1][2] + 1 + Left(Tail(w))
Shrinks == [][Left(work') < Left(work)]_<<arr, work, orig>>
Ends == <>(work = <<>>)
Done == work = <<>> => \A i, j \in DOMAIN arr : i < j => arr[i] <= arr[j]
=============================================================================
