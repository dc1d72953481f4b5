----------------------------- MODULE HashTable ------------------------------
(* The hash table of sets and maps: open addressing in a power of two of         *)
(* buckets, which are visited in the order                                      *)
(*    i = hash;  perturb = hash;  then  i = 5*i + perturb + 1,  perturb = perturb / 32 *)
(* (32-bit words).  Keys are any values with an equality and a hash.             *)
EXTENDS Words

RECURSIVE NextPow2(_, _)
NextPow2(n, p) == IF p >= n THEN p ELSE NextPow2(n, 2 * p)
NBuckets(n) == IF n = 1 THEN 2 ELSE NextPow2(n + n \div 2, 1)

\* the k-th probe is bucket Bucket(i, B) of the k-th <<i, perturb>>
First(h) == <<h, h>>
Following(s) == <<Add32(Add32(Shl32(s[1], 2), s[1]), Add32(s[2], <<0, 1>>)), Shr32(s[2], 5)>>
Bucket(i, B) == IF B <= B16 THEN i[2] % B ELSE (i[1] % (B \div B16)) * B16 + i[2]     \* B <= 2^31

RECURSIVE ProbesFrom(_, _, _, _)
ProbesFrom(s, B, n, acc) == IF n = 0 THEN acc ELSE ProbesFrom(Following(s), B, n - 1, Append(acc, Bucket(s[1], B)))
\* the first buckets that are looked at; by then, every bucket has been
Probes(h, B) == ProbesFrom(First(h), B, 8 + B, <<>>)
\* the bucket where probing for a key with the hash h ends: the first one for which Stop(bucket) holds; -1 if none does
Probe(h, B, Stop(_)) ==
    LET p == Probes(h, B)
        S == {k \in 1..Len(p) : Stop(p[k])}
    IN  IF S = {} THEN -1 ELSE p[CHOOSE k \in S : \A j \in S : k <= j]

VisitsAll(h, B) == ToSet(Probes(h, B)) = Range0(B)
=============================================================================
