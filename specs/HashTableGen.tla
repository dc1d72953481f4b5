--------------------------- MODULE HashTableGen -----------------------------
(* Every table that results from putting different keys, with any hashes, into a *)
(* set or map in any order: each key is found, where it was put, every other one *)
(* is not found, and searching ends.                                            *)
EXTENDS HashTable, TLC, Json
CONSTANTS NKeys,      \* all keys: 1..NKeys
          NPut,       \* how many are put into the table
          Emit
\* hashes that agree in the lowest 1, 2, 3, 4 bits, are apart by perturbation only, or wrap around
Hashes == <<<<0, 0>>, <<0, 8>>, <<0, 32>>, <<32768, 0>>, <<65535, 65535>>>>
VARIABLES hs,         \* the hash of each key (an index)
          put,        \* the keys in the table, in the order they were put there
          tab
vars == <<hs, put, tab>>
B == NBuckets(NPut)
H(k) == Hashes[hs[k]]
Absent == 0

\* where a search for k ends (equality of keys is only asked for if the hashes are the same)
Ends(t, k) == Probe(H(k), B, LAMBDA b : t[b] = Absent \/ (H(t[b]) = H(k) /\ t[b] = k))

Init == hs \in [1..NKeys -> 1..Len(Hashes)] /\ put = <<>> /\ tab = [b \in Range0(B) |-> Absent]
Put(k) == /\ Len(put) < NPut
          /\ \A i \in 1..Len(put) : put[i] # k
          /\ put' = Append(put, k)
          /\ tab' = [tab EXCEPT ![Ends(tab, k)] = k]
          /\ UNCHANGED hs
Next == \E k \in 1..NKeys : Put(k)
Spec == Init /\ [][Next]_vars

In == {put[i] : i \in 1..Len(put)}
TypeOK == \A k \in In : \E b \in Range0(B) : tab[b] = k
Once == \A b, c \in Range0(B) : tab[b] # Absent /\ tab[b] = tab[c] => b = c
Finds == \A k \in 1..NKeys : LET b == Ends(tab, k) IN b # -1 /\ (tab[b] = k <=> k \in In)
RoomLeft == \E b \in Range0(B) : tab[b] = Absent
AllVisited == \A i \in 1..Len(Hashes), c \in {1, 2, 4, 8, 16, 64} : VisitsAll(Hashes[i], c)
ASSUME AllVisited
ASSUME \A n \in 0..200 : NBuckets(n) > n /\ NBuckets(n) <= 4 * (n + 1)

Stopped == Emit /\ Len(put) = NPut => PrintT(<<"B", ToJson([put |-> put, hs |-> hs])>>)
=============================================================================
