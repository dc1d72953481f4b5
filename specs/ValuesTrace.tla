---------------------------- MODULE ValuesTrace -----------------------------
(* Recorded hashes, comparisons and lookups, judged by Values.                   *)
EXTENDS Values, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, at       \* the next event, and the event with the graph of the case
vars == <<l, at>>
\* the trees of the roots of each graph (a constant: evaluated once)
Trees == [p \in {q \in 1..Len(Trace) : Trace[q].op = "graph"} |->
            LET e == Trace[p] IN TLCEval([i \in {e.roots[x] : x \in 1..Len(e.roots)} |-> TLCEval(TreeG(e.g, i))])]
G == Trace[at].g
T == Trees[at]

Read(r) == r # "py"
\* does the representation have a hash
HasHash(i, rep) ==
    IF Read(rep) THEN HashableVec(G, i) /\ G.n[i].k \notin {"set", "fset", "map"}
    ELSE \A j \in Reach(G, i) : LET a == G.n[j] IN
            /\ a.k \notin {"list", "set", "fset", "map", "bad"}
            /\ (a.k = "prim" => "ba" \notin DOMAIN a)
            /\ (a.k = "int" => Within32(a.w))
HashOk(e) ==
    LET h == IF Deep(T[e.i]) THEN Hash(T[e.i]) ELSE <<>>
    IN  /\ \A x \in 1..Len(e.rs) : LET r == e.rs[x] IN
            IF HasHash(e.i, r[1]) THEN r[2][1] = 1 /\ <<r[2][2], r[2][3]>> = h ELSE r[2][1] = 0
        /\ \A x, y \in 1..Len(e.hs) : e.hs[x] = e.hs[y]

CmpOk(e) ==
    LET c == Cmp(T[e.i], T[e.j])
        flip(x) == CASE x = 0 -> <<0, 1, 1, 0, 0, 1>> [] x = -1 -> <<1, 1, 0, 1, 0, 0>> [] x = 1 -> <<0, 0, 0, 1, 1, 1>>
    IN  /\ \A x \in 1..Len(e.cs) : LET r == e.cs[x][3] IN
            IF c = 2 THEN r \in {-1, 1} ELSE r = c
        /\ \A x \in 1..Len(e.es) : LET r == e.es[x][3] IN
            CASE c = 0 -> r = 0 [] c \in {-1, 1, 2} -> r = 1 [] c = 3 -> r = 3
        /\ \A x \in 1..Len(e.rich) : c \in {-1, 0, 1} => e.rich[x][3] = flip(c)

\* the C functions: values that can be compared as above; others are different; sets and maps give errors
\* e.cs: reader, reader (acyclic), create, create (the other way around)
Opposite(x) == IF x \in {-1, 0, 1} THEN -x ELSE x
CCmpOk(e) ==
    LET TA == T[e.i] TB == T[e.j]
        c == Cmp(TA, TB)
    IN  IF ~Deep(TA) \/ ~Deep(TB) THEN TRUE
        ELSE /\ c \in {-1, 0, 1} => e.cs[1] = c /\ e.cs[2] = c /\ e.cs[3] = c /\ e.cs[4] = Opposite(c)
             /\ c \in {2, 3} => \A x \in 1..4 : e.cs[x] \in {-1, 1}

\* lookups: a map's values are integers which tell the keys apart
LookupOk(e) ==
    LET a == G.n[e.con]
        ks == KeysOf(a)
        hit == {j \in 1..Len(ks) : Deep(T[e.i]) /\ Eq(T[e.i], T[ks[j]])}
        val == IF hit = {} THEN -1 ELSE IF a.k = "map" THEN WVal(G.n[a.vs[CHOOSE j \in hit : TRUE]].w) ELSE 0
        want == IF a.k = "map" THEN <<IF hit = {} THEN 0 ELSE 1, val, val, val>> ELSE <<IF hit = {} THEN 0 ELSE 1>>
    IN  \A x \in 1..Len(e.rs) : LET r == e.rs[x] IN
            IF HasHash(e.i, r[1]) THEN Tail(r) = want ELSE \A y \in 2..Len(r) : r[y] = 3
\* iteration: each entry once; e.vals: the values that two kinds of iteration give, sorted
OwnOk(e) ==
    LET a == G.n[e.con]
        n == Len(KeysOf(a))
    IN  /\ e.len = n /\ \A x \in 1..Len(e.counts) : e.counts[x] = n
        /\ Len(e.rs) = 2 * n /\ \A x \in 1..Len(e.rs) : e.rs[x] = <<1>>
        /\ e.same = 1
        /\ a.k = "map" => \A x \in 1..Len(e.vals) : /\ Len(e.vals[x]) = n
                                                   /\ ToSet(e.vals[x]) = {WVal(G.n[a.vs[j]].w) : j \in 1..n}

EventOk(e) ==
    CASE e.op = "hash" -> HashOk(e)
      [] e.op = "cmp" -> CmpOk(e)
      [] e.op = "ccmp" -> CCmpOk(e)
      [] e.op = "lookup" -> LookupOk(e)
      [] e.op = "own" -> OwnOk(e)
      [] OTHER -> FALSE

Init == l = 1 /\ at = 0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF e.op = "graph" THEN l' = l + 1 /\ at' = l
           ELSE IF EventOk(e) THEN l' = l + 1 /\ UNCHANGED at ELSE FALSE
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
