------------------------------ MODULE Builder ------------------------------
(* The C interface for creating files: values are made one by one, each call gives *)
(* a handle; vectors, sets and maps are filled by handle; one of them is the root;  *)
(* then all of it is written out, or given up.                                     *)
(* State: what was made, in that order, as the nodes of an object graph (Store),    *)
(* their handles, the root (0: none) and the kind of references asked for.         *)
(* A call may fail when memory runs out; then it was as if it had not been made.   *)
EXTENDS Format

Fresh(bits) == [n |-> <<>>, hd |-> <<>>, nb |-> {}, r |-> 0, bits |-> bits]
Immutable(a) == a.k \in {"int", "flt", "bool", "none", "str", "bits"}
\* strings are kept as bytes or as code points; equal ones of a kind are one value
\* bitvectors that are asked to be kept once, of more bits than fit a value, and not of two runs
Once1(e) == /\ e.how = "bitvector" /\ "slack" \notin DOMAIN e
            /\ Len(e.node.b) > 27 /\ Cardinality({i \in 2..Len(e.node.b) : e.node.b[i] # e.node.b[i - 1]}) > 1
MadeOk(S, e) ==
    LET same == {j \in 1..Len(S.hd) : S.hd[j] = e.h} IN
    /\ \A j \in same : Immutable(e.node) /\ S.n[j] = e.node
    /\ e.node.k = "str" => \A j \in 1..Len(S.n) : S.n[j] = e.node => j \in same
    /\ Once1(e) => \A j \in S.nb : S.n[j] = e.node => j \in same
Graph(S) == [n |-> S.n, r |-> S.r]
\* keys reach no sets, maps or cycles, and differ
Keyed(G, i) == /\ \A k \in {KeysOf(G.n[i])[j] : j \in 1..Len(KeysOf(G.n[i]))} : HashableVec(G, k)
               /\ KeyedOk(G, G.n[i])
Good(G, i) == G.n[i].k \in {"set", "map"} => Keyed(G, i)
CanWrite(S) == S.bits = 64 /\ S.r # 0
MayWrite(S) == CanWrite(S) /\ \A i \in Reach(Graph(S), S.r) : Good(Graph(S), i)
MustWrite(S) == CanWrite(S) /\ \A i \in 1..Len(S.n) : Good(Graph(S), i)
Holds(S, b) == LET H == TLCEval(Decode(b)) G == Graph(S) IN
    Verdict(b) = "accept" /\ SharingOk(G, H) /\ HashabilityOk(G, H) /\ StorageOk(G, H)

Change(S, i, a) == [S EXCEPT !.n[i] = a]
At1(s, x) == Append(s, x)
\* the state after a call that was carried out
After(S, e) ==
    CASE e.op = "mk" -> [S EXCEPT !.n = Append(@, e.node), !.hd = Append(@, e.h), !.nb = IF Once1(e) THEN @ \cup {Len(S.n) + 1} ELSE @]
      [] e.op = "push" -> [S EXCEPT !.n[e.i].ch = Append(@, e.x)]
      [] e.op = "pushx" -> [S EXCEPT !.n[e.i].xs = Append(@, e.n)]
      [] e.op = "put" -> [S EXCEPT !.n[e.i].ch[e.at + 1] = e.x]
      [] e.op = "give" -> [S EXCEPT !.n[e.i].ch = e.xs]
      [] e.op = "givex" -> [S EXCEPT !.n[e.i].xs = e.xs]
      [] e.op = "add" -> [S EXCEPT !.n[e.i].ch = Append(@, e.k)]
      [] e.op = "add2" -> [S EXCEPT !.n[e.i].ks = Append(@, e.k), !.n[e.i].vs = Append(@, e.v)]
      [] e.op = "root" -> [S EXCEPT !.r = e.i]
      [] OTHER -> S
\* calls that are refused, whatever memory there is
Refused(S, e) == \/ e.op = "push" /\ e.x = 0
                 \/ e.op \in {"give", "givex"} /\ Size(S.n[e.i]) # 0
CallOk(S, e) ==
    CASE e.op \in {"put", "root"} -> TRUE
      [] e.op = "mk" -> IF e.h = -1 THEN e.hit = 1 ELSE MadeOk(S, e)
      [] e.op = "out" -> /\ e.live = 0 /\ e.own
                         /\ e.res \in {"ok", "exc"}
                         /\ e.res = "ok" => MayWrite(S) /\ Holds(S, e.b)
                         /\ e.res = "exc" => e.err /\ (e.hit = 1 \/ ~MustWrite(S))
                         \* a file can be copied with the C function, and holds the same
                         /\ IF e.res = "ok" /\ e.how = "f" THEN e.dir = <<"again.map", "out.map">> /\ Holds(S, e.again) ELSE e.dir = <<>>
      [] e.op = "end" -> e.live = 0 /\ e.own
      [] OTHER -> IF e.h = -1 THEN e.hit = 1 \/ Refused(S, e) ELSE ~Refused(S, e) /\ e.h = S.hd[e.i]
Done(e) == e.op \in {"mk", "push", "pushx", "give", "givex", "add", "add2"} => e.h # -1
=============================================================================
