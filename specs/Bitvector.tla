----------------------------- MODULE Bitvector ------------------------------
(* Bitvectors: sequences of bits, in memory or read from a file.                 *)
(* The state is [bvs, iters]:                                                    *)
(*   bvs   : id -> [b |-> bits, ro |-> read from a file, show |-> may be printed] *)
(*   iters : id -> [bv, pos, done]                                                *)
(* Apply(S, e) is the only definition of what an operation does.                 *)
EXTENDS Words, TLC

Empty == [bvs |-> <<>>, iters |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* arguments: [k |-> "b", n] a bool, [k |-> "i", n] an integer, [k |-> "o"] anything else
Bit(a) == IF a.k \in {"b", "i"} /\ a.n \in {0, 1} THEN <<a.n>> ELSE <<>>
Count(bs, x, from, step) ==           \* how many x follow each other from there on
    LET C[i \in 0..Len(bs) + 1] == IF i < 1 \/ i > Len(bs) \/ i \notin 1..Len(bs) THEN 0 ELSE IF bs[i] = x THEN 1 + C[i + step] ELSE 0
    IN  C[from]
Rep(x, n) == [i \in 1..n |-> x]
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)
Rel(op, c) == CASE op = "lt" -> c < 0 [] op = "le" -> c <= 0 [] op = "eq" -> c = 0 [] op = "ne" -> c # 0 [] op = "gt" -> c > 0 [] op = "ge" -> c >= 0
\* the last bit first, and a "b"
Text(bs) == [i \in 1..(Len(bs) + 1) |-> IF i <= Len(bs) THEN 48 + bs[Len(bs) + 1 - i] ELSE 98]

Ok(S, v) == [S |-> S, r |-> [k |-> "ok", v |-> v]]
Exc(S)   == [S |-> S, r |-> [k |-> "exc"]]
None == <<>>
SetB(S, id, bs) == [S EXCEPT !.bvs[id].b = bs]
New(S, id, bs, ro, show) == [S EXCEPT !.bvs = Put(S.bvs, id, [b |-> bs, ro |-> ro, show |-> show])]

\* what a constructor makes: <<>> if refused
Made(e) == CASE e.how = "none" -> <<<<>>>>
             [] e.how = "size" -> IF e.n >= 0 THEN <<Rep(0, e.n)>> ELSE <<>>
             [] e.how = "seq"  -> IF \A i \in 1..Len(e.xs) : Bit(e.xs[i]) # <<>> THEN <<[i \in 1..Len(e.xs) |-> Bit(e.xs[i])[1]]>> ELSE <<>>
             [] OTHER -> <<>>

Apply(S, e) ==
    LET has == "id" \in DOMAIN e
        v   == IF has /\ e.id \in DOMAIN S.bvs THEN S.bvs[e.id] ELSE [b |-> <<>>, ro |-> FALSE, show |-> TRUE]
        bs  == v.b
        n   == Len(bs)
        ix  == IF "i" \in DOMAIN e THEN (IF e.i < 0 THEN e.i + n ELSE e.i) ELSE 0
        out == ix < 0 \/ ix >= n
    IN
    CASE e.op = "new" -> LET m == Made(e) IN IF m = <<>> THEN Exc(S) ELSE Ok(New(S, e.id, m[1], FALSE, e.show), None)
      [] e.op = "reinit" -> LET m == Made(e) IN     \* a vector in memory from now on; empty when it is refused
            IF m = <<>> THEN Exc(New(S, e.id, <<>>, FALSE, e.show)) ELSE Ok(New(S, e.id, m[1], FALSE, e.show), None)
      [] e.op = "drop" -> Ok([S EXCEPT !.bvs = Drop(S.bvs, e.id)], None)
      [] e.op = "copy" -> Ok(New(S, e.dst, bs, FALSE, v.ro \/ v.show), None)
      [] e.op = "store" -> Ok(New(S, e.dst, bs, TRUE, TRUE), None)
      [] e.op = "load" -> Ok(New(S, e.dst, e.bits, TRUE, TRUE), None)     \* from a file of another writer, in any encoding
      [] e.op = "append" ->
            IF v.ro \/ e.x.k # "b" THEN Exc(S) ELSE Ok(SetB(S, e.id, Append(bs, e.x.n)), None)
      [] e.op = "extend" -> IF v.ro \/ e.n < 0 THEN Exc(S) ELSE Ok(SetB(S, e.id, bs \o Rep(e.bit, e.n)), None)
      [] e.op = "append_bulk" -> IF v.ro THEN Exc(S) ELSE Ok(SetB(S, e.id, bs \o S.bvs[e.src].b), None)
      [] e.op = "pop" -> IF v.ro \/ n = 0 THEN Exc(S) ELSE Ok(SetB(S, e.id, SubSeq(bs, 1, n - 1)), bs[n])
      [] e.op = "set" -> IF v.ro \/ out \/ Bit(e.x) = <<>> THEN Exc(S) ELSE Ok(SetB(S, e.id, [bs EXCEPT ![ix + 1] = Bit(e.x)[1]]), None)
      [] e.op = "get" -> IF out THEN Exc(S) ELSE Ok(S, bs[ix + 1])
      [] e.op \in {"del", "badarg"} -> Exc(S)
      [] e.op = "len" -> Ok(S, n)
      [] e.op = "zpre" -> Ok(S, Count(bs, 0, 1, 1))
      [] e.op = "opre" -> Ok(S, Count(bs, 1, 1, 1))
      [] e.op = "zpost" -> Ok(S, Count(bs, 0, n, -1))
      [] e.op = "opost" -> Ok(S, Count(bs, 1, n, -1))
      [] e.op = "any" -> Ok(S, \E i \in 1..n : bs[i] = 1)
      [] e.op = "text" -> Ok(S, IF v.ro \/ v.show THEN Text(bs) ELSE "hidden")
      [] e.op = "rel" -> Ok(S, Rel(e.rel, Cmp(bs, S.bvs[e.src].b)))
      [] e.op = "foreign" -> Ok(S, e.rel = "ne")        \* comparison with another kind of object
      [] e.op = "hash" -> Ok(S, None)                   \* see HashOK
      [] e.op = "iter" -> Ok([S EXCEPT !.iters = Put(S.iters, e.it, [bv |-> e.id, pos |-> 0, done |-> FALSE])], None)
      [] e.op = "next" ->
            LET it == S.iters[e.it] w == S.bvs[it.bv].b IN
            IF ~it.done /\ it.pos < Len(w)
            THEN Ok([S EXCEPT !.iters[e.it].pos = it.pos + 1], <<w[it.pos + 1]>>)
            ELSE Ok([S EXCEPT !.iters[e.it].done = TRUE], <<>>)

\* h: id -> the hash; equal bits have equal hashes
HashOK(S, h) == \A x, y \in DOMAIN S.bvs : S.bvs[x].b = S.bvs[y].b => h[x] = h[y]

\* of the largest bitvector there can be: its length; growing it is refused; its last bit; popping makes room for one
HugeOK(r) == r = <<"4294967295", "exc", "exc", "exc", "4294967295", "0", "1", "1", "4294967294", "ok", "exc", "4294967295">>

---------------------------------------------------------------------------
BitsOK(S) == \A id \in DOMAIN S.bvs : \A i \in 1..Len(S.bvs[id].b) : S.bvs[id].b[i] \in {0, 1}
\* prefix counts, postfix counts, and any-set agree with each other
CountsOK(S) == \A id \in DOMAIN S.bvs : LET b == S.bvs[id].b n == Len(b) IN
    /\ n > 0 => (Count(b, 0, 1, 1) = 0 <=> Count(b, 1, 1, 1) > 0)
    /\ (\E i \in 1..n : b[i] = 1) <=> Count(b, 0, 1, 1) < n
    /\ Count(b, 0, 1, 1) < n => Count(b, 0, 1, 1) + Count(b, 0, n, -1) < n
OrderOK(S) == \A x, y \in DOMAIN S.bvs : Cmp(S.bvs[x].b, S.bvs[y].b) = -Cmp(S.bvs[y].b, S.bvs[x].b)
                                         /\ (Cmp(S.bvs[x].b, S.bvs[y].b) = 0 <=> S.bvs[x].b = S.bvs[y].b)
=============================================================================
