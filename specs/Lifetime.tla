------------------------------ MODULE Lifetime ------------------------------
(* Who keeps what alive: files and buffers, the objects opened from them, the     *)
(* values taken from those, iterators over and buffers of the values.             *)
(* The state:                                                                    *)
(*   files : path   -> [ver, tree]      what the path holds now (ver: which writing) *)
(*   bufs  : name   -> [tree, ok]       what a buffer holds now (ok: it is a file) *)
(*   objs  : object -> [open, file, ver, tree, held]                             *)
(*   views : value  -> [obj, tree, held]                                         *)
(*   iters : iter   -> [view, how, done, pos]   done: positions already yielded   *)
(*   mems  : buffer -> [view, xs]                                                *)
(* An object is what it was when it was opened, as long as it is alive: while it is *)
(* held itself or has a value that is alive; a value is alive while it is held, or *)
(* an iterator or buffer of it is.                                               *)
(* Trees: [k |-> "seq", xs], [k |-> "bytes", xs], [k |-> "set", xs], [k |-> "map", es], *)
(* [k |-> "bits", b], [k |-> "leaf", v].                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [files |-> <<>>, bufs |-> <<>>, objs |-> <<>>, views |-> <<>>, iters |-> <<>>, mems |-> <<>>]
Ok(S, v) == [S |-> S, r |-> [k |-> "ok", v |-> v]]
Exc(S) == [S |-> S, r |-> [k |-> "exc"]]
None == <<>>

Has(f, k) == k \in DOMAIN f
IsView(t) == t.k # "leaf"
\* which kind of reference it counts as
Kind(t) == CASE t.k \in {"seq", "bytes"} -> "vector" [] t.k = "bits" -> "bitvector" [] OTHER -> t.k

ViewAlive(S, v) ==
    \/ S.views[v].held
    \/ \E i \in DOMAIN S.iters : S.iters[i].view = v
    \/ \E m \in DOMAIN S.mems : S.mems[m].view = v
LiveViews(S, o) == {v \in DOMAIN S.views : S.views[v].obj = o /\ ViewAlive(S, v)}
ObjAlive(S, o) == S.objs[o].held \/ LiveViews(S, o) # {}
Refs(S, o) == [k \in {"vector", "bitvector", "map", "set"} |-> Cardinality({v \in LiveViews(S, o) : Kind(S.views[v].tree) = k})]
\* the files that are open
OpenFiles(S) == {o \in DOMAIN S.objs : S.objs[o].open /\ S.objs[o].file /\ ObjAlive(S, o)}
OpenObjs(S) == {o \in DOMAIN S.objs : S.objs[o].open /\ ObjAlive(S, o)}

\* what is no longer alive is forgotten
Sweep(S) ==
    LET vs == {v \in DOMAIN S.views : ViewAlive(S, v)}
        S1 == [S EXCEPT !.views = [v \in vs |-> S.views[v]]]
    IN  [S1 EXCEPT !.objs = [o \in {o \in DOMAIN S.objs : ObjAlive(S1, o)} |-> S.objs[o]]]

\* what opening src gives: nothing, or what is there
Source(S, e) ==
    IF e.src \in DOMAIN S.files THEN <<[open |-> TRUE, file |-> TRUE, ver |-> S.files[e.src].ver, tree |-> S.files[e.src].tree, held |-> TRUE]>>
    ELSE IF e.src \in DOMAIN S.bufs /\ S.bufs[e.src].ok THEN <<[open |-> TRUE, file |-> FALSE, ver |-> 0, tree |-> S.bufs[e.src].tree, held |-> TRUE]>>
    ELSE <<>>
Closed == [open |-> FALSE, file |-> FALSE, ver |-> 0, tree |-> [k |-> "leaf", v |-> ""], held |-> TRUE]
\* a value of an object, under the name e.dst
Take(S, o, t, e) == IF IsView(t) THEN Ok(Sweep([S EXCEPT !.views = Put(@, e.dst, [obj |-> o, tree |-> t, held |-> TRUE])]), [t |-> t]) ELSE Ok(S, [t |-> t])
Clip(x, n) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
SliceOf(xs, lo, hi) == LET a == Clip(lo, Len(xs)) b == Clip(hi, Len(xs)) IN IF b <= a THEN <<>> ELSE SubSeq(xs, a + 1, b)
Rev(xs) == [i \in 1..Len(xs) |-> xs[Len(xs) + 1 - i]]
Leaf(x) == [k |-> "leaf", v |-> x]
ILeaf(n) == Leaf("i" \o ToString(n))
BLeaf(b) == Leaf(IF b = 1 THEN "BTrue" ELSE "BFalse")
\* what an iterator yields
Items(t, how) ==
    CASE t.k = "seq" -> IF how = "rev" THEN Rev(t.xs) ELSE t.xs
      [] t.k = "bytes" -> LET ys == [i \in 1..Len(t.xs) |-> ILeaf(t.xs[i])] IN IF how = "rev" THEN Rev(ys) ELSE ys
      [] t.k = "bits" -> [i \in 1..Len(t.b) |-> BLeaf(t.b[i])]
      [] t.k = "set" -> t.xs
      [] t.k = "map" -> CASE how = "values" -> [i \in 1..Len(t.es) |-> t.es[i][2]]
                          [] OTHER -> [i \in 1..Len(t.es) |-> t.es[i][1]]
Ordered(t) == t.k \in {"seq", "bytes", "bits"}

Apply(S, e) ==
    CASE e.op = "write"  -> Ok([S EXCEPT !.files = Put(@, e.src, [ver |-> e.ver, tree |-> e.tree])], None)
      [] e.op = "unlink" -> IF Has(S.files, e.src) THEN Ok([S EXCEPT !.files = Drop(@, e.src)], None) ELSE Exc(S)
      [] e.op = "rename" -> IF Has(S.files, e.src) THEN Ok([S EXCEPT !.files = Put(Drop(@, e.src), e.dst, S.files[e.src])], None) ELSE Exc(S)
      \* a buffer is free again as soon as it was opened: it can be filled, resized, and dropped
      [] e.op = "fill"   -> Ok([S EXCEPT !.bufs = Put(@, e.src, [tree |-> e.tree, ok |-> TRUE])], None)
      [] e.op = "spoil"  -> IF Has(S.bufs, e.src) THEN Ok([S EXCEPT !.bufs[e.src].ok = FALSE], None) ELSE Exc(S)
      [] e.op = "dropbuf" -> Ok([S EXCEPT !.bufs = Drop(@, e.src)], None)
      [] e.op = "open"   -> LET s == Source(S, e) IN
                            IF s = <<>> THEN Exc(S) ELSE Ok([S EXCEPT !.objs = Put(@, e.dst, s[1])], None)
      \* opening an object again is refused while values of it are alive; otherwise it closes it first
      [] e.op = "reopen" -> LET s == Source(S, e) IN
                            IF LiveViews(S, e.id) # {} THEN Exc(S)
                            ELSE IF s = <<>> THEN Exc([S EXCEPT !.objs[e.id] = Closed])
                            ELSE Ok([S EXCEPT !.objs[e.id] = s[1]], None)
      [] e.op = "root"   -> IF S.objs[e.id].open THEN Take(S, e.id, S.objs[e.id].tree, e) ELSE Exc(S)
      [] e.op = "sub"    -> LET v == S.views[e.id] t == v.tree IN
                            (CASE t.k = "seq" -> IF e.at < Len(t.xs) THEN Take(S, v.obj, t.xs[e.at + 1], e) ELSE Exc(S)
                              [] t.k = "bytes" -> IF e.at < Len(t.xs) THEN Ok(S, [t |-> ILeaf(t.xs[e.at + 1])]) ELSE Exc(S)
                              [] t.k = "bits" -> IF e.at < Len(t.b) THEN Ok(S, [t |-> BLeaf(t.b[e.at + 1])]) ELSE Exc(S)
                              \* of a map: the value of one of its keys
                              [] t.k = "map" -> IF e.at < Len(t.es) THEN Take(S, v.obj, t.es[e.at + 1][2], e) ELSE Exc(S)
                              [] t.k = "set" -> IF e.at < Len(t.xs) THEN Take(S, v.obj, t.xs[e.at + 1], e) ELSE Exc(S))
      [] e.op = "slice"  -> LET v == S.views[e.id] t == v.tree IN
                            (CASE t.k = "seq" \/ t.k = "bytes" -> LET u == [t EXCEPT !.xs = SliceOf(t.xs, e.lo, e.hi)] IN Take(S, v.obj, u, e)
                              [] OTHER -> Exc(S))
      [] e.op = "iter"   -> IF e.how = "rev" /\ S.views[e.id].tree.k \notin {"seq", "bytes"} THEN Exc(S)
                            ELSE IF e.how \in {"values", "items"} /\ S.views[e.id].tree.k # "map" THEN Exc(S)
                            ELSE Ok([S EXCEPT !.iters = Put(@, e.dst, [view |-> e.id, how |-> e.how, done |-> {}])], None)
      \* e.pos: which of the items it was (0: none); an exhausted iterator is dropped
      [] e.op = "next"   -> LET it == S.iters[e.id]
                                v == S.views[it.view]
                                xs == Items(v.tree, it.how)
                                k == IF Ordered(v.tree) THEN (IF Cardinality(it.done) < Len(xs) THEN Cardinality(it.done) + 1 ELSE 0) ELSE e.pos
                            IN  IF Cardinality(it.done) = Len(xs)
                                THEN [S |-> Sweep([S EXCEPT !.iters = Drop(@, e.id)]), r |-> [k |-> "stop"]]
                                ELSE IF k \notin 1..Len(xs) \/ k \in it.done THEN [S |-> S, r |-> [k |-> "wrong"]]
                                ELSE Take([S EXCEPT !.iters[e.id].done = @ \cup {k}], v.obj, xs[k], e)
      \* all that is left
      [] e.op = "rest"   -> LET it == S.iters[e.id] v == S.views[it.view] xs == Items(v.tree, it.how)
                            IN  IF Ordered(v.tree) THEN [S |-> Sweep([S EXCEPT !.iters = Drop(@, e.id)]), r |-> [k |-> "ok", v |-> SubSeq(xs, Cardinality(it.done) + 1, Len(xs))]]
                                ELSE [S |-> Sweep([S EXCEPT !.iters = Drop(@, e.id)]), r |-> [k |-> "ok", v |-> [j \in 1..(Len(xs) - Cardinality(it.done)) |->
                                         xs[CHOOSE k \in (1..Len(xs)) \ it.done : Cardinality({q \in (1..Len(xs)) \ it.done : q < k}) = j - 1]]]]
      [] e.op = "mem"    -> LET v == S.views[e.id] IN
                            IF v.tree.k = "bytes" /\ v.tree.xs # <<>> THEN Ok([S EXCEPT !.mems = Put(@, e.dst, [view |-> e.id, xs |-> v.tree.xs])], None) ELSE Exc(S)
      \* a buffer of a buffer
      [] e.op = "submem" -> LET m == S.mems[e.id] IN Ok([S EXCEPT !.mems = Put(@, e.dst, [view |-> m.view, xs |-> SliceOf(m.xs, e.lo, e.hi)])], None)
      [] e.op = "drop"   -> Ok(Sweep(IF Has(S.objs, e.id) THEN [S EXCEPT !.objs[e.id].held = FALSE]
                                     ELSE IF Has(S.views, e.id) THEN [S EXCEPT !.views[e.id].held = FALSE]
                                     ELSE IF Has(S.iters, e.id) THEN [S EXCEPT !.iters = Drop(@, e.id)]
                                     ELSE [S EXCEPT !.mems = Drop(@, e.id)]), None)
      \* text, comparison, serialization, hashing of a value: nothing is kept by it
      [] e.op = "use"    -> Ok(S, None)
      \* a bitvector that is initialized again holds its bits itself
      [] e.op = "detach" -> Ok(IF S.views[e.id].tree.k = "bits" THEN Sweep([S EXCEPT !.views[e.id].obj = ""]) ELSE S, None)
      [] e.op = "leak"   -> Ok(S, None)

\* laws of the specification itself
OwnersAlive(S) ==
    /\ \A v \in DOMAIN S.views : S.views[v].obj \in DOMAIN S.objs \cup {""}
    /\ \A i \in DOMAIN S.iters : S.iters[i].view \in DOMAIN S.views
    /\ \A m \in DOMAIN S.mems : S.mems[m].view \in DOMAIN S.views
    /\ \A o \in DOMAIN S.objs : LiveViews(S, o) # {} => S.objs[o].open
=============================================================================
