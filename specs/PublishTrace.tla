---------------------------- MODULE PublishTrace ----------------------------
(* System calls of the real writer, recorded, as behaviours of Publish's file     *)
(* system: Safe at every moment, and the outcome that was reported is the outcome. *)
(* A case is begin, calls..., and end or killed.                                 *)
EXTENDS Publish, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, c
vars == <<l, fs, c>>

Known(e) == Has(fs.fds, e.fd)
Call(e) ==
    CASE e.op = "open" -> Open(fs, e.name, e.fd, e.trunc)
      [] e.op = "opendir" -> OpenDir(fs, e.fd)
      [] e.op = "rename" -> IF Has(fs.dir, e.a) THEN Rename(fs, e.a, e.b) ELSE fs
      [] e.op = "link" -> IF Has(fs.dir, e.a) THEN Link(fs, e.a, e.b) ELSE fs
      [] e.op = "unlink" -> Unlink(fs, e.a)
      [] e.op \notin {"write", "pwrite", "seek", "trunc", "sync", "nosync", "close"} -> fs
      [] ~Known(e) -> fs
      [] e.op = "write" -> Write(fs, e.fd, e.n)
      [] e.op = "pwrite" -> PWrite(fs, e.fd, e.at, e.n)
      [] e.op = "seek" -> Seek(fs, e.fd, e.at)
      [] e.op = "trunc" -> Truncate(fs, e.fd, e.n)
      [] e.op = "sync" -> Sync(fs, e.fd)
      [] e.op = "nosync" -> SyncFails(fs, e.fd)
      [] e.op = "close" -> Close(fs, e.fd)

\* e: res "ok", "exc"; target: what it holds; names: all names; leak: number of descriptors too many
AtEnd(e) ==
    /\ {e.names[i] : i \in 1..Len(e.names)} = DOMAIN fs.dir      \* the model has followed
    /\ Of(fs, fs.dir, c.total) = e.target
    /\ DOMAIN fs.dir = c.names \cup (IF e.res = "ok" THEN {Target} ELSE {})
    /\ e.target = IF e.res = "ok" THEN "new" ELSE c.before
    /\ e.leak = 0
    /\ ~c.fault => e.res = "ok"
AtKill(e) ==
    /\ {e.names[i] : i \in 1..Len(e.names)} = DOMAIN fs.dir
    /\ e.target \in {c.before, "new"} /\ Of(fs, fs.dir, c.total) = e.target
Step(e) ==
    CASE e.op = "begin" -> /\ fs' = FsInit(e.names)
                           /\ c' = [before |-> IF \E i \in 1..Len(e.names) : e.names[i] = Target THEN "old" ELSE "none",
                                    names |-> {e.names[i] : i \in 1..Len(e.names)}, total |-> e.total, fault |-> e.fault]
      [] e.op = "end" -> IF AtEnd(e) THEN UNCHANGED <<fs, c>> ELSE FALSE
      [] e.op = "killed" -> IF AtKill(e) THEN UNCHANGED <<fs, c>> ELSE FALSE
      [] e.op = "crash" -> FALSE
      [] OTHER -> /\ fs' = Call(e) /\ UNCHANGED c
                  /\ IF Safe(fs', c.before, c.total) THEN TRUE ELSE FALSE
Init == l = 1 /\ fs = FsInit(<<>>) /\ c = [before |-> "none", names |-> {}, total |-> 0, fault |-> FALSE]
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
