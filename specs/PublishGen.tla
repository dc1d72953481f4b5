----------------------------- MODULE PublishGen -----------------------------
(* A writer on Publish's file system: every step may fail, and the machine may    *)
(* crash at every moment.  Careless names a step that is left out or done wrong,  *)
(* "" for the writer as it is meant to be; Safe does not hold of careless ones.   *)
EXTENDS Publish

CONSTANTS Chunks, Careless
VARIABLES fs, pc, n, res, before
vars == <<fs, pc, n, res, before>>
Temp == "t1"  Fd == 3
Name == IF Careless = "inplace" THEN Target ELSE Temp

Init == /\ pc = "open" /\ n = 0 /\ res = "none"
        /\ \E ns \in {<<>>, <<Target>>} : fs = FsInit(ns) /\ before = IF ns = <<>> THEN "none" ELSE "old"
Goto(l) == pc' = l /\ UNCHANGED <<before>>
Fail == pc' = "cleanup" /\ UNCHANGED <<fs, n, res, before>>
OpenIt == pc = "open" /\ \/ fs' = Open(fs, Name, Fd, TRUE) /\ Goto("write") /\ UNCHANGED <<n, res>>
                         \/ res' = "exc" /\ Goto("done") /\ UNCHANGED <<fs, n>>
WriteIt == pc = "write" /\ \/ fs' = Write(fs, Fd, 1) /\ n' = n + 1 /\ UNCHANGED res
                              /\ Goto(IF n + 1 < Chunks THEN "write" ELSE IF Careless = "nosync" THEN "close" ELSE IF Careless = "early" THEN "rename" ELSE "sync")
                           \/ Fail
SyncIt == pc = "sync" /\ \/ fs' = Sync(fs, Fd) /\ Goto("close") /\ UNCHANGED <<n, res>>
                         \/ fs' = SyncFails(fs, Fd) /\ Goto(IF Careless = "ignore" THEN "close" ELSE IF Careless = "retry" THEN "sync" ELSE "cleanup") /\ UNCHANGED <<n, res>>
CloseIt == pc = "close" /\ \/ fs' = Close(fs, Fd) /\ Goto(IF Careless = "inplace" THEN "ok" ELSE "rename") /\ UNCHANGED <<n, res>>
                           \/ fs' = Close(fs, Fd) /\ Goto("cleanup") /\ UNCHANGED <<n, res>>
RenameIt == pc = "rename" /\ \/ fs' = Rename(fs, Temp, Target) /\ Goto("ok") /\ UNCHANGED <<n, res>>
                             \/ Fail
OkIt == pc = "ok" /\ res' = "ok" /\ Goto("done") /\ UNCHANGED <<fs, n>>
Cleanup == /\ pc = "cleanup" /\ res' = "exc" /\ Goto("done") /\ UNCHANGED n
           /\ LET f == IF Has(fs.fds, Fd) THEN Close(fs, Fd) ELSE fs IN
              fs' = IF Careless = "litter" \/ ~Has(f.dir, Temp) THEN f ELSE Unlink(f, Temp)
Next == OpenIt \/ WriteIt \/ SyncIt \/ CloseIt \/ RenameIt \/ OkIt \/ Cleanup
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AlwaysSafe == Safe(fs, before, Chunks)
AtTheEnd == pc = "done" =>
    /\ DOMAIN fs.fds = {}
    /\ Of(fs, fs.dir, Chunks) = IF res = "ok" THEN "new" ELSE before
    /\ DOMAIN fs.dir \subseteq {Target}
Ends == <>(pc = "done")
=============================================================================
