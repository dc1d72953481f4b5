------------------------------ MODULE Publish -------------------------------
(* A file system with crashes, as seen by a writer of one file.                  *)
(*                                                                              *)
(* A state is [dir, past, ino, fds]: dir maps names to inodes; past is the set   *)
(* of directories that a crash may leave behind (the directory is not synced, so *)
(* that is any one since the last sync of it); an inode is                       *)
(*   hi     length of the prefix that has been written                           *)
(*   dirty  written to since it was synced: a crash may leave anything of it     *)
(*   lost   a sync has failed, what was written may never get to the disk        *)
(*   old    it was there at the beginning, and what was in it then still is      *)
(* fds maps descriptors to <<inode, position>>; inode 0 is the directory itself. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Target == "T"
FsInit(names) ==           \* names: a sequence of those that exist
    LET d == [n \in {names[i] : i \in 1..Len(names)} |-> CHOOSE i \in 1..Len(names) : names[i] = n]
    IN  [dir |-> d, past |-> {d}, ino |-> [i \in 1..Len(names) |-> [hi |-> 0, dirty |-> FALSE, lost |-> FALSE, old |-> TRUE]], fds |-> <<>>]

Has(f, x) == x \in DOMAIN f
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
SetDir(fs, d) == [fs EXCEPT !.dir = d, !.past = @ \cup {d}]
Touch(i) == [i EXCEPT !.dirty = TRUE, !.old = FALSE]

Open(fs, name, fd, trunc) ==
    IF Has(fs.dir, name)
    THEN LET k == fs.dir[name] IN
         [fs EXCEPT !.fds = (fd :> <<k, 0>>) @@ @, !.ino[k] = IF trunc THEN [Touch(@) EXCEPT !.hi = 0] ELSE @]
    ELSE LET k == Len(fs.ino) + 1 IN
         SetDir([fs EXCEPT !.ino = Append(@, [hi |-> 0, dirty |-> TRUE, lost |-> FALSE, old |-> FALSE]), !.fds = (fd :> <<k, 0>>) @@ @],
                (name :> k) @@ fs.dir)
OpenDir(fs, fd) == [fs EXCEPT !.fds = (fd :> <<0, 0>>) @@ @]
WriteAt(fs, k, at, n) == [fs EXCEPT !.ino[k] = [Touch(@) EXCEPT !.hi = IF at <= @ /\ at + n > @ THEN at + n ELSE @]]
Write(fs, fd, n) == LET d == fs.fds[fd] IN [WriteAt(fs, d[1], d[2], n) EXCEPT !.fds[fd] = <<d[1], d[2] + n>>]
PWrite(fs, fd, at, n) == WriteAt(fs, fs.fds[fd][1], at, n)
Seek(fs, fd, at) == [fs EXCEPT !.fds[fd] = <<@[1], at>>]
Truncate(fs, fd, n) == [fs EXCEPT !.ino[fs.fds[fd][1]] = [Touch(@) EXCEPT !.hi = n]]
Sync(fs, fd) == LET k == fs.fds[fd][1] IN
    IF k = 0 THEN [fs EXCEPT !.past = {fs.dir}] ELSE [fs EXCEPT !.ino[k].dirty = FALSE]
SyncFails(fs, fd) == LET k == fs.fds[fd][1] IN IF k = 0 THEN fs ELSE [fs EXCEPT !.ino[k].lost = TRUE]
Close(fs, fd) == [fs EXCEPT !.fds = Without(@, fd)]
Rename(fs, a, b) == SetDir(fs, (b :> fs.dir[a]) @@ Without(fs.dir, a))
Link(fs, a, b) == SetDir(fs, (b :> fs.dir[a]) @@ fs.dir)
Unlink(fs, a) == SetDir(fs, Without(fs.dir, a))

\* what a directory's target is: "none", "old", "new", or "torn"
Of(fs, d, total) ==
    IF ~Has(d, Target) THEN "none"
    ELSE LET i == fs.ino[d[Target]] IN
         IF i.old THEN "old" ELSE IF i.hi = total /\ ~i.dirty /\ ~i.lost THEN "new" ELSE "torn"
\* Now, and after a crash now, the name is what it was, or it is all of the new contents.
Safe(fs, before, total) == \A d \in fs.past : Of(fs, d, total) \in {before, "new"}
=============================================================================
