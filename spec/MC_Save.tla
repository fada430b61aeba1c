------------------------------- MODULE MC_Save -------------------------------
(* Why the order of system calls that Daemon!Protocol demands is the right  *)
(* one: a file system that may write data and directory entries to disk in  *)
(* any order and at any time, except that fsync waits for the data of a     *)
(* file and a rename is atomic.  A program does any calls in any order; the *)
(* power may fail at any moment.                                            *)
EXTENDS Daemon
CONSTANTS Blocks,     \* the new content is 1..Blocks
          MaxOps, Careless
VARIABLES ops,        \* the calls so far, as Protocol sees them
          buf,        \* what the program has written to the temporary file (in the cache)
          dur,        \* how much of that is on disk
          exists,     \* the temporary file exists (in the cache)
          dir,        \* what the state file's name stands for in the cache: "old" or "new"
          ddir        \* and on disk
v == <<ops, buf, dur, exists, dir, ddir>>
Init == ops = <<>> /\ buf = 0 /\ dur = 0 /\ exists = FALSE /\ dir = "old" /\ ddir = "old"
Op(x, a) == [op |-> x, act |-> a]
Do(x, a) == Len(ops) < MaxOps /\ ops' = Append(ops, Op(x, a))
OpenX  == ~exists /\ dir = "old" /\ Do("open", "-") /\ exists' = TRUE /\ UNCHANGED <<buf, dur, dir, ddir>>
OpenE  == dir = "old" /\ Do("open", "e") /\ UNCHANGED <<buf, dur, exists, dir, ddir>>
Write  == (exists \/ dir = "new") /\ buf < Blocks /\ Do("write", "-") /\ buf' = buf + 1 /\ UNCHANGED <<dur, exists, dir, ddir>>
WriteE == (exists \/ dir = "new") /\ Do("write", "e") /\ UNCHANGED <<buf, dur, exists, dir, ddir>>
Trunc  == (exists \/ dir = "new") /\ Do("trunc", "-") /\ buf' = 0 /\ dur' = 0 /\ UNCHANGED <<exists, dir, ddir>>
Sync   == (exists \/ dir = "new") /\ Do("sync", "-") /\ dur' = buf /\ UNCHANGED <<buf, exists, dir, ddir>>
SyncE  == (exists \/ dir = "new") /\ Do("sync", "e") /\ UNCHANGED <<buf, dur, exists, dir, ddir>>
Rename == exists /\ Do("rename", "-") /\ dir' = "new" /\ exists' = FALSE /\ UNCHANGED <<buf, dur, ddir>>
RenameE == exists /\ Do("rename", "e") /\ UNCHANGED <<buf, dur, exists, dir, ddir>>
\* the file system, whenever it likes
Flush  == dur < buf /\ dur' \in (dur + 1)..buf /\ UNCHANGED <<ops, buf, exists, dir, ddir>>
FlushDir == ddir # dir /\ ddir' = dir /\ UNCHANGED <<ops, buf, dur, exists, dir>>
Next == OpenX \/ OpenE \/ Write \/ WriteE \/ Trunc \/ Sync \/ SyncE \/ Rename \/ RenameE \/ Flush \/ FlushDir
Spec == Init /\ [][Next]_v

\* what would be found after a power failure now
AfterCrash == IF ddir = "old" THEN "old" ELSE IF dur = Blocks THEN "complete" ELSE "broken"
\* the program wrote everything before it renamed (Trace compares the bytes) and
\* did as the protocol demands
Full == \A i \in DOMAIN ops : (ops[i].op = "rename" /\ ops[i].act = "-") =>
           LET w == SelectSeq(SubSeq(ops, 1, i), LAMBDA o : o.op \in {"write", "trunc"} /\ o.act = "-")
               t == {j \in DOMAIN w : w[j].op = "trunc"}
               last == IF t = {} THEN 0 ELSE CHOOSE j \in t : \A k \in t : k <= j
           IN Len(w) - last = Blocks
Safe == (Careless \/ ~Renamed(ops) \/ (Full /\ Protocol(ops))) => AfterCrash \in {"old", "complete"}
\* and a program that never renames changes nothing
Untouched == ~Renamed(ops) => AfterCrash = "old"
=============================================================================
