------------------------------- MODULE MC_Load -------------------------------
(* Reading the state file at start-up, one read at a time: a read may bring  *)
(* any part of what is left, be interrupted, or fail, and the file may not   *)
(* open.  It is read whole, or refused (at the line that is at fault, or     *)
(* because it could not be read) and left as it was, so that another start   *)
(* finds all of it.                                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lines,        \* the lengths of the lines
          Chunks,       \* what a read may bring
          BadLine,      \* a line that is at fault, 0: none
          Starts, Intrs, Partial, Show
Some == <<2, 1, 2>>
More == <<1, 2, 1, 1>>
VARIABLES pc, got, line, n, ints, res, disk, path, lost

v == <<pc, got, line, n, ints, res, disk, path, lost>>

RECURSIVE End(_)
End(k) == IF k = 0 THEN 0 ELSE End(k - 1) + Lines[k]
Total == End(Len(Lines))
Add(x, k) == path' = Append(path, <<x, k>>)

Init == pc = "down" /\ got = 0 /\ line = 0 /\ n = 0 /\ ints = 0 /\ res = "" /\ disk = "old" /\ path = <<>> /\ lost = FALSE

Open(how) ==
  /\ pc = "down" /\ n < Starts /\ n' = n + 1 /\ got' = 0 /\ line' = 0 /\ ints' = 0 /\ Add("start", how)
  /\ CASE how = "ok"     -> pc' = "read" /\ res' = ""
       [] how = "denied" -> pc' = "down" /\ res' = "refused"
       [] how = "other"  -> pc' = "up" /\ res' = "none"          \* as if there were none, with a warning
  /\ UNCHANGED <<disk, lost>>
Complete == line < Len(Lines) /\ End(line + 1) <= got
Line ==
  /\ pc = "read" /\ Complete
  /\ line' = line + 1
  /\ IF line' = BadLine THEN pc' = "down" /\ res' = "refused" ELSE UNCHANGED <<pc, res>>
  /\ UNCHANGED <<got, n, ints, disk, path, lost>>
Bring(k) ==
  /\ pc = "read" /\ ~Complete /\ got < Total
  /\ got' = (IF got + k > Total THEN Total ELSE got + k) /\ Add("read", k)
  /\ UNCHANGED <<pc, line, n, ints, res, disk, lost>>
Intr ==
  /\ pc = "read" /\ ~Complete /\ ints < Intrs /\ ints' = ints + 1 /\ Add("intr", 0)
  /\ UNCHANGED <<pc, got, line, n, res, disk, lost>>
Fail ==
  /\ pc = "read" /\ ~Complete /\ Add("fail", 0)
  /\ IF Partial THEN pc' = "up" /\ res' = "loaded" ELSE pc' = "down" /\ res' = "refused"
  /\ UNCHANGED <<got, line, n, ints, disk, lost>>
Eof ==
  /\ pc = "read" /\ ~Complete /\ got = Total /\ pc' = "up" /\ res' = "loaded"
  /\ UNCHANGED <<got, line, n, ints, disk, path, lost>>
Save == pc = "up" /\ disk' = "new" /\ lost' = (lost \/ (res = "loaded" /\ line < Len(Lines))) /\ pc' = "end" /\ UNCHANGED <<got, line, n, ints, res, path>>
Next == (\E h \in {"ok", "denied", "other"} : Open(h)) \/ Line \/ (\E k \in Chunks : Bring(k)) \/ Intr \/ Fail \/ Eof \/ Save
Spec == Init /\ [][Next]_v

Whole     == res = "loaded" => line = Len(Lines)
Untouched == res = "refused" => disk = "old"
NotLost   == ~lost
\* only a failing call or a line at fault prevents a start
Reason    == (res = "refused") => (line = BadLine /\ BadLine > 0) \/ path[Len(path)] = <<"fail", 0>> \/ path[Len(path)] = <<"start", "denied">>
Printed   == (Show /\ (pc = "end" \/ (pc = "down" /\ n = Starts))) => PrintT(<<"PATH", ToJson([lines |-> Lines, bad |-> BadLine, path |-> path])>>)
=============================================================================
