------------------------------- MODULE MC_Plant -------------------------------
(* Saving in a directory where somebody else may make names too (but not     *)
(* replace the daemon's): whatever is at the temporary's name - a file, a    *)
(* link or a hard link to another file, a directory - and whenever it came   *)
(* there, nothing is written anywhere but to a file of the daemon's own, and *)
(* a save that cannot be done is reported and costs nothing.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds,      \* what may be put there, of "r" "l" "h" "d"
          Saves, Exclusive, Show
VARIABLES pc,         \* "idle", "open", "unlink", "again", "write", "rename"
          at,         \* what is at the name: "-" nothing, "o" the daemon's file, or a kind
          fd,         \* what the daemon's descriptor leads to: "-", "own", "junk", "victim"
          victim,     \* TRUE: as it was
          st,         \* what the state file holds: the number of a save, 0: none; -1: not the daemon's
          n, failed, told,
          busy,       \* something was put there during this save
          path
v == <<pc, at, fd, victim, st, n, failed, told, busy, path>>
Init == pc = "idle" /\ at = "-" /\ fd = "-" /\ victim = TRUE /\ st = 0 /\ n = 0 /\ failed = {} /\ told = {} /\ busy = FALSE /\ path = <<>>

\* somebody else: between saves, after the first look, after the removal
Plant(k) ==
  /\ at # "o" /\ ~busy /\ at # k
  /\ \/ pc = "idle" /\ n < Saves /\ (IF path = <<>> THEN TRUE ELSE path[Len(path)][1] # "before") /\ path' = Append(path, <<"before", k>>) /\ busy' = FALSE
     \/ pc = "unlink" /\ path' = Append(path, <<"looked", k>>) /\ busy' = TRUE
     \/ pc = "again" /\ path' = Append(path, <<"removed", k>>) /\ busy' = TRUE
  /\ at' = k
  /\ UNCHANGED <<pc, fd, victim, st, n, failed, told>>

Start == pc = "idle" /\ n < Saves /\ n' = n + 1 /\ pc' = "open" /\ busy' = FALSE /\ path' = Append(path, <<"save", "">>)
         /\ UNCHANGED <<at, fd, victim, st, failed, told>>
Fail  == /\ failed' = failed \union {n} /\ told' = told \union {n} /\ pc' = "idle" /\ fd' = "-"
Leads == CASE at \in {"-", "o"} -> "own" [] at = "r" -> "junk" [] OTHER -> "victim"
OpenOn(next) ==
  IF at = "-" \/ (~Exclusive /\ at # "d")
  THEN pc' = "write" /\ fd' = Leads /\ at' = (IF at = "-" THEN "o" ELSE at) /\ UNCHANGED <<failed, told>>
  ELSE IF next = "" THEN Fail /\ UNCHANGED at
  ELSE pc' = next /\ UNCHANGED <<at, fd, failed, told>>
Open  == pc = "open"  /\ OpenOn("unlink") /\ UNCHANGED <<victim, st, n, busy, path>>
Again == pc = "again" /\ OpenOn("") /\ UNCHANGED <<victim, st, n, busy, path>>
Unlink == /\ pc = "unlink"
          /\ IF at = "d" THEN Fail /\ UNCHANGED at ELSE at' = "-" /\ pc' = "again" /\ UNCHANGED <<fd, failed, told>>
          /\ UNCHANGED <<victim, st, n, busy, path>>
Write == pc = "write" /\ victim' = (victim /\ fd # "victim") /\ pc' = "rename" /\ UNCHANGED <<at, fd, st, n, failed, told, busy, path>>
Rename == pc = "rename" /\ st' = (IF at = "o" THEN n ELSE -1) /\ at' = "-" /\ fd' = "-" /\ pc' = "idle" /\ UNCHANGED <<victim, n, failed, told, busy, path>>
Next == (\E k \in Kinds : Plant(k)) \/ Start \/ Open \/ Unlink \/ Again \/ Write \/ Rename
Spec == Init /\ [][Next]_v
Printed == (Show /\ pc = "idle" /\ n = Saves) => PrintT(<<"PATH", ToJson(path)>>)

Intact == victim
OwnOnly == fd \in {"-", "own"} /\ st # -1
\* the last save that did not fail is what is there
Kept == pc = "idle" => st = (LET ok == (1..n) \ failed IN IF ok = {} THEN 0 ELSE CHOOSE x \in ok : \A y \in ok : y <= x)
Told == told = failed
\* only a directory, or a name that was taken again at once, can prevent a save
Regains == (pc = "idle" /\ n \in failed) => at # "-"
Clean == (pc = "idle" /\ n > 0 /\ n \notin failed) => (at = "-" \/ path[Len(path)][1] = "before")
=============================================================================
