------------------------------ MODULE MC_Readers ------------------------------
(* Parallel reading: the daemon goes to the background, looks at the files  *)
(* if they are to be sorted, starts a reader per request, and waits for all *)
(* of them when MaxProcs are under way and at the end.  A reader takes any  *)
(* time; starting one may fail; if SIGCHLD is ignored the kernel reaps and  *)
(* waiting ends with an error.  Some of the paths have become pipes since   *)
(* they were recorded: to open one takes a writer, and there is none.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS N, MaxProcs, Ignored, Patient, Show   \* Patient: opens wait
VARIABLES pipes,    \* requests whose path is a pipe now
          pc,       \* "prio", "look", "next", "wait" (before starting one), "last" (at the end), "done"
          i,        \* the request in hand
          procs,    \* as counted by the daemon
          idle,     \* in the background
          alive, zombie,   \* readers
          asked, failed, loud    \* loud: asked for at normal priority
v == <<pipes, pc, i, procs, idle, alive, zombie, asked, failed, loud>>
Opens(r) == ~(Patient /\ r \in pipes)
Init == /\ pipes \in SUBSET (1..N) /\ Cardinality(pipes) <= 2
        /\ pc = "prio" /\ i = 1 /\ procs = 0 /\ idle = FALSE /\ alive = {} /\ zombie = {} /\ asked = {} /\ failed = {} /\ loud = {}
Prio == pc = "prio" /\ idle' = TRUE /\ pc' \in {"look", "next"} /\ UNCHANGED <<pipes, i, procs, alive, zombie, asked, failed, loud>>
Look == pc = "look" /\ Opens(i) /\ (IF i < N THEN i' = i + 1 /\ UNCHANGED pc ELSE i' = 1 /\ pc' = "next")
        /\ UNCHANGED <<pipes, procs, idle, alive, zombie, asked, failed, loud>>
Ask(r) == asked' = asked \union {r} /\ loud' = (IF idle THEN loud ELSE loud \union {r})
Next1 == /\ pc = "next" /\ i <= N
         /\ IF procs >= MaxProcs /\ procs > 0 THEN pc' = "wait" /\ UNCHANGED <<i, procs, alive, zombie, asked, failed, loud>>
            ELSE IF MaxProcs = 0
            THEN Opens(i) /\ Ask(i) /\ i' = i + 1 /\ UNCHANGED <<pc, procs, alive, zombie, failed>>
            ELSE \/ alive' = alive \union {i} /\ procs' = procs + 1 /\ i' = i + 1 /\ UNCHANGED <<pc, zombie, asked, failed, loud>>
                 \/ failed' = failed \union {i} /\ i' = i + 1 /\ UNCHANGED <<pc, procs, alive, zombie, asked, loud>>
         /\ UNCHANGED <<pipes, idle>>
Last  == pc = "next" /\ i > N /\ pc' = "last" /\ UNCHANGED <<pipes, i, procs, idle, alive, zombie, asked, failed, loud>>
Go    == pc \in {"wait", "last"} /\ procs = 0 /\ pc' = (IF pc = "wait" THEN "next" ELSE "done")
         /\ UNCHANGED <<pipes, i, procs, idle, alive, zombie, asked, failed, loud>>
Reap  == /\ pc \in {"wait", "last"} /\ procs > 0
         /\ \/ \E z \in zombie : zombie' = zombie \ {z} /\ procs' = procs - 1
            \/ alive = {} /\ zombie = {} /\ procs' = 0 /\ UNCHANGED zombie       \* no children left
         /\ UNCHANGED <<pipes, pc, i, idle, alive, asked, failed, loud>>
Finish(r) == /\ r \in alive /\ Opens(r) /\ alive' = alive \ {r} /\ Ask(r)
             /\ zombie' = (IF Ignored THEN zombie ELSE zombie \union {r}) /\ UNCHANGED <<pipes, pc, i, idle, procs, failed>>
Parent == Prio \/ Look \/ Next1 \/ Last \/ Go \/ Reap
Next == Parent \/ \E r \in 1..N : Finish(r)
Spec == Init /\ [][Next]_v /\ WF_v(Parent) /\ \A r \in 1..N : WF_v(Finish(r))
Bounded == Cardinality(alive \union zombie) <= MaxProcs
Counted == procs >= Cardinality(alive \union zombie)
Done    == pc = "done" => alive = {} /\ zombie = {} /\ procs = 0 /\ asked = (1..N) \ failed
Once    == failed \intersect asked = {}
Quiet   == loud = {}
Ends    == <>(pc = "done")
Printed == (Show /\ pc = "done") => PrintT(<<"PATH", ToJson(<<N, MaxProcs, [k \in 1..N |-> IF k \in failed THEN 1 ELSE 0], [k \in 1..N |-> IF k \in pipes THEN 1 ELSE 0]>>)>>)
=============================================================================
