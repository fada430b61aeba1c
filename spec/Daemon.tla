------------------------------- MODULE Daemon -------------------------------
(* The daemon: timers, signals, battery, saves, configuration.  A daemon d  *)
(* has the fields                                                           *)
(*   m      the learned model (Preload)     c   configuration in force      *)
(*   tk     the next step, "scan" or "update", due at tdue (ms)             *)
(*   sdue   when the next periodic save is due                              *)
(*   disk   the state file: [st |-> "none"], or [st |-> "file", rd |-> ...] *)
(*          with what reading it amounts to (StateFile!Read)                *)
(*   blk, bs  remembered disk blocks, and for which sort setting            *)
(*   quit   "" / "term" / "exit" / "crash" / "fail"                         *)
(* and, for the line being checked:                                         *)
(*   att    save attempts seen and not yet explained                        *)
(*   pred   the situation a prediction was made in (at most one)            *)
(*   nscan, ndump, nsave (saves done), nfail (reloads refused)              *)
(*   dumps, cdumps  what was reported of models and configurations         *)
(*   err    what could not be explained                                     *)
(* An environment e (what the daemon sees at this moment):                  *)
(*   now, procs, files, mem, bat, conf (the configuration file)             *)
(*   unit: bytes per unit of length; debug: a daemon that tells everything   *)
(*   wit: path -> registration number, out: <<path -> what the    *)
(*   record says an application turned out to be>>, or <<>> if unknown       *)
EXTENDS Predict, Conf, Readahead, StateFile

----------------------------------------------------------------------------
RECURSIVE LStrip(_)
Blank(s) == Len(s) > 2 /\ SubSeq(s, 1, 3) \in {"%20", "%09", "%0A", "%0B", "%0C", "%0D"}
LStrip(s) == IF Blank(s) THEN LStrip(SubSeq(s, 4, Len(s))) ELSE s
\* the battery status is one word followed by blanks, if anything
IsWord(s, w) == LET t == LStrip(s) IN
                StartsWith(t, w) /\ LStrip(SubSeq(t, Len(w) + 1, Len(t))) = ""
OnBattery(bat) == \E i \in DOMAIN bat : IsWord(bat[i], "Discharging")

\* the name of a region
KeyOf(p, r) == p \o "|" \o r.ol

Err(d, x) == [d EXCEPT !.err = @ \union {x}]

\* what is reported of a model
Reported(m) == [time |-> m.time, exes |-> Cardinality(DOMAIN m.exes), bad |-> Cardinality(DOMAIN m.bad),
                maps |-> Cardinality(Regions(m)), run |-> Cardinality(m.rlist)]

----------------------------------------------------------------------------
(* Steps *)

ScanStep(d, e) ==
  LET c  == d.c
      m1 == IF c.doscan = 1 THEN Scan(d.m, c, Vomm(c), e.procs) ELSE d.m
  IN IF OnBattery(e.bat)
     THEN [d EXCEPT !.m.time = @ + c.cycle, !.tk = "update", !.tdue = e.now + (2000 * c.cycle)]
     ELSE [d EXCEPT !.m = [m1 EXCEPT !.time = @ + (c.cycle \div 2)],
                    !.nscan = @ + c.doscan,
                    !.dumps = IF e.debug /\ c.doscan = 1 THEN Append(@, Reported(m1)) ELSE @,
                    !.pred = IF c.dopredict = 1 THEN Append(@, [m |-> m1, c |-> c, mem |-> e.mem, files |-> e.files]) ELSE @,
                    !.tk = "update",
                    !.tdue = e.now + (1000 * (c.cycle \div 2))]

\* the unknown applications in the order they were registered, as witnessed
NewOrder(m, wit) ==
  LET W(p) == IF p \in DOMAIN wit THEN wit[p] ELSE 1000000000
  IN SortSeq(SetToSeq(DOMAIN m.new), LAMBDA a, b : W(a) < W(b))

Outcome(r) == [r |-> r.r, maps |-> r.maps, size |-> IF r.r = "small" THEN r.size ELSE 0]

DeadEnd == [r |-> "dead", maps |-> EmptyF, size |-> 0]
\* several processes of a new application: any of them may be looked at
DigestNew(d, e, p) ==
  LET poss == {Digest(d.c, e.procs, pid, KeyOf, (d.c.minsize + (e.unit - 1)) \div e.unit) : pid \in d.m.new[p]}
      good == {r \in poss : e.out # <<>> /\ Outcome(r) = (IF p \in DOMAIN e.out[1] THEN e.out[1][p] ELSE DeadEnd)}
  IN IF good # {} THEN CHOOSE r \in good : TRUE ELSE CHOOSE r \in poss : TRUE

UpdateStep(d, e) ==
  LET c  == d.c
      m1 == IF d.m.mdirty THEN Update(d.m, Vomm(c), NewOrder(d.m, e.wit), [p \in DOMAIN d.m.new |-> DigestNew(d, e, p)])
            ELSE d.m
  IN [d EXCEPT !.m = [m1 EXCEPT !.time = @ + ((c.cycle + 1) \div 2)],
               !.tk = "scan",
               !.tdue = e.now + (1000 * ((c.cycle + 1) \div 2))]

Step(d, e) == IF d.tk = "scan" THEN ScanStep(d, e) ELSE UpdateStep(d, e)

----------------------------------------------------------------------------
(* Saves.  An attempt is the sequence of its system calls [op, act]:        *)
(* act "-" done, "s" short, "e" failed, "c" the crash.                      *)

Last2(ops) == ops[Len(ops)].op
Renamed(ops) == \E i \in DOMAIN ops : ops[i].op = "rename" /\ ops[i].act = "-"
RenameAt(ops) == CHOOSE i \in DOMAIN ops : ops[i].op = "rename" /\ ops[i].act = "-"
\* the new file was complete and on disk when it replaced the old one
Protocol(ops) ==
  LET r == RenameAt(ops)
      w == {i \in 1..r : ops[i].op \in {"write", "trunc"}}
  IN /\ w # {}
     /\ \A i \in w : ops[i].act \in {"-", "s"}
     /\ \E i \in 1..r : ops[i].op = "sync" /\ ops[i].act = "-" /\ \A j \in w : j < i
     /\ \A i \in 1..r : ops[i].op = "sync" => ops[i].act = "-"
     /\ \A i \in DOMAIN ops : ops[i].op \in {"write", "trunc"} => i < r
Failed(ops) == \E i \in DOMAIN ops : ops[i].act = "e"
\* a failure that leaves the temporary file behind
Crashed(ops) == \E i \in DOMAIN ops : ops[i].act = "c"

Cleaned(d, e) == [d EXCEPT !.m = Cleanup(@, e.files)]

Save(d, e) ==
  IF ~d.m.dirty THEN [Cleaned(d, e) EXCEPT !.nsave = @ + 1]
  ELSE IF d.att = <<>> THEN Err(Cleaned(d, e), "nosave")
  ELSE LET ops == Head(d.att)
           d1  == [d EXCEPT !.att = Tail(@), !.nsave = @ + 1]
           ok  == Renamed(ops)
           d2  == IF ~ok THEN (IF Crashed(ops) THEN d1 ELSE IF Failed(ops) THEN [d1 EXCEPT !.nbad = @ + 1] ELSE Err(d1, "unsaved"))
                  ELSE IF Protocol(ops) THEN d1 ELSE Err(d1, "protocol")
           d3  == IF ok THEN [d2 EXCEPT !.disk = [st |-> "file", rd |-> [res |-> "loaded", line |-> 0, c |-> Content(d.m)]], !.m.dirty = FALSE] ELSE d2
       IN IF Crashed(ops) THEN [d3 EXCEPT !.quit = "crash"] ELSE Cleaned(d3, e)

Autosave(d, e) == LET d1 == Save(d, e) IN [d1 EXCEPT !.sdue = e.now + (1000 * d1.c.autosave)]

----------------------------------------------------------------------------
(* Signals *)

Reload(d, e) ==
  LET d1 == IF Valid(e.conf) THEN [d EXCEPT !.c = Load(e.conf)] ELSE [d EXCEPT !.nfail = @ + 1]
  IN [d1 EXCEPT !.m = StartAlgorithm(@, Vomm(d1.c)), !.nreopen = @ + 1]

Deliver(d, e, sig) ==
  CASE sig = "HUP"  -> Reload(d, e)
    [] sig = "USR1" -> [d EXCEPT !.dumps = Append(@, Reported(d.m)),
                                 !.cdumps = Append(@, Dumped(d.c))]
    [] sig = "USR2" -> Save(d, e)
    [] sig = "PIPE" -> d
    [] OTHER        -> [d EXCEPT !.quit = "term"]

Finish(d, e) == LET d1 == Save(d, e) IN IF d1.quit = "crash" THEN d1 ELSE [d1 EXCEPT !.quit = "exit"]

(* Everything that may happen from one idle moment to the next: the timers  *)
(* that are due and the signals q (each [s, mid]; mid: it arrives when a    *)
(* step is under way) are served one at a time, the signals in order.       *)
Due(d, e) == (IF d.tdue <= e.now THEN {"step"} ELSE {}) \union (IF d.sdue <= e.now THEN {"save"} ELSE {})
RECURSIVE Runs(_, _, _, _)
Runs(d, e, q, started) ==
  IF d.quit = "crash" THEN {d}
  ELSE LET due == Due(d, e)
           t == IF "step" \in due THEN Runs(Step(d, e), e, q, TRUE) ELSE {}
           a == IF "save" \in due THEN Runs(Autosave(d, e), e, q, TRUE) ELSE {}
           s == IF d.quit = "" /\ q # <<>> /\ (Head(q).mid => started)
                THEN Runs(Deliver(d, e, Head(q).s), e, Tail(q), TRUE) ELSE {}
           f == IF d.quit = "term" THEN {Finish(d, e)}
                ELSE IF due = {} /\ (q = <<>> \/ (~started /\ Head(q).mid)) THEN {d} ELSE {}
       IN t \union a \union s \union f

----------------------------------------------------------------------------
(* Starting up *)

Boot(disk, e) ==
  LET c0 == Load(e.conf)
      rd == IF disk.st = "file" THEN disk.rd ELSE [res |-> "ignored", line |-> 0, c |-> NoContent]
      m0 == Startup(rd.c, c0, Vomm(c0), e.procs)
      ok == Valid(e.conf) /\ rd.res # "refused"
  IN [ m |-> IF ok THEN StartAlgorithm(m0, Vomm(c0)) ELSE EmptyModel,
       c |-> IF ok THEN c0 ELSE Defaults,
       tk |-> "scan", tdue |-> 0, sdue |-> 1000 * (IF ok THEN c0.autosave ELSE 1), disk |-> disk,
       blk |-> EmptyF, bs |-> 0, quit |-> IF ok THEN "" ELSE "fail",
       why |-> IF ~Valid(e.conf) THEN "conf" ELSE IF rd.res = "refused" THEN "line" ELSE rd.res,
       eline |-> rd.line,
       att |-> <<>>, pred |-> <<>>, nscan |-> 0, nsave |-> 0, nbad |-> 0, nfail |-> 0, nreopen |-> 0,
       dumps |-> <<>>, cdumps |-> <<>>, err |-> {} ]

\* how reading the state file went: "" well; "denied", "unopened": it did not
\* open; "unread": a read failed, and so the file is refused as it is
BootRead(disk, e, how) ==
  IF how = "" THEN Boot(disk, e)
  ELSE LET b == [Boot([st |-> "none"], e) EXCEPT !.disk = disk] IN
       CASE b.quit = "fail"   -> b
         [] how = "unopened" -> [b EXCEPT !.nbad = 1]
         [] OTHER            -> [b EXCEPT !.quit = "fail", !.why = "unread"]
=============================================================================
