------------------------------ MODULE MC_Daemon ------------------------------
(* The daemon of Daemon.tla in a small closed world, explored exhaustively  *)
(* by TLC: a few applications that start, stop and lose their executables,  *)
(* a battery, configuration files, signals, saves that succeed, fail or are *)
(* cut short by a crash, and restarts.                                      *)
(*                                                                          *)
(* Two uses.  (1) The properties below are checked in every reachable state *)
(* and on every step.  (2) path, the sequence of the environment's moves,   *)
(* is printed for every transition; tools/models.py replays these           *)
(* behaviours in the real daemon, whose recorded run Trace.tla then checks  *)
(* against the same operators.                                              *)
EXTENDS Daemon, Json

CONSTANTS Apps,      \* names of the applications
          Small,     \* those below the minimum size
          Moves,     \* kinds of moves allowed
          Confs,     \* numbers of configuration files (below)
          Depth,     \* number of moves
          AppSeq,     \* applications appear in the order of this sequence
          Show       \* print the behaviours

OrderABC == <<"/bin/a", "/bin/b", "/bin/c">>

VARIABLES d,         \* the daemon
          w,         \* the world: [now, run, gone, bat, cf]
          g,         \* ghosts: see below
          path       \* the moves so far
vars == <<d, w, g, path>>

----------------------------------------------------------------------------
(* The world *)

Base(alg, cyc) ==
  [st |-> "ok", kv |-> << [g |-> "model", k |-> "cycle", ok |-> TRUE, v |-> cyc],
                          [g |-> "model", k |-> "minsize", ok |-> TRUE, v |-> 3],
                          [g |-> "system", k |-> "prediction_algorithm", ok |-> TRUE, v |-> alg] >>]
With(c, gg, k, v) == [c EXCEPT !.kv = Append(@, [g |-> gg, k |-> k, ok |-> TRUE, v |-> v])]
ConfFile(n) ==
  CASE n = 1 -> Base("VOMM", 4)
    [] n = 2 -> Base("MARKOV", 4)
    [] n = 3 -> With(Base("VOMM", 4), "system", "doscan", 0)
    [] n = 4 -> With(Base("MARKOV", 3), "system", "autosave", 5)
    [] n = 5 -> [st |-> "malformed"]
    [] n = 6 -> [Base("VOMM", 2) EXCEPT !.kv = Append(@, [g |-> "system", k |-> "autosave", ok |-> FALSE, v |-> 0])]
    [] n = 7 -> With(Base("VOMM", 4), "system", "exeprefix", <<"!/bin/b", "/bin">>)
    [] n = 8 -> With(Base("VOMM", 5), "system", "dopredict", 0)
    [] n = 9 -> With(Base("VOMM", 4), "system", "autosave", 5)

Maps(p) == IF p \in Small THEN << [x |-> p, n |-> 6, len |-> 1, ol |-> "0,1"] >>
           ELSE << [x |-> p, n |-> 6, len |-> 3, ol |-> "0,3"], [x |-> "/lib/x", n |-> 6, len |-> 2, ol |-> "1,2"],
                   [x |-> "[heap]", n |-> 6, len |-> 9, ol |-> "0,9"] >>
Idx(p) == CHOOSE i \in DOMAIN AppSeq : AppSeq[i] = p
Procs(run) == LET s == SortSeq(SetToSeq(run), LAMBDA a, b : Idx(a) < Idx(b))
              IN [i \in DOMAIN s |-> [pid |-> 9 + Idx(s[i]), unr |-> FALSE, x |-> s[i], n |-> 6, dying |-> FALSE, maps |-> Maps(s[i])]]
Env(ww) == [ now |-> ww.now, procs |-> Procs(ww.run),
             files |-> [p \in Apps |-> [k |-> IF p \in ww.gone THEN "n" ELSE "r", ino |-> Idx(p), blk |-> 0, noopen |-> 0]],
             mem |-> [total |-> 100000, free |-> 10000, avail |-> 50000, cached |-> 0, buffers |-> 0],
             bat |-> IF ww.bat THEN <<"Discharging%0A">> ELSE <<>>,
             conf |-> ConfFile(ww.cf), unit |-> 1, debug |-> FALSE, wit |-> [p \in Apps |-> Idx(p)], out |-> <<>> ]

O(op, act) == [op |-> op, act |-> act]
GoodSave == <<O("open", "-"), O("write", "-"), O("sync", "-"), O("close", "-"), O("rename", "-")>>
\* the calls of a save that fails, or crashes, at the k-th
BadSave(k, act) == [i \in 1..k |-> IF i = k THEN O(GoodSave[k].op, act) ELSE GoodSave[i]]

----------------------------------------------------------------------------
(* Ghosts: what happened, told without the model's bookkeeping              *)
(*   saved  the content of the last save that replaced the file             *)
(*   t0, m0 when this life began, and the model time then                   *)
(*   slack  how far model time runs behind because of spells on battery,    *)
(*          and of what was slept through                                   *)
(*   ran    application -> seconds credited: between two updates, if it was *)
(*          observed running by the scan before the later one               *)
(*   both   the same for pairs of applications                              *)
(*   upd    model time of the last update or start                          *)
(*   seen   applications observed running by the latest scan                *)
(*   f      what was seen to follow what (Predict!Followed); sfol: saved     *)
Pairs == {s \in SUBSET Apps : Cardinality(s) = 2}
G0(t) == [saved |-> NoContent, t0 |-> 0, m0 |-> t, slack |-> 0, ran |-> [p \in Apps |-> 0], both |-> [s \in Pairs |-> 0],
          upd |-> t, seen |-> {}, kind |-> "boot", f |-> NoFollow, sfol |-> {}]

Known(m) == DOMAIN m.exes
\* ghosts after a timer step from d0 to d1
GStep(g0, d0, d1, ww) ==
  LET gg == [g0 EXCEPT !.f = Followed(@, d0.m.rlist, d1.m.rlist, Known(d1.m), Vomm(d0.c))] IN
  IF d0.tk = "scan"
  THEN IF OnBattery(Env(ww).bat) THEN [gg EXCEPT !.slack = @ + d0.c.cycle]
       ELSE IF d0.c.doscan = 1 THEN [gg EXCEPT !.seen = {p \in ww.run : Accept(p, d0.c.exeprefix)}] ELSE gg
  ELSE IF ~d0.m.mdirty THEN gg
  ELSE LET dt == d0.m.time - gg.upd
           \* credited: known now and observed, unless it died before its size was looked at
           R  == {p \in Known(d1.m) : p \in gg.seen}
       IN [gg EXCEPT !.ran  = [p \in Apps |-> @[p] + IF p \in R THEN dt ELSE 0],
                     !.both = [s \in Pairs |-> @[s] + IF s \subseteq R THEN dt ELSE 0],
                     !.upd  = d0.m.time]
\* what is forgotten is forgotten
GForget(gg, m) == [gg EXCEPT !.ran  = [p \in Apps |-> IF p \in Known(m) THEN @[p] ELSE 0],
                             !.both = [s \in Pairs |-> IF s \subseteq Known(m) THEN @[s] ELSE 0],
                             !.f = Followed(@, {}, {}, Known(m), TRUE)]

----------------------------------------------------------------------------
(* Moves *)

Clean(dd) == [dd EXCEPT !.att = <<>>, !.pred = <<>>, !.nscan = 0, !.nsave = 0, !.nbad = 0, !.nfail = 0, !.nreopen = 0, !.dumps = <<>>, !.cdumps = <<>>, !.err = {}]
Note(x) == path' = Append(path, x)
Ok(m) == m \in Moves
Alive == d.quit = ""

\* the first step is due at once
First(b, ww) == IF b.quit = "" THEN CHOOSE r \in Runs(b, Env(ww), <<>>, FALSE) : TRUE ELSE b
GFirst(gg, b, ww) == IF b.quit = "" THEN GStep(gg, b, First(b, ww), ww) ELSE gg

Init == /\ w \in {[now |-> 0, run |-> {}, gone |-> {}, bat |-> FALSE, cf |-> c] : c \in {x \in Confs : Valid(ConfFile(x))}}
        /\ d = First(Boot([st |-> "none"], Env(w)), w)
        /\ g = GFirst(G0(0), Boot([st |-> "none"], Env(w)), w)
        /\ path = <<"conf " \o ToString(w.cf)>>

\* applications show up in a fixed order, to save symmetric behaviours
Seen0 == Known(d.m) \union DOMAIN d.m.bad \union w.run
MayRun(S) == \A p \in S : \A q \in Apps : Idx(q) < Idx(p) => q \in Seen0 \union S
RECURSIVE Str(_)
Str(S) == IF S = {} THEN "" ELSE LET p == CHOOSE x \in S : \A y \in S : Idx(x) <= Idx(y) IN " " \o p \o Str(S \ {p})

\* some applications start or stop, then the next timer fires, or fires so many
\* seconds late (the machine was asleep)
Tick(S, late) ==
  /\ Alive /\ Ok(IF late > 0 THEN "late" ELSE "tick") /\ MayRun(S)
  /\ LET w1 == [w EXCEPT !.run = S]
         due == IF d.tdue <= d.sdue THEN d.tdue ELSE d.sdue
         w2 == [w1 EXCEPT !.now = due + (1000 * late)]
         d1 == [Clean(d) EXCEPT !.att = <<GoodSave>>]
         \* the save and the step may fall on the same moment
     IN /\ w' = w2
        /\ \E r \in Runs(d1, Env(w2), <<>>, FALSE) :
             /\ d' = r
             /\ g' = LET g1 == IF d.tdue <= w2.now THEN [GStep(g, d, r, w2) EXCEPT !.slack = @ + ((w2.now - d.tdue) \div 1000)] ELSE g
                         g2 == IF r.nsave > 0 THEN GForget([g1 EXCEPT !.saved = IF r.disk # d.disk THEN r.disk.rd.c ELSE @,
                                                                    !.sfol = IF r.disk # d.disk THEN g.f.fol \intersect g1.f.fol ELSE @], r.m) ELSE g1
                     IN [g2 EXCEPT !.kind = IF r.nsave > 0 THEN "both" ELSE "step"]
        /\ Note((IF late > 0 THEN "late " \o ToString(late) ELSE "tick") \o Str(S))

Signal(s) ==
  /\ Alive /\ Ok(s)
  /\ LET d1 == [Clean(d) EXCEPT !.att = <<GoodSave>>] IN
     \E r \in Runs(d1, Env(w), << [s |-> s, mid |-> FALSE] >>, FALSE) :
       /\ d' = r
       /\ g' = LET g1 == IF r.nsave > 0 THEN GForget([g EXCEPT !.saved = IF r.m.dirty # d.m.dirty THEN r.disk.rd.c ELSE @,
                                                            !.sfol = IF r.m.dirty # d.m.dirty THEN g.f.fol ELSE @], r.m) ELSE g
               IN [g1 EXCEPT !.kind = s, !.f.last = IF r.c # d.c THEN "" ELSE @]
  /\ Note("sig " \o s) /\ UNCHANGED w

\* a save on request that fails or crashes at the k-th call
Fail(k, act) ==
  /\ Alive /\ Ok(IF act = "e" THEN "fail" ELSE "crash") /\ d.m.dirty
  /\ LET d1 == [Clean(d) EXCEPT !.att = <<BadSave(k, act)>>] IN
     \E r \in Runs(d1, Env(w), << [s |-> "USR2", mid |-> FALSE] >>, FALSE) :
       /\ d' = r
       /\ g' = [GForget(g, IF act = "e" THEN r.m ELSE d.m) EXCEPT !.kind = "failed"]
  /\ Note("fail " \o ToString(k) \o " " \o act) /\ UNCHANGED w

Lose(p) == /\ Alive /\ Ok("lose") /\ p \notin w.gone /\ p \in Known(d.m)
           /\ w' = [w EXCEPT !.gone = @ \union {p}] /\ Note("lose " \o p) /\ UNCHANGED d /\ g' = [g EXCEPT !.kind = "none"]
Find(p) == /\ Alive /\ Ok("lose") /\ p \in w.gone
           /\ w' = [w EXCEPT !.gone = @ \ {p}] /\ Note("find " \o p) /\ UNCHANGED d /\ g' = [g EXCEPT !.kind = "none"]
Battery == /\ Alive /\ Ok("battery")
           /\ w' = [w EXCEPT !.bat = ~@] /\ Note(IF w.bat THEN "mains" ELSE "battery") /\ UNCHANGED d /\ g' = [g EXCEPT !.kind = "none"]
Edit(c) == /\ Alive /\ Ok("HUP") /\ c # w.cf
           /\ w' = [w EXCEPT !.cf = c] /\ Note("conf " \o ToString(c)) /\ UNCHANGED d /\ g' = [g EXCEPT !.kind = "none"]

\* after an exit or a crash: the next life, possibly with others running
Restart(S) ==
  /\ ~Alive /\ MayRun(S) /\ Ok("restart")
  /\ LET w1 == [w EXCEPT !.run = S, !.now = 0]  r == Boot(d.disk, Env(w1)) IN
     /\ w' = w1 /\ d' = First(r, w1)
     /\ g' = GFirst([G0(r.m.time) EXCEPT !.saved = g.saved, !.sfol = g.sfol,
                !.f = [fol |-> {x \in g.sfol : {x[1], x[2]} \subseteq Known(r.m)}, last |-> ""],
                !.ran  = [p \in Apps |-> IF p \in DOMAIN g.saved.exes THEN g.saved.exes[p].time ELSE 0],
                !.both = [s \in Pairs |-> LET ks == {k \in DOMAIN g.saved.chains : {k[1], k[2]} = s}
                                          IN IF ks = {} THEN 0 ELSE g.saved.chains[CHOOSE k \in ks : TRUE].t],
                !.seen = S \intersect DOMAIN r.m.exes], r, w1)
  /\ Note("restart" \o Str(S))

Next == /\ Len(path) <= Depth
        /\ \/ \E S \in SUBSET Apps : Tick(S, 0) \/ Tick(S, 1) \/ Tick(S, 7) \/ Restart(S)
           \/ \E s \in {"HUP", "USR1", "USR2", "TERM"} : Signal(s)
           \/ \E k \in 1..5 : Fail(k, "e") \/ Fail(k, "c")
           \/ \E p \in Apps : Lose(p) \/ Find(p)
           \/ Battery
           \/ \E c \in Confs : Edit(c)
Spec == Init /\ [][Next]_vars

\* what distinguishes two situations; not how they were reached
View == <<d.m, d.c, d.tk, d.tdue - w.now, d.sdue - w.now, d.disk, d.quit, w.run, w.gone, w.bat, w.cf, g.ran, g.both, g.saved, g.seen, g.kind, g.f, g.sfol, Len(path)>>

Printed == Show => PrintT(<<"PATH", ToJson(path')>>)

----------------------------------------------------------------------------
(* Properties in every state *)

m == d.m
Known1   == PairOnce(m)                                           \* P07, P14
Depart   == DeparturesInv(m)                                      \* P07
Times    == TimesInv(m)                                           \* P06
Tree     == TreeInv(m)                                            \* P08, P14
Refs     == d.quit = "" => m.rlist = RunningSet(m) /\ m.pend \subseteq Paths(m)   \* P04, P14
States   == (~m.mdirty /\ d.quit = "") => StateInv(m)             \* P07
\* P06: running times are the observed ones
Observed == d.quit = "" =>
  /\ \A p \in Known(m) : m.exes[p].time = g.ran[p]
  /\ \A c \in DOMAIN m.chains : m.chains[c].t = g.both[{c[1], c[2]}]
\* P01, P02: the file is what the last completed save wrote
OnDisk   == d.disk.st = "file" => d.disk.rd.res = "loaded" /\ d.disk.rd.c = g.saved
\* P01: nothing learned is considered saved that is not in the file
Clean1   == (~m.dirty /\ d.quit = "" /\ Known(m) # {}) => /\ d.disk.st = "file" /\ \A p \in Known(m) : p \in DOMAIN g.saved.exes /\ m.exes[p].time = g.saved.exes[p].time
\* P04: with scanning on, exactly the observed ones run
Running1 == (d.quit = "" /\ ~m.mdirty /\ g.kind # "boot") => RunningSet(m) \subseteq g.seen
\* P05: nothing rejected by the filter is learned (with a single configuration in force)
Filter1  == Cardinality(Confs) = 1 => \A p \in Known(m) \union DOMAIN m.bad : Accept(p, d.c.exeprefix)
SmallInv == Known(m) \intersect Small = {} /\ DOMAIN m.bad \subseteq Small           \* P04
\* P16: model time is the time that passed awake, but for spells on battery, when it runs at half speed
Clock    == (d.quit = "" /\ Cardinality(Confs) = 1) => m.time - g.m0 + g.slack = d.tdue \div 1000
\* P02: what a save would write now reads back as what is known
RoundTrip == LET c == Content(m)  r == Read(Written(c)) IN r.res = "loaded" /\ r.c = c
NoErr    == d.err = {}
\* P16: a step is always coming, and never late
Tempo    == d.quit = "" => d.tdue >= w.now /\ d.sdue >= w.now /\ d.tdue - w.now <= 2000 * 5 /\ Due(d, [now |-> w.now]) \subseteq {"step"} 

\* P09, P10: whatever was learned, scores are probabilities; by the launch tree
\* nobody bids for who runs, and a likelier successor never does worse
Sc == Scores(m, d.c, Vomm(d.c))
Scored   == d.quit = "" => LET sc == Sc IN
  /\ \A p \in Known(m) : 0 <= sc[p][1] /\ sc[p][1] <= sc[p][2] /\ sc[p][2] <= M
  /\ Vomm(d.c) => \A p \in RunningSet(m) : sc[p] = <<M, M>>
  /\ Vomm(d.c) => LikelierFirst(m, sc)
  /\ ~Vomm(d.c) => \A ks \in SUBSET DOMAIN m.chains : Cardinality(ks) <= 1 => Scores(Turned(m, ks), d.c, FALSE) = sc
  /\ ~Vomm(d.c) => \A p \in Known(m) :
       (\A k \in DOMAIN m.chains : (k[1] = p \/ k[2] = p) =>
            (m.chains[k].w[m.chains[k].st + 1][m.chains[k].st + 1] = 0 \/ Bit(m.chains[k].st, IF k[1] = p THEN 1 ELSE 2) = 1)) => sc[p] = <<M, M>>

\* P21: who was seen to follow someone is predicted when idle; nobody else is
Foreseen == (d.quit = "" /\ Vomm(d.c)) => LET sc == Sc IN
  /\ Foresees(m, g.f.fol, LAMBDA p : sc[p][2] < M)
  /\ NoGuess(m, LAMBDA p : sc[p][1] < M)

----------------------------------------------------------------------------
(* Properties of every step *)

Same(a, b, f) == a[f] = b[f]
\* P16, P17: learning and prediction happen at the steps only, one by one
TickOK ==
  (g'.kind \in {"step", "both"}) =>
    /\ (d.tk = "scan" /\ d.tdue <= w'.now) =>
          /\ d'.tk = "update"
          /\ IF w.bat THEN d'.nscan = 0 /\ d'.pred = <<>> /\ d'.m.time = d.m.time + d.c.cycle /\ d'.tdue = w'.now + 2000 * d.c.cycle /\ d'.m.mdirty = d.m.mdirty
             ELSE d'.nscan = d.c.doscan /\ Len(d'.pred) = d.c.dopredict /\ d'.tdue = w'.now + 1000 * (d.c.cycle \div 2)
    /\ (d.tk = "update" /\ d.tdue <= w'.now) =>
          d'.tk = "scan" /\ d'.nscan = 0 /\ d'.pred = <<>> /\ ~d'.m.mdirty /\ d'.tdue = w'.now + 1000 * ((d.c.cycle + 1) \div 2)
    /\ (d.tdue > w'.now) => d'.nscan = 0 /\ d'.pred = <<>> /\ d'.tdue = d.tdue
    /\ (d.sdue <= w'.now) = (d'.nsave = 1)
    /\ d'.sdue = (IF d.sdue <= w'.now THEN w'.now + 1000 * d.c.autosave ELSE d.sdue)
    /\ d'.c = d.c
\* P16: a signal does its job once and nothing else
SigOK == (g'.kind \in {"HUP", "USR1", "USR2", "TERM"}) =>
    /\ d'.tk = d.tk /\ d'.tdue = d.tdue /\ d'.nscan = 0 /\ d'.pred = <<>>
    /\ Len(d'.dumps) = (IF g'.kind = "USR1" THEN 1 ELSE 0)
    /\ d'.cdumps = (IF g'.kind = "USR1" THEN <<Dumped(d.c)>> ELSE <<>>)
    /\ d'.nreopen = (IF g'.kind = "HUP" THEN 1 ELSE 0)
    /\ d'.nsave = (IF g'.kind \in {"USR2", "TERM"} THEN 1 ELSE 0)
    /\ d'.quit = (IF g'.kind = "TERM" THEN "exit" ELSE "")
    /\ g'.kind = "USR1" => d'.m = d.m /\ d'.c = d.c
    /\ g'.kind # "HUP" => d'.c = d.c
    /\ d'.sdue = d.sdue
    \* P15: all or nothing, at once
    /\ g'.kind = "HUP" => /\ d'.c = (IF Valid(ConfFile(w.cf)) THEN Load(ConfFile(w.cf)) ELSE d.c)
                          /\ [d.m EXCEPT !.nodes = <<>>, !.root = FALSE] = [d'.m EXCEPT !.nodes = <<>>, !.root = FALSE]
                          /\ (d'.m.nodes = d.m.nodes \/ (d.m.nodes = EmptyF /\ Vomm(d'.c)))
\* P13: a save, completed or not, forgets the idle applications that are gone
SaveOK == (g'.kind \in {"USR2", "TERM", "failed"} /\ d'.quit # "crash") =>
    LET dead == {p \in Known(d.m) : ~Running(d.m, p) /\ p \in w.gone} IN
    /\ Known(d'.m) = Known(d.m) \ dead
    /\ d'.m.bad = EmptyF
    /\ \A p \in Known(d'.m) : d'.m.exes[p] = d.m.exes[p]
    /\ DOMAIN d'.m.chains = {c \in DOMAIN d.m.chains : c[1] \notin dead /\ c[2] \notin dead}
    /\ \A c \in DOMAIN d'.m.chains : d'.m.chains[c] = d.m.chains[c]
    /\ DOMAIN d'.m.nodes = {k \in DOMAIN d.m.nodes : \A i \in DOMAIN k : k[i] \notin dead}
    /\ \A k \in DOMAIN d'.m.nodes : d'.m.nodes[k] = d.m.nodes[k]
    /\ d'.m.hist = SelectSeq(d.m.hist, LAMBDA p : p \notin dead)
    /\ d'.m.time = d.m.time /\ d'.m.lrt = d.m.lrt /\ d'.m.mdirty = d.m.mdirty
\* P01: the file changes only by a completed save, and then to what was known
DiskOK ==
    /\ g'.kind = "failed" => d'.disk = d.disk /\ (d'.quit = "" => d'.m.dirty)
    /\ d'.disk # d.disk => /\ g'.kind \in {"both", "USR2", "TERM"}
                           /\ d'.disk.st = "file" /\ d'.disk.rd.res = "loaded"
                           /\ \/ d'.disk.rd.c = Content(d.m)
                              \/ \* the step falls on the same moment and comes first
                                 g'.kind = "both" /\ d.tdue <= w'.now /\ d'.disk.rd.c = Content(Step(d, Env(w')).m)
    \* a save that is asked for and does not fail leaves nothing unsaved
    /\ g'.kind \in {"USR2", "TERM"} => ~d'.m.dirty /\ (d.m.dirty => d'.disk.rd.c = Content(d.m))
\* P02: what a life knows at its start is what the file says
BootOK == (g'.kind = "boot") =>
    LET c == IF d.disk.st = "file" THEN d.disk.rd.c ELSE NoContent
        b == Boot(d.disk, Env(w')) IN
    IF ~Valid(ConfFile(w'.cf)) THEN b.quit = "fail" ELSE
    /\ b.quit = "" /\ ~b.m.dirty
    /\ b.m.time = c.time
    /\ Known(b.m) = DOMAIN c.exes
    /\ \A p \in Known(b.m) : b.m.exes[p].time = c.exes[p].time /\ b.m.exes[p].maps = c.exes[p].maps /\ b.m.exes[p].upd = c.exes[p].upd
    /\ DOMAIN b.m.chains = DOMAIN c.chains
    /\ \A k \in DOMAIN c.chains : b.m.chains[k].t = c.chains[k].t /\ b.m.chains[k].s = c.chains[k].s /\ b.m.chains[k].w = c.chains[k].w
    /\ \A k \in DOMAIN c.nodes : k \in DOMAIN b.m.nodes /\ b.m.nodes[k] >= c.nodes[k]
    /\ RunningSet(b.m) = {p \in w'.run : p \in DOMAIN c.exes /\ Accept(p, b.c.exeprefix)}
    \* nothing learned before the first observation
    /\ d'.disk = d.disk
PTick == [][TickOK]_vars
PSig == [][SigOK]_vars
PSave == [][SaveOK]_vars
PDisk == [][DiskOK]_vars
PBoot == [][BootOK]_vars
=============================================================================
