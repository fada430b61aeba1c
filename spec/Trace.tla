-------------------------------- MODULE Trace --------------------------------
(* Conformance: recorded runs of the real daemon (as JSON, from the harness) *)
(* are behaviours of Daemon.tla.  Every trace is one behaviour; at every     *)
(* line the specification computes what may have happened since the last     *)
(* line, the closest possibility is compared with what was recorded, and     *)
(* every difference is printed.  The recorded values are then adopted, so    *)
(* that one deviation is reported once and where it happens.                 *)
EXTENDS Daemon, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
N    == Len(Data)

VARIABLES tid, i, d

----------------------------------------------------------------------------
(* Recorded values *)

\* the chain of a pair whichever way round it is kept
HasChain(f, k) == k \in DOMAIN f \/ <<k[2], k[1]>> \in DOMAIN f
ChainOf(f, k)  == IF k \in DOMAIN f THEN f[k] ELSE SwapChain(f[<<k[2], k[1]>>])

ChainFn(seq) == [k \in {<<seq[j].a, seq[j].b>> : j \in DOMAIN seq} |->
                   LET j == CHOOSE j \in DOMAIN seq : <<seq[j].a, seq[j].b>> = k
                   IN [f \in DOMAIN seq[j] \ {"a", "b"} |-> seq[j][f]]]
NodeFn(seq)  == [k \in {seq[j].k : j \in DOMAIN seq} |-> seq[CHOOSE j \in DOMAIN seq : seq[j].k = k].n]
ToDisk(j) == IF j.st = "file" THEN [st |-> "file", rd |-> Read(j.recs)] ELSE [st |-> "none"]

\* summed stays are kept as averages, and with six digits in the state file
EqS(x, y)   == \A k \in 1..4 : Abs(x[k] - y[k]) <= 1 + (Max2(x[k], y[k]) \div 100000)
EqStats(x, y) == x.t = y.t /\ x.w = y.w /\ EqS(x.s, y.s)
EqContent(x, y) ==
  /\ x.time = y.time
  /\ x.exes = y.exes
  /\ Cardinality(DOMAIN x.chains) = Cardinality(DOMAIN y.chains)
  /\ \A k \in DOMAIN x.chains : HasChain(y.chains, k) /\ EqStats(x.chains[k], ChainOf(y.chains, k))
  /\ x.nodes = y.nodes
EqDisk(x, y) == x.st = y.st /\ (x.st = "file" => x.rd.res = y.rd.res /\ EqContent(x.rd.c, y.rd.c))

\* the learned model as recorded, with the parts that are not recorded from m
Adopt(m, L) ==
  LET exes == [p \in DOMAIN L.exes |-> [maps |-> L.exes[p].maps, time |-> L.exes[p].time, upd |-> L.exes[p].upd,
                                        rt |-> L.exes[p].rt, ct |-> L.exes[p].ct]]
      nodes == NodeFn(L.nodes)
  IN [m EXCEPT !.time = L.time, !.lrt = L.lrt, !.dirty = L.dirty, !.exes = exes,
               !.chains = ChainFn(L.chains), !.bad = L.bad,
               !.rlist = {L.rlist[j] : j \in DOMAIN L.rlist} \intersect DOMAIN exes,
               !.nodes = nodes,
               !.root = @ \/ nodes # EmptyF,
               !.pend = @ \intersect DOMAIN exes,
               !.new  = Drop(@, DOMAIN exes),
               !.hist = SelectSeq(@, LAMBDA q : q \in DOMAIN exes),
               !.ctx  = IF @ \in DOMAIN nodes THEN @ ELSE <<>>]

Env(T, ln, m) ==
  [ now |-> ln.now, procs |-> T.procs[ln.procs], files |-> T.files[ln.files], mem |-> T.mem[ln.mem],
    bat |-> T.bat[ln.bat], conf |-> T.conf[ln.conf], unit |-> T.unit, debug |-> T.debug, wit |-> ln.wit,
    out |-> IF "L" \in DOMAIN ln
            THEN <<[p \in DOMAIN ln.L.exes \union DOMAIN ln.L.bad |->
                     IF p \in DOMAIN ln.L.exes THEN [r |-> "big", maps |-> ln.L.exes[p].maps, size |-> 0]
                     ELSE [r |-> "small", maps |-> EmptyF, size |-> ln.L.bad[p]]]>>
            ELSE IF ln.dch /\ ln.disk.st = "file"
            THEN LET c == ToDisk(ln.disk).rd.c IN
                 <<[p \in DOMAIN c.exes |-> [r |-> "big", maps |-> c.exes[p].maps, size |-> 0]]>>
            ELSE <<>> ]

----------------------------------------------------------------------------
(* Comparing *)

If(c, x) == IF c THEN {x} ELSE {}

ModelDiff(m, L) ==
  LET both == DOMAIN m.exes \intersect DOMAIN L.exes
      lc   == ChainFn(L.chains)
      cb   == {k \in DOMAIN m.chains : HasChain(lc, k)}
      rl   == {L.rlist[j] : j \in DOMAIN L.rlist}
  IN If(m.time # L.time, "time")
     \union If(m.lrt # L.lrt, "lrt")
     \union If(m.dirty # L.dirty, "dirty")
     \union If(DOMAIN m.exes # DOMAIN L.exes, "known")
     \union If(m.bad # L.bad, "bad")
     \union If(\E p \in both : (m.exes[p].rt >= m.lrt) # (L.exes[p].rt >= L.lrt), "run")
     \union If(m.rlist # rl \/ Cardinality(rl) # Len(L.rlist), "rlist")
     \union If(\E p \in both : m.exes[p].maps # L.exes[p].maps, "maps")
     \union If(\E p \in both : m.exes[p].time # L.exes[p].time, "etime")
     \union If(\E p \in both : m.exes[p].upd # L.exes[p].upd, "upd")
     \union If(\E p \in both : m.exes[p].ct # L.exes[p].ct, "ect")
     \union If(Cardinality(DOMAIN m.chains) # Len(L.chains) \/ cb # DOMAIN m.chains, "chains")
     \union If(\E k \in cb : m.chains[k].t # ChainOf(lc, k).t, "ctime")
     \union If(\E k \in cb : m.chains[k].st # ChainOf(lc, k).st, "cstate")
     \union If(\E k \in cb : LET c == ChainOf(lc, k) IN
                 m.chains[k].w # c.w \/ ~EqS(m.chains[k].s, c.s) \/ m.chains[k].ct # c.ct, "chist")
     \union If(m.nodes # NodeFn(L.nodes) \/ Len(L.nodes) # Cardinality(DOMAIN m.nodes), "nodes")

\* the recorded model is consistent in itself
StructDiff(L) ==
  LET refs(id) == Fold(LAMBDA a, p : a + (IF id \in DOMAIN L.exes[p].maps THEN L.exes[p].maps[id] ELSE 0),
                          0, DOMAIN L.exes)
      P == DOMAIN L.exes
      lc == ChainFn(L.chains)
  IN If(\E id \in DOMAIN L.maps : L.maps[id].ref # refs(id), "refs")
     \union If(DOMAIN L.maps # UNION {DOMAIN L.exes[p].maps : p \in P}, "regions")
     \union If(L.mapdup \/ L.arr # <<Cardinality(DOMAIN L.maps), 0, 0>>, "mapdup")
     \union If(L.dangling # 0, "dangling")
     \union If(\E p \in P : L.exes[p].nmk # Cardinality({k \in DOMAIN lc : k[1] = p \/ k[2] = p}), "nmk")
     \union If(\E j, k \in DOMAIN L.chains : j < k /\ {L.chains[j].a, L.chains[j].b} = {L.chains[k].a, L.chains[k].b}, "pair2")
     \union If(\E j \in DOMAIN L.chains : L.chains[j].a = L.chains[j].b, "pairself")
     \union If(\E j \in DOMAIN L.rlist : L.rlist[j] \notin P, "rdangling")
     \union If(\E j \in DOMAIN L.nodes : Len(L.nodes[j].k) > MaxDepth \/ \E q \in DOMAIN L.nodes[j].k : L.nodes[j].k[q] \notin P, "ndangling")

\* laws of the recorded numbers, whatever the history
LawDiff(L) ==
  LET c(j) == L.chains[j] IN
  If(\E p \in DOMAIN L.exes : L.exes[p].time > L.time \/ L.exes[p].time < 0, "law.time")
  \union If(\E j \in DOMAIN L.chains : c(j).t < 0 \/ c(j).t > L.exes[c(j).a].time \/ c(j).t > L.exes[c(j).b].time, "law.joint")
  \union If(\E j \in DOMAIN L.chains : ~Departures(c(j)), "law.departures")

Tol == 40
ScoreDiff(pr, L) ==
  LET m == pr.m
      sc == Scores(m, pr.c, Vomm(pr.c))
      ln == [p \in DOMAIN L.exes |-> L.exes[p].ln]
      huge == \E p \in DOMAIN L.exes : Abs(ln[p]) > 100000000
      one(id) == L.maps[id].ok /\ Abs(L.maps[id].ln - RegionScore(m, ln, id)) > 3 + SumOf([p \in Uses(m, id) |-> m.exes[p].maps[id]], Uses(m, id))
  IN If(\E p \in DOMAIN L.exes : IF Running(m, p) THEN Vomm(pr.c) /\ L.exes[p].ln # 0
                                 ELSE L.exes[p].pr < sc[p][1] - Tol \/ L.exes[p].pr > sc[p][2] + Tol, "scores")
     \union If(~huge /\ \E id \in DOMAIN L.maps : one(id), "rscores")

SelDiff(T, pr, L, sel) ==
  If(~SelectionOK(sel, DOMAIN L.maps, [id \in DOMAIN L.maps |-> L.maps[id].rk], [id \in DOMAIN L.maps |-> L.maps[id].neg],
                  [id \in DOMAIN L.maps |-> T.reg[id].kb], Budget(pr.c, pr.mem)), "select")

\* remembered blocks when the regions sel are about to be sorted
BlkFor(dd, pr, T, sel) ==
  LET st == pr.c.sortstrategy IN
  IF st \in {SortInode, SortBlock} /\ sel # <<>>
  THEN Lookup(IF st = dd.bs THEN dd.blk ELSE EmptyF, pr.files, T.reg, sel, st) ELSE dd.blk

\* advice given instead of read-ahead: fb are the events in order
AdviceOK(r, files, u) ==
  IF r.err \notin Unsupported THEN r.fb = <<>>
  ELSE LET pg == 4096 \div u
           lo == (r.off \div pg) * pg
           hi == (((r.off + r.len) + (pg - 1)) \div pg) * pg
       IN /\ r.fb # <<>>
          /\ r.fb[1].e = "mmap" /\ r.fb[1].off = lo /\ r.fb[1].len = hi - lo
          /\ IF files[r.p].nomap = 1 THEN Len(r.fb) = 1
             ELSE /\ Len(r.fb) = 3
                  /\ r.fb[2].e = "mad" /\ r.fb[2].off = lo /\ r.fb[2].len = hi - lo /\ r.fb[2].adv = 3
                  /\ r.fb[3].e = "munmap" /\ r.fb[3].full = 1

RaDiff(T, dd, pr, rc) ==
  LET blk  == BlkFor(dd, pr, T, rc.sel)
      ord  == Order(rc.sel, T.reg, blk, pr.c.sortstrategy)
      bad  == {rc.failed[j] : j \in DOMAIN rc.failed}
      mp   == pr.c.maxprocs
      ok(full) == RequestsOK(Merge(ord, T.reg, full), rc.reqs, mp, bad, pr.files)
  IN If(~(ok(FALSE) \/ ok(TRUE)), "requests")
     \union If(\E j \in DOMAIN rc.reqs : ~AdviceOK(rc.reqs[j], pr.files, T.unit), "advice")
     \union If(\E j \in DOMAIN rc.reqs : ~Background(rc.reqs[j]), "hurried")
     \union If(~Discreet(rc), "intrusive")
     \union If(rc.maxout > Max2(0, mp) \/ rc.left # 0, "readers")

\* who was seen to follow someone is predicted, with all its regions
ForeDiff(dd, pr, L) ==
  LET m == pr.m
      need(p) == L.exes[p].ln < 0
      lone(p) == {id \in DOMAIN L.exes[p].maps : Uses(m, id) \intersect RunningSet(m) = {}}
  IN IF ~Vomm(pr.c) THEN {} ELSE
     If(~Foresees(m, {x \in dd.f.fol : {x[1], x[2]} \subseteq DOMAIN L.exes},
                  LAMBDA p : need(p) /\ \A id \in lone(p) : L.maps[id].neg), "unforeseen")
     \union If(~NoGuess(m, LAMBDA p : need(p)), "guessed")

PredDiff(T, dd, ln) ==
  LET L == ln.L IN
  IF dd.pred = <<>> THEN
     If(ln.rc # <<>>, "prefetch")
     \union If(\E p \in DOMAIN L.exes \intersect DOMAIN dd.ln : L.exes[p].ln # dd.ln[p], "rescored")
  ELSE LET pr == dd.pred[1] IN
       IF Len(ln.rc) > 1 \/ Len(dd.pred) > 1 THEN {"prefetch"}
       ELSE (IF DOMAIN pr.m.exes = DOMAIN L.exes THEN ScoreDiff(pr, L) ELSE {})
            \union (IF DOMAIN pr.m.exes = DOMAIN L.exes /\ DOMAIN L.maps = Regions(pr.m) /\ \A id \in DOMAIN L.maps : L.maps[id].ok
                    THEN SelDiff(T, pr, L, IF ln.rc = <<>> THEN <<>> ELSE ln.rc[1].sel) ELSE {})
            \union (IF DOMAIN pr.m.exes = DOMAIN L.exes THEN ForeDiff(dd, pr, L) ELSE {})
            \union (IF ln.rc # <<>> THEN RaDiff(T, dd, pr, ln.rc[1]) ELSE {})

ConfDiff(dd, L) ==
  If(\E f \in DOMAIN dd.c : dd.c[f] # L.conf[f] /\ ~(f = "sortstrategy" /\ dd.c[f] \notin 0..3 /\ L.conf[f] = 3), "conf")

\* a configuration as written out; a sort setting that is none is put right when it is used
SameDumps(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A j \in DOMAIN x :
       \/ x[j] = y[j]
       \/ \E k \in DOMAIN x[j] : IndexOf(x[j][k][2], "%0A") > 0         \* a value of several lines
       \/ Len(y[j]) = Len(x[j]) /\ \A k \in DOMAIN x[j] : x[j][k] = y[j][k] \/ (x[j][k][1] = "system.sortstrategy" /\ y[j][k] = <<"system.sortstrategy", "3">>
                                                                         /\ x[j][k][2] \notin {"0", "1", "2", "3"})
\* permissions of others and of the group (-1: no such file)
Others(mode) == IF mode < 0 THEN 0 ELSE mode % 8
Group(mode)  == IF mode < 0 THEN 0 ELSE (mode \div 8) % 8

EndDiff(T, dd, ln) ==  \* what can be said of every line
  dd.err
  \union If(dd.att # <<>>, "saved")
  \union If(ln.dch /\ ~EqDisk(dd.disk, ToDisk(ln.disk)), "disk")
  \union If(~ln.dch /\ dd.disk # dd.disk0, "nodisk")
  \union If(dd.nscan = 0 /\ ln.scans > 0, "scanned")
  \union If(dd.nscan > 0 /\ ln.scans # dd.nscan, "unscanned")
  \union If(~T.quiet /\ ln.savefail < dd.nbad, "unreported")
  \union If(ln.k # "crash" /\ ln.tmp /\ ~ln.tmpok, "tmp")
  \union If(ln.dumps # dd.dumps, "dump")
  \union If(~SameDumps(dd.cdumps, ln.cdumps), "confdump")
  \union If(ln.vic = 0, "diverted")
  \union If(Others(ln.smode) # 0 \/ Group(ln.lmode) # 0 \/ Others(ln.lmode) # 0, "private")
  \union If(~T.quiet /\ (ln.conffail > 0) # (dd.nfail > 0), "confreport")
  \union If(~ln.nolog /\ ln.logcur # (dd.nreopen > 0 \/ dd.logcur), "reopen")
  \union If(ln.deny > 0, "stray")

Diff(T, dd, ln) ==
  LET want == CASE ln.k \in {"idle", "load"} -> "" [] ln.k = "exit" -> "exit" [] ln.k = "crash" -> "crash" [] OTHER -> "fail" IN
  IF dd.quit # want THEN {"alive", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}
  ELSE EndDiff(T, dd, ln)
       \union If(ln.k = "exit" /\ ln.code # 0, "exitcode")
       \union (IF ln.k \in {"idle", "load"}
               THEN ModelDiff(dd.m, ln.L) \union StructDiff(ln.L) \union ConfDiff(dd, ln.L)
                    \union PredDiff(T, dd, ln)
                    \union If(ln.fds > dd.fds, "fds") \union If(ln.kids # 0, "kids")
                    \union If(ln.heapref > 0 /\ ln.heap > T.lines[ln.heapref].heap + 200, "heap")
                    \union (IF T.laws THEN LawDiff(ln.L) ELSE {})
               ELSE {})


----------------------------------------------------------------------------
Report(T, n, S) == IF S = {} THEN TRUE ELSE PrintT(<<"MISMATCH", T.id, n, S>>)

Fresh(dd, ln) ==
  [dd EXCEPT !.att = [j \in DOMAIN ln.att |-> ln.att[j]], !.pred = <<>>, !.nscan = 0, !.nsave = 0, !.nbad = 0,
             !.nfail = 0, !.nreopen = 0, !.dumps = <<>>, !.cdumps = <<>>, !.err = {}, !.disk0 = @,
             !.logcur = @ /\ ~ln.rot]

\* launches as recorded
Follow(dd, ln) ==
  LET L == ln.L
      f == Followed(dd.f, dd.was, {L.rlist[j] : j \in DOMAIN L.rlist}, DOMAIN L.exes, Vomm(dd.c))
  IN IF \E x \in DOMAIN dd.c : dd.c[x] # L.conf[x] THEN [f EXCEPT !.last = ""] ELSE f

Keep(T, dd, ln) ==   \* go on from what was recorded
  LET disk == IF ln.dch THEN ToDisk(ln.disk) ELSE dd.disk IN
  IF ln.k \notin {"idle", "load"} THEN [dd EXCEPT !.disk = disk, !.disk0 = disk, !.pred = <<>>, !.sfol = IF ln.dch THEN dd.f.fol ELSE @]
  ELSE LET sel == IF ln.rc = <<>> THEN <<>> ELSE ln.rc[1].sel
           blk == IF dd.pred = <<>> \/ ln.rc = <<>> THEN dd.blk ELSE BlkFor(dd, dd.pred[1], T, sel)
           bs  == IF dd.pred = <<>> \/ ln.rc = <<>> \/ dd.pred[1].c.sortstrategy \notin {SortInode, SortBlock}
                  THEN dd.bs ELSE dd.pred[1].c.sortstrategy
       IN [dd EXCEPT !.m = Adopt(@, ln.L), !.disk = disk, !.disk0 = disk, !.pred = <<>>, !.att = <<>>,
                     !.blk = Drop(blk, DOMAIN blk \ DOMAIN ln.L.maps), !.bs = bs,
                     !.c = [f \in DOMAIN @ |-> ln.L.conf[f]],
                     !.ln = [p \in DOMAIN ln.L.exes |-> ln.L.exes[p].ln],
                     !.fds = IF ln.k = "load" THEN ln.fds ELSE @,
                     !.logcur = ln.logcur, !.quit = "", !.was = {ln.L.rlist[j] : j \in DOMAIN ln.L.rlist},
                     !.f = Follow(dd, ln), !.sfol = IF ln.dch THEN dd.f.fol ELSE @,
                     !.nobs = IF dd.quit = "" THEN @ ELSE @ + 1]

NoDaemon(disk) ==
  [x \in DOMAIN Boot([st |-> "none"], [conf |-> [st |-> "none"], procs |-> <<>>]) \union {"disk0", "ln", "fds", "logcur", "nobs", "f", "sfol", "was"} |->
     CASE x = "disk0" -> disk [] x = "ln" -> EmptyF [] x = "fds" -> 0 [] x = "logcur" -> TRUE [] x = "nobs" -> 0 [] x = "f" -> NoFollow [] x \in {"sfol", "was"} -> {}
       [] OTHER -> Boot([st |-> "none"], [conf |-> [st |-> "none"], procs |-> <<>>])[x]]

BootLine(T, dd, ln) ==
  LET e   == Env(T, ln, EmptyModel)
      d0  == IF ln.dsk = <<>> THEN dd.disk ELSE ToDisk(ln.dsk[1])
      b0  == BootRead(d0, e, ln.rf)
      b   == [x \in DOMAIN dd |-> CASE x = "disk0" -> d0 [] x = "ln" -> EmptyF [] x = "fds" -> ln.fds
                                    [] x = "logcur" -> TRUE [] x = "nobs" -> 0
                                    [] x = "sfol" -> IF ln.dsk = <<>> THEN dd.sfol ELSE {}
                                    [] x = "f" -> [fol |-> IF ln.dsk = <<>> THEN {y \in dd.sfol : {y[1], y[2]} \subseteq DOMAIN b0.m.exes} ELSE {}, last |-> ""]
                                    [] x = "was" -> IF "L" \in DOMAIN ln THEN {ln.L.rlist[j] : j \in DOMAIN ln.L.rlist} ELSE {}
                                    [] OTHER -> b0[x]]
      S   == IF ln.k = "fail"
             THEN If(b.quit # "fail", "refused")
                  \union If(ln.code = 0, "exitcode")
                  \union If(b.quit = "fail" /\ b.why = "line" /\ ~T.quiet /\ ln.eline # b.eline, "line")
                  \union If(b.why = "unread" /\ ~T.quiet /\ ln.savefail = 0, "unreported")
                  \union If(ln.dch, "touched")
             ELSE IF b.quit = "fail" THEN {"accepted." \o b.why} \union StructDiff(ln.L)
             ELSE Diff(T, [b EXCEPT !.nscan = ln.scans], ln)
  IN <<S, IF ln.k = "fail" THEN [b EXCEPT !.quit = "fail"] ELSE Keep(T, b, ln)>>

\* runs from arbitrary bytes: the three outcomes, and staying alive
LightLine(T, dd, ln) ==
  LET S == CASE ln.k = "fail" -> If(ln.code = 0, "exitcode") \union If(ln.eline = 0, "line") \union If(ln.dch, "touched")
             [] ln.k = "load" -> StructDiff(ln.L) \union If(ln.dch, "touched")
             [] ln.k = "idle" -> StructDiff(ln.L)
             [] ln.k = "exit" -> If(ln.code # 0, "exitcode")
             [] OTHER -> {"alive"}
  IN <<S, dd>>

\* what came of a command line
CL == INSTANCE Cmdline
CmdLine(ln) ==
  LET r  == CL!Asked(ln.argv)
      x  == CL!Started(ln.argv, ln.fs, ln.nofork)
      o  == ln.o
      up == x.time # <<>>
      at(f) == IF r.log \in DOMAIN f THEN {f[r.log][j] : j \in DOMAIN f[r.log]} ELSE {}
      told == r.log \in DOMAIN o.said
  IN IF (r.st = "run" /\ r.log # "" /\ r.log \in {r.conf, r.state}) \/ (r.state # "" /\ r.state = r.conf)          \* one file for two purposes
        \/ \E x_ \in {<<r.conf, DOMAIN ln.fs.conf>>, <<r.state, DOMAIN ln.fs.state>>, <<r.log, DOMAIN ln.fs.log>>} :
             x_[1] \notin x_[2] /\ IndexOf(x_[1], "/") > 0             \* a directory that nothing is known of
     THEN {}
     ELSE If(o.hung, "alive")
          \union If(o.rc # x.rc, "cmd.rc")
          \union If(o.out # x.out, "cmd.out") \union If(o.err # x.err, "cmd.err")
          \union If((o.time # <<>>) # up, "cmd.started")
          \union If(up /\ o.time # <<>> /\ o.time # x.time, "cmd.state")
          \union If(up /\ o.cycle # x.cycle, "cmd.conf")
          \union If(o.detached # x.detached \/ (x.detached /\ ~o.setsid), "cmd.detached")
          \union If(o.nice # x.nice, "cmd.nice")
          \union If({o.saved[j] : j \in DOMAIN o.saved} # (IF x.saved = "" THEN {} ELSE {x.saved}), "cmd.saved")
          \union If(\E f \in {o.A, o.B} : at(f) # x.shown \/ DOMAIN f \ {r.log} # {}, "cmd.shown")
          \union If((up /\ o.code # <<0>>) \/ (x.st = "fail" /\ x.detached /\ o.code # <<1>>), "exitcode")
          \union If(x.st = "fail" /\ ~(told \/ "" \in DOMAIN o.said), "cmd.told")
          \union If(o.lost # <<>>, "cmd.lost")                          \* a log is added to, whatever it held
          \union If(o.loose # <<>>, "cmd.loose")                        \* what it makes is not for others
          \union If(~({o.other[j] : j \in DOMAIN o.other} \subseteq {r.log, r.state, r.conf}), "cmd.other")

Noise == {"x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}
\* D: the daemons that explain what was recorded so far (they may differ in
\* what is not recorded, such as the unknown applications a scan has seen)
StepLine(T, D, ln) ==
  LET one == CHOOSE x \in D : TRUE
      lift(r) == <<r[1], {r[2]}>> IN
  CASE ln.k = "cmd" -> <<CmdLine(ln), D>>
    [] ln.k = "dead" -> <<{"alive"}, D>>
    [] T.light -> lift(LightLine(T, one, ln))
    [] ln.boot -> lift(BootLine(T, one, ln))
    [] OTHER ->
        LET cs == UNION {LET d1 == Fresh(x, ln) IN Runs(d1, Env(T, ln, d1.m), ln.sig, FALSE) : x \in D}
            df == {<<Diff(T, x, ln), x>> : x \in cs}
            mn == CHOOSE x \in df : \A y \in df : Cardinality(x[1]) <= Cardinality(y[1])
        IN <<mn[1] \ Noise, {Keep(T, x[2], ln) : x \in {y \in df : Cardinality(y[1]) = Cardinality(mn[1])}}>>

----------------------------------------------------------------------------
Init == /\ tid \in 1..N
        /\ i = 0
        /\ d = {NoDaemon([st |-> "none"])}

Next == /\ i < Len(Data[tid].lines)
        /\ LET T == Data[tid]
               r == StepLine(T, d, T.lines[i + 1])
           IN Report(T, i + 1, r[1]) /\ d' = r[2]
        /\ i' = i + 1
        /\ UNCHANGED tid

Vars == <<tid, i, d>>
View == <<tid, i>>
Spec == Init /\ [][Next]_Vars

\* every line of every trace was looked at
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Data[n].lines) + 1 + Total(n - 1)
Consumed == PrintT(<<"LINES", TLCGet("distinct"), Total(N)>>) /\ TLCGet("distinct") = Total(N)
=============================================================================
