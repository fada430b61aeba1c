------------------------------ MODULE Preload ------------------------------
(* The learned model of preload-ng and every operation on it, as pure       *)
(* operators on a record.  The exhaustive models (MC*.tla) and the          *)
(* conformance checker (Trace.tla) both use exactly these operators.        *)
(*                                                                          *)
(* A model m has the fields                                                 *)
(*   time   model time               lrt   model time of the latest scan    *)
(*   lat    model time of the latest accounting                             *)
(*   dirty  learned since the last successful save                          *)
(*   mdirty scanned but not digested yet                                    *)
(*   exes   path -> [maps, time, upd, rt, ct]   (maps: a bag of region keys)*)
(*   chains <<a,b>> -> [t, st, ct, s, w]                                    *)
(*          t joint running time, st joint state (1 a runs, 2 b runs),      *)
(*          ct time of the last change, s[i] 100 * summed stays in state    *)
(*          i-1, w[i][j] transitions, w[i][i] departures                    *)
(*   bad    path -> size of small applications                              *)
(*   rlist  paths listed as running                                         *)
(*   root, nodes, hist, ctx      the launch tree: is there one; sequence of *)
(*          launches -> count; last launches; the present sequence          *)
(*   pend   known applications whose status changed at the latest scan      *)
(*   new    unknown path -> processes seen by the latest scan               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Folds, Strs

EmptyF == [x \in {} |-> 0]
SelfPid == 4242
MaxDepth == 5

\* function update that may extend the domain
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, S)   == [x \in DOMAIN f \ S |-> f[x]]

(* fold op(acc, x) over a set, in some order *)
Fold(op(_, _), base, S) == LET f(x, a) == op(a, x) IN MapThenFoldSet(f, base, LAMBDA x : x, LAMBDA s : CHOOSE x \in s : TRUE, S)

Running(m, p) == m.exes[p].rt >= m.lrt
RunningSet(m) == {p \in DOMAIN m.exes : Running(m, p)}

EmptyModel ==
  [ time |-> 0, lrt |-> 0, lat |-> 0, dirty |-> FALSE, mdirty |-> FALSE,
    exes |-> EmptyF, chains |-> EmptyF, bad |-> EmptyF, rlist |-> {},
    root |-> FALSE, nodes |-> EmptyF, hist |-> <<>>, ctx |-> <<>>,
    pend |-> {}, new |-> EmptyF ]

----------------------------------------------------------------------------
(* The launch tree *)

NodeAdd(nodes, k, n) == Put(nodes, k, (IF k \in DOMAIN nodes THEN nodes[k] ELSE 0) + n)
NodeEnsure(nodes, k) == IF k \in DOMAIN nodes THEN nodes ELSE Put(nodes, k, 0)

Launch(m, p) ==
  IF ~m.root THEN m ELSE
  LET h0   == Append(m.hist, p)
      h    == IF Len(h0) > MaxDepth THEN Tail(h0) ELSE h0
      ctx0 == IF Len(m.ctx) >= MaxDepth THEN <<>> ELSE m.ctx
      nx   == Append(ctx0, p)
      n1   == NodeAdd(m.nodes, nx, 1)
      n2   == IF Len(h) < 2 THEN n1
              ELSE LET q == h[Len(h) - 1] IN NodeAdd(NodeEnsure(n1, <<q>>), <<q, p>>, 1)
  IN [m EXCEPT !.hist = h, !.ctx = nx, !.nodes = n2]

SeqHas(s, p) == \E i \in DOMAIN s : s[i] = p

ForgetLaunches(m, p) ==
  [m EXCEPT !.hist  = SelectSeq(@, LAMBDA q : q # p),
            !.ctx   = IF SeqHas(@, p) THEN <<>> ELSE @,
            !.nodes = Drop(@, {k \in DOMAIN @ : SeqHas(k, p)})]

\* seed an empty tree with the recorded pair start counts
Hydrate(m) ==
  LET one(n, ab, cnt) == IF cnt <= 0 THEN n ELSE NodeAdd(NodeEnsure(n, <<ab[1]>>), ab, cnt)
      step(n, c) == one(one(n, <<c[1], c[2]>>, m.chains[c].w[2][4]),
                              <<c[2], c[1]>>, m.chains[c].w[3][4])
  IN IF DOMAIN m.nodes # {} THEN m
     ELSE [m EXCEPT !.nodes = Fold(step, EmptyF, DOMAIN m.chains)]

StartAlgorithm(m, vomm) == IF ~vomm THEN m ELSE Hydrate([m EXCEPT !.root = TRUE])

----------------------------------------------------------------------------
(* Markov chains *)

CState(m, a, b) == (IF Running(m, a) THEN 1 ELSE 0) + (IF Running(m, b) THEN 2 ELSE 0)

StateChanged(c, new, time) ==
  IF c.st = new THEN c ELSE
  LET o == c.st + 1  n == new + 1 IN
  [c EXCEPT !.w[o][o] = @ + 1,
            !.w[o][n] = @ + 1,
            !.s[o]    = @ + 100 * (time - c.ct),
            !.st      = new,
            !.ct      = time]

ZeroW == << <<0,0,0,0>>, <<0,0,0,0>>, <<0,0,0,0>>, <<0,0,0,0>> >>
Bit(st, i) == IF i = 1 THEN st % 2 ELSE st \div 2
Flip(st, i) == IF i = 1 THEN (IF st % 2 = 1 THEN st - 1 ELSE st + 1) ELSE (st + 2) % 4

\* the chain of a, known before, and the newcomer b
NewChain(m, a, b) ==
  LET now  == CState(m, a, b)
      act  == m.exes[a].ct
      bct  == m.exes[b].ct
      both == act > 0 /\ bct > 0
      t1   == IF both /\ act < m.time THEN act ELSE m.time
      ct   == IF both /\ bct < m.time /\ bct > t1 THEN bct ELSE t1
      st1  == IF both /\ act > ct THEN Flip(now, 1) ELSE now
      st   == IF both /\ bct > ct THEN Flip(st1, 2) ELSE st1
  IN StateChanged([t |-> 0, st |-> st, ct |-> ct, s |-> <<0,0,0,0>>, w |-> ZeroW], now, m.time)

(* the same chain seen from the other member *)
Swap4(f) == <<f[1], f[3], f[2], f[4]>>
SwapChain(c) == [f \in DOMAIN c |->
   CASE f = "w"  -> Swap4([k \in 1..4 |-> Swap4(c.w[k])])
     [] f = "s"  -> Swap4(c.s)
     [] f = "st" -> (CASE c.st = 1 -> 2 [] c.st = 2 -> 1 [] OTHER -> c.st)
     [] OTHER    -> c[f]]
\* the chains ks kept the other way round
Turned(m, ks) == [m EXCEPT !.chains = [k \in (DOMAIN @ \ ks) \union {<<k[2], k[1]>> : k \in ks} |-> IF k \in DOMAIN @ \ ks THEN @[k] ELSE SwapChain(@[<<k[2], k[1]>>])]]

----------------------------------------------------------------------------
(* Scan: who runs.  procs: the processes in the order the kernel lists them,*)
(* each [pid, unr, x, n, dying, maps] (then: the mappings that a second     *)
(* reading finds, when they have changed).                                  *)

ExeOf(conf, pr) ==
  IF pr.pid = SelfPid \/ pr.unr \/ pr.n > MaxName THEN <<>>
  ELSE LET f == FileOf(pr.x) IN
       IF f # <<>> /\ Accept(f[1], conf.exeprefix) THEN f ELSE <<>>

Seen(conf, procs) ==
  SelectSeq([i \in DOMAIN procs |-> [pid |-> procs[i].pid, f |-> ExeOf(conf, procs[i])]],
            LAMBDA e : e.f # <<>>)

Scan(m, conf, vomm, procs) ==
  LET one(a, e) ==
        LET p == e.f[1] IN
        IF p \in DOMAIN a.exes THEN
          LET was == a.exes[p].rt >= m.lrt
              a1  == IF was THEN a
                     ELSE LET b == [a EXCEPT !.pend = @ \union {p}, !.newrun = @ \union {p}]
                          IN IF vomm THEN Launch(b, p) ELSE b
          IN [a1 EXCEPT !.exes[p].rt = m.time]
        ELSE IF p \in DOMAIN a.bad THEN a
        ELSE [a EXCEPT !.new = Put(@, p, {e.pid} \union (IF p \in DOMAIN @ THEN @[p] ELSE {}))]
      s0 == [m EXCEPT !.pend = {}, !.new = EmptyF]
      s1 == FoldLeft(one, s0 @@ [newrun |-> {}], Seen(conf, procs))
      s2 == [s1 EXCEPT !.lrt = m.time]
      still == {p \in m.rlist : s2.exes[p].rt >= s2.lrt}
  IN [f \in DOMAIN m |->
        CASE f = "rlist" -> s1.newrun \union still
          [] f = "pend"  -> s1.pend \union (m.rlist \ still)
          [] f \in {"dirty", "mdirty"} -> TRUE
          [] OTHER -> s2[f]]

----------------------------------------------------------------------------
(* Digestion of a scan: new applications, changes, accounting.              *)

\* the recorded regions of a process: region keys of its accepted mappings
\* (maps: [x, n, k, path?]); Key(path, mapping) names the region
RegionsOf(conf, pr, Key(_, _)) ==
  IF pr.dying THEN <<>> ELSE
  FoldLeft(LAMBDA acc, r :
             IF r.n > MaxName THEN acc
             ELSE LET f == FileOf(r.x) IN
                  IF f # <<>> /\ Accept(f[1], conf.mapprefix)
                  THEN Append(acc, [k |-> Key(f[1], r), len |-> r.len]) ELSE acc,
           <<>>, pr.maps)

BagOf(rs) == [k \in {rs[i].k : i \in DOMAIN rs} |-> Cardinality({i \in DOMAIN rs : rs[i].k = k})]
RECURSIVE SumLen(_)
SumLen(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).len + SumLen(Tail(rs))

ProcOf(procs, pid) == {i \in DOMAIN procs : procs[i].pid = pid}

\* what becomes of an unknown application whose process pid was seen:
\* "dead", "small" or "big", with its regions
Digest(conf, procs, pid, Key(_, _), minsize) ==
  LET S == ProcOf(procs, pid) IN
  IF S = {} THEN [r |-> "dead", size |-> 0, maps |-> EmptyF]
  ELSE LET pr == procs[CHOOSE i \in S : TRUE]
           rs == RegionsOf(conf, pr, Key)
           sz == SumLen(rs)
           \* the mappings are read twice: for the size, and to record them
           r2 == IF "then" \in DOMAIN pr THEN RegionsOf(conf, [pr EXCEPT !.maps = pr.then], Key) ELSE rs
       IN IF sz = 0 THEN [r |-> "dead", size |-> 0, maps |-> EmptyF]
          ELSE IF sz >= minsize THEN
            IF SumLen(r2) = 0 THEN [r |-> "dead", size |-> 0, maps |-> EmptyF]
            ELSE [r |-> "big", size |-> sz, maps |-> BagOf(r2)]
          ELSE [r |-> "small", size |-> sz, maps |-> EmptyF]

Register(m, vomm, p, maps) ==
  LET m1 == [m EXCEPT !.exes = Put(@, p, [maps |-> maps, time |-> 0, upd |-> m.lrt,
                                          rt |-> m.lrt, ct |-> m.time])]
      nc == [c \in {<<q, p>> : q \in DOMAIN m.exes} |-> NewChain(m1, c[1], c[2])]
      m2 == [m1 EXCEPT !.chains = nc @@ @, !.rlist = @ \union {p}]
  IN IF vomm THEN Launch(m2, p) ELSE m2

Changed(m, p) ==
  [m EXCEPT !.exes[p].ct = m.time,
            !.chains = [c \in DOMAIN @ |-> IF c[1] = p \/ c[2] = p
                                           THEN StateChanged(@[c], CState(m, c[1], c[2]), m.time)
                                           ELSE @[c]]]

Account(m) ==
  LET period == m.time - m.lat IN
  [m EXCEPT !.exes   = [p \in DOMAIN @ |-> IF Running(m, p) THEN [@[p] EXCEPT !.time = @ + period] ELSE @[p]],
            !.chains = [c \in DOMAIN @ |-> IF @[c].st = 3 THEN [@[c] EXCEPT !.t = @ + period] ELSE @[c]],
            !.lat    = m.time]

\* order: the unknown applications in the order they are registered;
\* res: what Digest says about each
Update(m, vomm, order, res) ==
  LET one(a, p) ==
        IF res[p].r = "dead" THEN a
        ELSE IF res[p].r = "small" THEN [a EXCEPT !.bad = Put(@, p, res[p].size)]
        ELSE Register(a, vomm, p, res[p].maps)
      m1 == FoldLeft(one, m, order)
      m2 == Fold(LAMBDA a, p : Changed(a, p), m1, m.pend)
      m3 == Account(m2)
  IN [m3 EXCEPT !.pend = {}, !.new = EmptyF, !.mdirty = FALSE, !.dirty = TRUE]

----------------------------------------------------------------------------
(* Forgetting *)

GoneKinds == {"n", "t", "d", "s"}     \* no such file, not a regular file
Gone(files, p) == IF p \in DOMAIN files THEN files[p].k \in GoneKinds ELSE TRUE

Forget(m, p) ==
  LET m1 == ForgetLaunches(m, p) IN
  [m1 EXCEPT !.exes   = Drop(@, {p}),
             !.chains = Drop(@, {c \in DOMAIN @ : c[1] = p \/ c[2] = p}),
             !.pend   = @ \ {p},
             !.rlist  = @ \ {p}]

Stale(m, files) == {p \in DOMAIN m.exes : ~Running(m, p) /\ Gone(files, p)}

Cleanup(m, files) ==
  LET m1 == Fold(LAMBDA a, p : Forget(a, p), m, Stale(m, files))
  IN [m1 EXCEPT !.bad = EmptyF]

----------------------------------------------------------------------------
(* Saving and restarting *)

\* what a state file describes
Content(m) ==
  [ time |-> m.time,
    exes |-> [p \in DOMAIN m.exes |-> [maps |-> m.exes[p].maps, time |-> m.exes[p].time, upd |-> m.exes[p].upd]],
    chains |-> [c \in DOMAIN m.chains |-> [t |-> m.chains[c].t, s |-> m.chains[c].s, w |-> m.chains[c].w]],
    nodes |-> m.nodes,
    tree |-> DOMAIN m.nodes # {} ]

\* the model a file content describes, before anyone is seen running
FromContent(c) ==
  [EmptyModel EXCEPT
     !.time = c.time, !.lat = c.time, !.lrt = 0,
     !.exes = [p \in DOMAIN c.exes |-> [maps |-> c.exes[p].maps, time |-> c.exes[p].time,
                                        upd |-> c.exes[p].upd, rt |-> -1, ct |-> -1]],
     !.chains = [k \in DOMAIN c.chains |-> [t |-> c.chains[k].t, st |-> 0, ct |-> c.time,
                                            s |-> c.chains[k].s, w |-> c.chains[k].w]],
     !.nodes = c.nodes, !.root = c.tree]

\* start-up: read the file, see who runs
Startup(c, conf, vomm, procs) ==
  LET m0 == FromContent(c)
      one(a, e) ==
        LET p == e.f[1] IN
        IF p \in DOMAIN a.exes /\ a.exes[p].rt < m0.time
        THEN LET b == [a EXCEPT !.exes[p].rt = m0.time, !.rlist = @ \union {p}]
             IN IF vomm THEN Launch(b, p) ELSE b
        ELSE a
      m1 == FoldLeft(one, m0, Seen(conf, procs))
      m2 == [m1 EXCEPT !.lrt = m0.time]
  IN [m2 EXCEPT !.chains = [k \in DOMAIN @ |-> [@[k] EXCEPT !.st = CState(m2, k[1], k[2])]]]

NoContent == [time |-> 0, exes |-> EmptyF, chains |-> EmptyF, nodes |-> EmptyF, tree |-> FALSE]

----------------------------------------------------------------------------
(* Invariants of the learned model *)

Paths(m) == DOMAIN m.exes
PairOnce(m) ==            \* exactly one chain per pair, no chain without members
  /\ \A c \in DOMAIN m.chains : c[1] \in Paths(m) /\ c[2] \in Paths(m) /\ c[1] # c[2]
  /\ \A a, b \in Paths(m) : a # b =>
       Cardinality({<<a, b>>, <<b, a>>} \intersect DOMAIN m.chains) = 1
Departures(c) == \A i \in 1..4 :
  c.w[i][i] = (IF i = 1 THEN 0 ELSE c.w[i][1]) + (IF i = 2 THEN 0 ELSE c.w[i][2])
              + (IF i = 3 THEN 0 ELSE c.w[i][3]) + (IF i = 4 THEN 0 ELSE c.w[i][4])
DeparturesInv(m) == \A c \in DOMAIN m.chains : Departures(m.chains[c])
TimesInv(m) ==
  /\ \A p \in Paths(m) : m.exes[p].time >= 0 /\ m.exes[p].time <= m.time
  /\ \A c \in DOMAIN m.chains : /\ m.chains[c].t <= m.exes[c[1]].time
                                /\ m.chains[c].t <= m.exes[c[2]].time
                                /\ m.chains[c].t >= 0
TreeInv(m) ==
  /\ \A k \in DOMAIN m.nodes :
       /\ Len(k) \in 1..MaxDepth
       /\ \A i \in DOMAIN k : k[i] \in Paths(m)
       /\ Len(k) > 1 => SubSeq(k, 1, Len(k) - 1) \in DOMAIN m.nodes
  /\ Len(m.hist) <= MaxDepth /\ \A i \in DOMAIN m.hist : m.hist[i] \in Paths(m)
  /\ Len(m.ctx) <= MaxDepth /\ (m.ctx # <<>> => m.ctx \in DOMAIN m.nodes)
RefsInv(m) == m.rlist = RunningSet(m) /\ m.pend \subseteq Paths(m)
StateInv(m) == \* right after an update
  \A c \in DOMAIN m.chains : m.chains[c].st = CState(m, c[1], c[2])
=============================================================================
