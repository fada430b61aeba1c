------------------------------ MODULE MC_Procs ------------------------------
(* Who is tracked: every few processes of a few kinds, seen by a scan and   *)
(* looked at half a cycle later, when some may have gone; then once more.   *)
EXTENDS Daemon, Json
CONSTANTS Kinds, MaxProcs, Show
VARIABLE s     \* [kinds: sequence of kinds, left: set of positions gone at the digestion]
Kind(k, i) ==
  LET p(x) == [pid |-> 9 + i, unr |-> FALSE, x |-> x, n |-> 6, dying |-> FALSE,
               maps |-> << [x |-> "/bin/a", n |-> 6, len |-> 3, ol |-> "0,3"], [x |-> "/lib/l", n |-> 6, len |-> 2, ol |-> "1,2"] >>] IN
  CASE k = "a"    -> p("/bin/a")
    [] k = "b"    -> [p("/bin/b") EXCEPT !.maps = << [x |-> "/bin/b", n |-> 6, len |-> 2, ol |-> "0,2"] >>]      \* small
    [] k = "x"    -> p("/opt/x")                                                                                \* not accepted
    [] k = "apre" -> p("/bin/a.#prelink#.Qz")
    [] k = "adel" -> p("/bin/a%20(deleted)")
    [] k = "kthr" -> [p("") EXCEPT !.unr = TRUE]
    [] k = "self" -> [p("/bin/c") EXCEPT !.pid = SelfPid]
    [] k = "rel"  -> p("bin/a")
    [] k = "dy"   -> [p("/bin/d") EXCEPT !.dying = TRUE]
    [] k = "d"    -> p("/bin/d")
Conf0 == [Defaults EXCEPT !.cycle = 4, !.minsize = 3, !.exeprefix = <<"!/opt">>]
\* the kernel lists processes by number; the daemon itself comes last
Listed(ks) == SelectSeq([i \in DOMAIN ks |-> Kind(ks[i], i)], LAMBDA p : p.pid # SelfPid) \o SelectSeq([i \in DOMAIN ks |-> Kind(ks[i], i)], LAMBDA p : p.pid = SelfPid)
Init == s \in [kinds : UNION {[1..n -> Kinds] : n \in 0..MaxProcs}, left : SUBSET (1..MaxProcs)]
        /\ s.left \subseteq DOMAIN s.kinds /\ Cardinality({i \in DOMAIN s.kinds : s.kinds[i] = "self"}) <= 1
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Printed == Show => PrintT(<<"PATH", ToJson(<<s.kinds, SetToSeq(s.left)>>)>>)

P1 == Listed(s.kinds)
Gone1 == {9 + i : i \in s.left}
P2 == SelectSeq(P1, LAMBDA p : p.pid \notin Gone1)
Run1(vo) ==
  LET m0 == StartAlgorithm(Startup(NoContent, Conf0, vo, P1), vo)
      m1 == [Scan(m0, Conf0, vo, P1) EXCEPT !.time = @ + 2]
      all == [p \in DOMAIN m1.new |-> {Digest(Conf0, P2, q, KeyOf, 3) : q \in m1.new[p]}]
      one(f) == Update(m1, vo, SetToSeq(DOMAIN m1.new), f)
  IN {one(f) : f \in {g \in [DOMAIN m1.new -> UNION {all[p] : p \in DOMAIN m1.new}] : \A p \in DOMAIN m1.new : g[p] \in all[p]}}
Of(x) == IF x \in {"a", "apre"} THEN "/bin/a" ELSE IF x \in {"d", "dy"} THEN "/bin/d" ELSE IF x = "b" THEN "/bin/b" ELSE ""
\* the positions whose process is one of application p's and can still be examined at the digestion
Alive(p) == {i \in DOMAIN s.kinds : Of(s.kinds[i]) = p /\ i \notin s.left /\ s.kinds[i] # "dy"}
Procs(p)   == {i \in DOMAIN s.kinds : Of(s.kinds[i]) = p}
\* P04, word for word (of several processes of a newcomer any may be the one looked at)
Tracked == \A vo \in BOOLEAN : \A m \in Run1(vo) :
  /\ Paths(m) \subseteq {"/bin/a", "/bin/d"} /\ DOMAIN m.bad \subseteq {"/bin/b"}
  /\ \A p \in {"/bin/a", "/bin/d"} : p \in Paths(m) => Alive(p) # {}
  /\ \A p \in {"/bin/a", "/bin/d"} : (Procs(p) # {} /\ Alive(p) = Procs(p)) => p \in Paths(m)
  /\ (Procs("/bin/b") # {} /\ Alive("/bin/b") = Procs("/bin/b")) => "/bin/b" \in DOMAIN m.bad
  /\ RunningSet(m) = Paths(m) /\ m.rlist = Paths(m)
\* ... and what the next scan sees decides who runs
Noticed == \A vo \in BOOLEAN : \A m \in Run1(vo) :
  LET m2 == Scan(m, Conf0, vo, P2) IN
  /\ RunningSet(m2) = {p \in Paths(m) : \E i \in DOMAIN s.kinds : Of(s.kinds[i]) = p /\ i \notin s.left}
  /\ m2.rlist = RunningSet(m2)
  /\ DOMAIN m2.new \intersect (Paths(m) \union DOMAIN m.bad) = {}
=============================================================================
