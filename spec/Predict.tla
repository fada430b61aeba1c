------------------------------- MODULE Predict -------------------------------
(* What a prediction computes: for every idle application the probability   *)
(* (in millionths) that it is NOT needed, as an interval, by either of the  *)
(* two algorithms; the score of a region; the memory budget; and which      *)
(* choices of regions to prefetch are right.                                *)
EXTENDS Preload, Fix

----------------------------------------------------------------------------
(* Markov chains *)

\* |correlation| of the running of a and b, as an interval
Corr(m, conf, a, b, c) ==
  LET t == m.time  ta == m.exes[a].time  tb == m.exes[b].time IN
  IF conf.usecorrelation = 0 THEN <<M, M>>
  ELSE IF ta = 0 \/ ta = t \/ tb = 0 \/ tb = t THEN <<0, 0>>
  ELSE IF t > 46000 \/ ta > t \/ tb > t \/ c.t > Min2(ta, tb) THEN <<0, M>>  \* beyond this arithmetic
  ELSE LET r == OverRoot((t * c.t) - (ta * tb), ta * (t - ta), tb * (t - tb)) IN <<r, r>>

\* probability that the present state is left within 1.5 cycles, as an interval
LeaveProb(conf, s, w) ==
  LET x == 150 * conf.cycle * w
      at(z) == IF x \div z >= 14 THEN M ELSE M - ExpNeg(Frac(x, z))
      p == at(s)
  IN IF w = 0 \/ s < (100 * w) - 1 THEN <<0, 0>>
     ELSE IF s > (100 * w) + 1 + (w \div 10)
          THEN IF s % 100 = 0 THEN <<p, p>> ELSE <<at(s + 1), at(s - 1)>>  \* s is rounded
     ELSE IF s = 100 * w THEN <<0, 0>> ELSE <<0, p>>

ChainFactor(m, conf, a, b, c, y) ==
  LET o  == c.st + 1
      n  == c.w[o][o]
      lp == LeaveProb(conf, c.s[o], n)
      nx == Frac(100 * (c.w[o][y] + c.w[o][4]), (100 * n) + 1)
      cr == Corr(m, conf, a, b, c)
      f(i) == M - Min2(M, Mul(Mul(Min2(nx, M), lp[i]), cr[i]))
  IN IF n = 0 \/ lp[2] = 0 \/ cr[2] = 0 \/ c.w[o][y] + c.w[o][4] = 0 THEN <<M, M>> ELSE <<f(2), f(1)>>

MulI(x, y) == <<Mul(x[1], y[1]), Mul(x[2], y[2])>>

MarkovScores(m, conf) ==
  LET step(acc, k) ==
        LET c == m.chains[k]
            a1 == IF c.st % 2 = 0 THEN [acc EXCEPT ![k[1]] = MulI(@, ChainFactor(m, conf, k[1], k[2], c, 2))] ELSE acc
        IN IF c.st \div 2 = 0 THEN [a1 EXCEPT ![k[2]] = MulI(@, ChainFactor(m, conf, k[1], k[2], c, 3))] ELSE a1
  IN Fold(step, [p \in DOMAIN m.exes |-> <<M, M>>], DOMAIN m.chains)

----------------------------------------------------------------------------
(* The launch tree *)

Children(m, k) == {x \in DOMAIN m.nodes : Len(x) = Len(k) + 1 /\ SubSeq(x, 1, Len(k)) = k}
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})

Bid(m, acc, p, share) == IF Running(m, p) THEN acc
                         ELSE [acc EXCEPT ![p] = MulI(@, <<M - share, M - share>>)]

Ppm(m, acc, k) ==
  LET ch == Children(m, k)  tot == SumOf(m.nodes, ch) IN
  IF ch = {} \/ tot = 0 THEN acc
  ELSE Fold(LAMBDA a, x : Bid(m, a, x[Len(x)], Min2(990000, Frac(m.nodes[x], tot))), acc, ch)

Neighbours(m, acc, k) ==
  Fold(LAMBDA a, x : Bid(m, a, x[Len(x)], 100000), acc, {x \in Children(m, k) : m.nodes[x] > 0})

GlobalBids(m, acc) ==
  LET prs == {x \in DOMAIN m.nodes : Len(x) = 2}
      tot == SumOf(m.nodes, prs)
  IN IF tot = 0 THEN acc
     ELSE Fold(LAMBDA a, x : Bid(m, a, x[2], Min2(500000, 100000 + ((4 * Frac(m.nodes[x], tot)) \div 10))),
                  acc, {x \in prs : m.nodes[x] > 0})

VommScores(m) ==
  LET s0 == [p \in DOMAIN m.exes |-> <<M, M>>]
      s1 == FoldLeft(LAMBDA a, q : IF <<q>> \in DOMAIN m.nodes THEN Ppm(m, a, <<q>>) ELSE a, s0, m.hist)
      s2 == IF m.ctx = <<>> \/ Children(m, m.ctx) = {} THEN s1
            ELSE Neighbours(m, Ppm(m, s1, m.ctx), m.ctx)
  IN IF ~m.root THEN s0 ELSE GlobalBids(m, s2)

\* laws of the scores by the launch tree: an application that followed, wherever we
\* look, at least as often as another one, and with the pairs to match, is at
\* least as needed
LikelierFirst(m, sc) ==
  LET n(k) == IF k \in DOMAIN m.nodes THEN m.nodes[k] ELSE 0
      idle == {p \in DOMAIN m.exes : ~Running(m, p)}
      at == {Append(<<>>, q) : q \in DOMAIN m.exes} \union {m.ctx}
  IN \A p, q \in idle : (\A k \in at \ {<<>>} : n(Append(k, p)) >= n(Append(k, q))) => sc[p][1] <= sc[q][2] + 6

(* What was seen to follow what, told from the launches alone, without the    *)
(* tree: [fol: pairs of applications one of which was launched right after    *)
(* the other, both under this algorithm; last: the latest launch, "" if        *)
(* several applications were launched at once or it is unknown].              *)
NoFollow == [fol |-> {}, last |-> ""]
Followed(f, before, after, known, vomm) ==
  LET kept == {x \in f.fol : x[1] \in known /\ x[2] \in known}
      last == IF f.last \in known THEN f.last ELSE ""
      new  == after \ before
  IN IF ~vomm THEN [fol |-> kept, last |-> ""]
     ELSE IF new = {} THEN [fol |-> kept, last |-> last]
     ELSE IF Cardinality(new) > 1 THEN [fol |-> kept, last |-> ""]
     ELSE LET x == CHOOSE x \in new : TRUE IN
          [fol |-> kept \union (IF last = "" THEN {} ELSE {<<last, x>>}), last |-> x]
\* whoever followed someone is predicted when idle; whoever never did is not
Foresees(m, fol, needed(_)) == \A x \in fol : ~Running(m, x[2]) => needed(x[2])
NoGuess(m, needed(_)) == \A p \in DOMAIN m.exes :
   (~\E k \in DOMAIN m.nodes : Len(k) > 1 /\ k[Len(k)] = p) => ~needed(p)

Scores(m, conf, vomm) == IF vomm THEN VommScores(m) ELSE MarkovScores(m, conf)

----------------------------------------------------------------------------
(* Regions *)

Uses(m, id)  == {p \in DOMAIN m.exes : id \in DOMAIN m.exes[p].maps}
Regions(m)   == UNION {DOMAIN m.exes[p].maps : p \in DOMAIN m.exes}

\* in millionths, from the logarithms ln[p] of the applications' scores
RegionScore(m, ln, id) ==
  Fold(LAMBDA a, p : a + (m.exes[p].maps[id] * (IF Running(m, p) THEN M ELSE ln[p])), 0, Uses(m, id))

----------------------------------------------------------------------------
(* Memory budget in kB.  mem: [total, free, avail, cached, buffers]; a      *)
(* kernel that does not report available memory has avail = -1.             *)

Clamp(v) == IF v > 100 THEN 100 ELSE IF v < -100 THEN -100 ELSE v
Available(mem) ==
  IF mem.avail >= 0 THEN mem.avail
  ELSE IF mem.free > 0 THEN mem.free + ((mem.cached \div 100) * 80) + (((mem.cached % 100) * 80) \div 100)
                            + ((mem.buffers \div 100) * 75) + (((mem.buffers % 100) * 75) \div 100)
  ELSE 0
Budget(conf, mem) ==
  LET av   == Available(mem)
      base == (Clamp(conf.memtotal) * (mem.total \div 100))
              + (Clamp(conf.memfree) * (av \div 100))
  IN Max2(0, base) + (Clamp(conf.memcached) * (mem.cached \div 100))
                   + (Clamp(conf.membuffers) * (mem.buffers \div 100))

RECURSIVE SumKb(_, _)
SumKb(kb, s) == IF s = <<>> THEN 0 ELSE LET r == SumKb(kb, Tail(s)) IN
                IF r > 1000000000 \/ kb[Head(s)] > 1000000000 THEN 2000000000 ELSE kb[Head(s)] + r

(* sel: the chosen regions in order; all: every region, with its rank (the   *)
(* smaller the more needed) and neg (predicted to be needed).                *)
SelectionOK(sel, all, rank, neg, kb, budget) ==
  LET S == {sel[i] : i \in DOMAIN sel}  U == all \ S
      left == budget - SumKb(kb, sel)
  IN /\ Cardinality(S) = Len(sel)
     /\ S \subseteq all
     /\ \A x \in S : neg[x]
     /\ S # {} => left >= 0
     /\ \A x \in S, u \in U : rank[x] <= rank[u]
     /\ \A i, j \in DOMAIN sel : i < j => rank[sel[i]] <= rank[sel[j]]
     /\ U = {} \/ \E u \in U : /\ \A v \in U : rank[u] <= rank[v]
                               /\ (~neg[u] \/ kb[u] > left)
=============================================================================
