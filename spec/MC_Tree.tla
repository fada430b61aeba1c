------------------------------- MODULE MC_Tree -------------------------------
(* The launch tree, value by value: small stored trees and what is launched  *)
(* afterwards; the laws of the bids and of the counts.                       *)
EXTENDS Predict, Conf, Json
CONSTANTS Numbers,     \* how often a sequence may have been seen (0: not stored)
          MaxLaunch, Show
VARIABLES n, h        \* stored sequence -> count; the launches since
P3 == {"/bin/a", "/bin/b", "/bin/c"}
\* stored below the top: the pairs, and one deep sequence
Keys == { <<"/bin/a">>, <<"/bin/b">>, <<"/bin/a", "/bin/b">>, <<"/bin/a", "/bin/c">>, <<"/bin/b", "/bin/c">>, <<"/bin/b", "/bin/a">>, <<"/bin/a", "/bin/b", "/bin/c">> }
Init == /\ n \in {f \in [Keys -> Numbers] : \A k \in Keys : (f[k] > 0 /\ Len(k) > 1) => f[SubSeq(k, 1, Len(k) - 1)] > 0}
        /\ h = <<>>
Next == Len(h) < MaxLaunch /\ \E p \in P3 : (\A i \in DOMAIN h : h[i] # p) /\ h' = Append(h, p) /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, h>>
KSeq == SortSeq(SetToSeq(Keys), LAMBDA a, b : Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Cardinality({i \in DOMAIN a : a[i] = "/bin/a"}) >= 1 /\ a[Len(a)] # "/bin/a"))
Printed == Show => PrintT(<<"PATH", ToJson(<<[k \in 1..Cardinality(Keys) |-> <<SetToSeq(Keys)[k], n[SetToSeq(Keys)[k]]>>], h>>)>>)

M0 == [EmptyModel EXCEPT !.time = 100, !.lrt = 100, !.lat = 100, !.root = TRUE,
         !.exes = [p \in P3 |-> [maps |-> EmptyF, time |-> 10, upd |-> 3, rt |-> -1, ct |-> -1]],
         !.nodes = [k \in {q \in Keys : n[q] > 0} |-> n[k]]]
After(i) == FoldLeft(LAMBDA a, p : [Launch(a, p) EXCEPT !.exes[p].rt = 100], M0, SubSeq(h, 1, i))
Mx == After(Len(h))
Sc == VommScores(Mx)
C(m, k) == IF k \in DOMAIN m.nodes THEN m.nodes[k] ELSE 0

Bounded == \A p \in P3 : 0 <= Sc[p][1] /\ Sc[p][1] <= Sc[p][2] /\ Sc[p][2] <= M
Idle  == \A p \in P3 : Running(Mx, p) => Sc[p] = <<M, M>>
First == LikelierFirst(Mx, Sc)
Shape == TreeInv(Mx)
\* a launch is counted once in its sequence and once in its pair, and nowhere else
Grows == h # <<>> =>
  LET m == After(Len(h) - 1)  p == h[Len(h)]  k == Append(m.ctx, p)
      pr == IF Len(h) > 1 THEN <<h[Len(h) - 1], p>> ELSE <<>>
  IN \A q \in DOMAIN Mx.nodes : Mx.nodes[q] - C(m, q) = (IF q = k THEN 1 ELSE 0) + (IF q = pr THEN 1 ELSE 0)
Keeps == \A q \in DOMAIN M0.nodes : q \in DOMAIN Mx.nodes /\ Mx.nodes[q] >= M0.nodes[q]
\* without a history only the damped bids are left: at most one half for each stored pair
Damped == h = <<>> => \A p \in P3 :
  LET prs == {k \in DOMAIN M0.nodes : Len(k) = 2 /\ k[2] = p} IN
  /\ prs = {} => Sc[p] = <<M, M>>
  /\ prs # {} => Sc[p][2] <= 900000
  /\ Cardinality(prs) = 1 => Sc[p][1] >= 500000
\* the only successor of the last launch is nearly certain
Sure == h # <<>> => LET q == <<h[Len(h)]>>  ch == Children(Mx, q) IN
  \A p \in P3 : (~Running(Mx, p) /\ ch # {} /\ \A k \in ch : k[2] # p => Mx.nodes[k] = 0) =>
     ((\E k \in ch : k[2] = p /\ Mx.nodes[k] > 0) => Sc[p][2] <= 10001)
\* the rarer pair bids less; who never followed anything gets no bid
Rarer == h = <<>> => \A p, q \in P3 :
  LET one(z) == {k \in DOMAIN M0.nodes : Len(k) = 2 /\ k[2] = z} IN
  (Cardinality(one(p)) = 1 /\ Cardinality(one(q)) = 1 /\ SumOf(M0.nodes, one(p)) > SumOf(M0.nodes, one(q))) => Sc[p][2] < Sc[q][1]
Unseen == \A p \in P3 : (\A k \in DOMAIN Mx.nodes : Len(k) > 1 /\ k[Len(k)] = p => Mx.nodes[k] = 0) => Sc[p] = <<M, M>>
\* having followed the whole present sequence counts besides the pairs
Deep == Len(Mx.ctx) > 1 => \A p \in P3 : LET k == Append(Mx.ctx, p) IN
  (~Running(Mx, p) /\ C(Mx, k) > 0) => VommScores([Mx EXCEPT !.nodes = Drop(@, {k})])[p][1] > Sc[p][2]
\* counts matter only by their proportions, for the shares
Scaled == LET m2 == [Mx EXCEPT !.nodes = [k \in DOMAIN @ |-> 3 * @[k]]]  s2 == VommScores(m2) IN
  \A p \in P3 : Abs(s2[p][1] - Sc[p][1]) <= 20
=============================================================================
