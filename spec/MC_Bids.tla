------------------------------- MODULE MC_Bids -------------------------------
(* Markov bids, value by value: one chain in every interesting situation.   *)
(* The laws below say what the formula of Predict.tla has to satisfy         *)
(* without repeating it; the instances are replayed (several at a time, as   *)
(* state files) in the real daemon, which has to come to the same scores.    *)
EXTENDS Predict, Conf, Json
CONSTANTS Stays,      \* mean stays, in hundredths of a second
          Cycles, Rows, Times, Show
VARIABLE x            \* [o, r, st, cyc, uc, tm]
T == 1000
\* departures from the present state: to "only a", "only b", "both", elsewhere
RowOf(r) == CASE r = 1 -> <<0, 0, 0, 0>> [] r = 2 -> <<1, 0, 0, 0>> [] r = 3 -> <<0, 1, 0, 0>> [] r = 4 -> <<0, 0, 1, 0>>
              [] r = 5 -> <<2, 1, 4, 0>> [] r = 6 -> <<3, 3, 0, 5>> [] r = 7 -> <<0, 0, 3, 7>> [] r = 8 -> <<40, 1, 2, 900>>
\* running times of a, of b, and joint
TimeOf(t) == CASE t = 1 -> <<0, 0, 0>> [] t = 2 -> <<1000, 500, 500>> [] t = 3 -> <<400, 400, 400>> [] t = 4 -> <<500, 500, 0>>
               [] t = 5 -> <<500, 500, 250>> [] t = 6 -> <<300, 200, 150>> [] t = 7 -> <<999, 1, 1>> [] t = 8 -> <<700, 100, 20>> [] t = 9 -> <<600, 0, 0>>
Init == x \in [o : 0..3, r : Rows, st : Stays, cyc : Cycles, uc : {0, 1}, tm : Times]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Printed == Show => PrintT(<<"PATH", ToJson(<<x.o, RowOf(x.r), x.st, x.cyc, x.uc, TimeOf(x.tm)>>)>>)

\* the row of transitions out of state o, with those that do not leave dropped
Row(o, r) == LET q == RowOf(r)
                 v == <<IF o = 0 THEN 0 ELSE q[4], IF o = 1 THEN 0 ELSE q[1], IF o = 2 THEN 0 ELSE q[2], IF o = 3 THEN 0 ELSE q[3]>>
             IN [i \in 1..4 |-> IF i = o + 1 THEN v[1] + v[2] + v[3] + v[4] ELSE v[i]]
Chain(o, r, st, tm) == LET w == Row(o, r) IN
  [t |-> TimeOf(tm)[3], st |-> o, ct |-> T, s |-> [i \in 1..4 |-> IF i = o + 1 THEN st * w[i] ELSE 0], w |-> [i \in 1..4 |-> IF i = o + 1 THEN w ELSE <<0, 0, 0, 0>>]]
C(y) == [Defaults EXCEPT !.algo = "MARKOV", !.cycle = y.cyc, !.usecorrelation = y.uc]
Mod(y, ch) ==
  [EmptyModel EXCEPT !.time = T, !.lrt = T,
     !.exes = [p \in {"a", "b"} |-> [maps |-> EmptyF, time |-> TimeOf(y.tm)[IF p = "a" THEN 1 ELSE 2], upd |-> 0, ct |-> -1,
                                    rt |-> IF Bit(y.o, IF p = "a" THEN 1 ELSE 2) = 1 THEN T ELSE 0]],
     !.chains = (<<"a", "b">> :> ch)]
Ch(y) == Chain(y.o, y.r, y.st, y.tm)
S(y) == MarkovScores(Mod(y, Ch(y)), C(y))
Sx == S(x)
Idle == {p \in {"a", "b"} : Bit(x.o, IF p = "a" THEN 1 ELSE 2) = 0}
To(p) == Row(x.o, x.r)[IF p = "a" THEN 2 ELSE 3] + Row(x.o, x.r)[4]
Out == Row(x.o, x.r)[x.o + 1]

Bounded == \A p \in {"a", "b"} : 0 <= Sx[p][1] /\ Sx[p][1] <= Sx[p][2] /\ Sx[p][2] <= M
\* who runs gets no bid; nor does who was never seen starting from here; nor out of a state left within a second
Silent == \A p \in {"a", "b"} : (p \notin Idle \/ Out = 0 \/ To(p) = 0 \/ x.st <= 100) => Sx[p] = <<M, M>>
\* without the correlation the bid can only grow; a longer cycle makes leaving likelier; a longer stay less so
Grow == \A p \in {"a", "b"} :
  /\ S([x EXCEPT !.uc = 0])[p][1] <= Sx[p][2]
  /\ \A c \in Cycles : c >= x.cyc => S([x EXCEPT !.cyc = c])[p][1] <= Sx[p][2]
  /\ \A z \in Stays : z > x.st /\ x.st > 120 => S([x EXCEPT !.st = z])[p][2] >= Sx[p][1]
\* in a longer cycle leaving is strictly likelier, unless it was certain anyway
Longer == \A p \in Idle : (To(p) > 0 /\ 100 * To(p) >= Out /\ x.uc = 0 /\ x.st >= 150 /\ 150 * x.cyc <= 3 * x.st) =>
  \A c \in Cycles : c > x.cyc => S([x EXCEPT !.cyc = c])[p][2] < Sx[p][1]
\* being started together with the other counts as being started
Joined == LET o == x.o + 1  c == Ch(x)  q(y) == [c EXCEPT !.w[o][y] = @ + c.w[o][4], !.w[o][4] = 0] IN
  \A p \in Idle : MarkovScores(Mod(x, q(IF p = "a" THEN 2 ELSE 3)), C(x))[p] = Sx[p]
\* a bid never exceeds the share of departures that started the application
Share == \A p \in Idle : Out > 0 => M - Sx[p][1] <= Frac(To(p), Out) + 2
\* how the pair is kept does not matter, nor what is recorded about other states
Sided == MarkovScores(Turned(Mod(x, Ch(x)), {<<"a", "b">>}), C(x)) = Sx
Other == \A o \in (0..3) \ {x.o} : LET c == Ch(x) IN
  MarkovScores(Mod(x, [c EXCEPT !.w[o + 1] = Row(o, 6), !.s[o + 1] = 777]), C(x)) = Sx
\* correlation: within one, one for those always together, nothing for the independent,
\* and the same for a and the absence of b
Cor(ta, tb, t) == Corr([Mod(x, Ch(x)) EXCEPT !.exes["a"].time = ta, !.exes["b"].time = tb], [C(x) EXCEPT !.usecorrelation = 1], "a", "b", [Ch(x) EXCEPT !.t = t])
CorLaw == LET q == TimeOf(x.tm)  c == Cor(q[1], q[2], q[3]) IN
  /\ 0 <= c[1] /\ c[2] <= M + 3
  /\ (q[1] = q[2] /\ q[3] = q[1] /\ q[1] \in 1..(T - 1)) => c[1] >= M - 3
  /\ (q[1] * q[2] = q[3] * T) => c[2] <= 3
  /\ Abs(c[1] - Cor(q[1], T - q[2], q[1] - q[3])[1]) <= 3
  /\ c = Cor(q[2], q[1], q[3])
=============================================================================
