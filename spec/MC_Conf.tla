------------------------------- MODULE MC_Conf -------------------------------
(* Every short configuration file over a few lines: what is in force.       *)
EXTENDS Conf, TLC, Json, SequencesExt, FiniteSets
CONSTANTS Lines, MaxLen, Show
VARIABLE l
E(g, k, ok, v) == [g |-> g, k |-> k, ok |-> ok, v |-> v]
Line(x) ==
  CASE x = "c9"  -> E("model", "cycle", TRUE, 9)       [] x = "c7" -> E("model", "cycle", TRUE, 7)
    [] x = "cx"  -> E("model", "cycle", FALSE, 0)      [] x = "sc" -> E("system", "cycle", TRUE, 5)     \* wrong group
    [] x = "mp"  -> E("system", "maxprocs", TRUE, 4)   [] x = "pr" -> E("system", "processes", TRUE, 6) \* old name
    [] x = "prx" -> E("system", "processes", FALSE, 0) [] x = "ds" -> E("system", "doscan", TRUE, 0)
    [] x = "dsx" -> E("system", "doscan", FALSE, 0)    [] x = "mk" -> E("system", "prediction_algorithm", TRUE, "MARKOV")
    [] x = "un"  -> E("system", "nonsense", TRUE, "x") [] x = "ep" -> E("system", "exeprefix", TRUE, <<"!/x", "/">>)
    [] x = "mt"  -> E("model", "memtotal", TRUE, -400)
File(s) == [st |-> "ok", kv |-> [i \in DOMAIN s |-> Line(s[i])]]
Init == l = <<>>
Next == Len(l) < MaxLen /\ \E e \in Lines : l' = Append(l, e)
Spec == Init /\ [][Next]_l
Printed == Show => PrintT(<<"PATH", ToJson(l)>>)
Entries == {Line(l[i]) : i \in DOMAIN l}
Keys == {Field(e) : e \in Entries} \ {""}
\* what is not mentioned keeps its default
Frame == Valid(File(l)) => \A f \in DOMAIN Defaults \ Keys : Load(File(l))[f] = Defaults[f]
\* what is mentioned is what the last mention says; the old name counts without the new one only
LastOf(g, k) == LET S == {i \in DOMAIN l : Line(l[i]).g = g /\ Line(l[i]).k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Says == Valid(File(l)) =>
  /\ LET i == LastOf("model", "cycle") IN Load(File(l)).cycle = (IF i = 0 THEN 20 ELSE Line(l[i]).v)
  /\ LET i == LastOf("system", "doscan") IN Load(File(l)).doscan = (IF i = 0 THEN 1 ELSE Line(l[i]).v)
  /\ LET i == LastOf("system", "maxprocs")  j == LastOf("system", "processes") IN
       Load(File(l)).maxprocs = (IF i # 0 THEN Line(l[i]).v ELSE IF j # 0 THEN Line(l[j]).v ELSE 30)
\* refused exactly if an entry that counts is of the wrong type
Refused == Valid(File(l)) = /\ (LastOf("model", "cycle") # 0 => Line(l[LastOf("model", "cycle")]).ok)
                            /\ (LastOf("system", "doscan") # 0 => Line(l[LastOf("system", "doscan")]).ok)
                            /\ ((LastOf("system", "processes") # 0 /\ LastOf("system", "maxprocs") = 0) => Line(l[LastOf("system", "processes")]).ok)
\* loading depends on the file alone (reload = start), and unknown entries do not matter
Pure == LET s == SelectSeq(l, LAMBDA x : x \notin {"un", "sc"}) IN Valid(File(s)) = Valid(File(l)) /\ (Valid(File(l)) => Load(File(s)) = Load(File(l)))
\* what is written out on request tells everything in force, each setting under its key, and nothing else
Told == Valid(File(l)) =>
  LET D == Dumped(Load(File(l))) IN
  /\ Len(D) = Cardinality(DOMAIN Defaults) /\ \A i, j \in DOMAIN D : D[i][1] = D[j][1] => i = j
  /\ {Field([g |-> SubSeq(D[i][1], 1, IndexOf(D[i][1], ".") - 1), k |-> SubSeq(D[i][1], IndexOf(D[i][1], ".") + 1, Len(D[i][1]))]) : i \in DOMAIN D} = DOMAIN Defaults
  /\ \A e \in Lines : LET f == File(Append(l, e)) IN
       Valid(f) => \A i \in DOMAIN D : LET x == Dumped(Load(f))[i] k == Field([g |-> SubSeq(D[i][1], 1, IndexOf(D[i][1], ".") - 1), k |-> SubSeq(D[i][1], IndexOf(D[i][1], ".") + 1, Len(D[i][1]))]) IN
         x[1] = D[i][1] /\ ((x = D[i]) = (Load(f)[k] = Load(File(l))[k]))
=============================================================================
