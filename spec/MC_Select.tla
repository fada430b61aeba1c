------------------------------ MODULE MC_Select ------------------------------
(* Which regions to prefetch: SelectionOK, the relation the traces are      *)
(* checked against, says exactly "walk the regions from the most needed to  *)
(* the least, ties in any order; stop at the first that is not predicted or *)
(* does not fit".  All instances of a small size.                           *)
EXTENDS Predict, Json
CONSTANTS MaxRegions, MaxKb, MaxNeed, MaxBudget, Show
VARIABLE x        \* [kb, need, budget]: need 0 is not predicted
Inst == UNION {[kb : [1..n -> 1..MaxKb], need : [1..n -> 0..MaxNeed], budget : -1..MaxBudget] : n \in 1..MaxRegions}
Init == x \in Inst
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Printed == Show => PrintT(<<"PATH", ToJson(<<x.kb, x.need, x.budget>>)>>)

All == DOMAIN x.kb
Rank == [i \in All |-> MaxNeed - x.need[i]]
Neg  == [i \in All |-> x.need[i] > 0]
\* all ways to line up the regions by need
Lines == {s \in [1..Cardinality(All) -> All] :
            /\ \A i, j \in DOMAIN s : i # j => s[i] # s[j]
            /\ \A i, j \in DOMAIN s : i < j => Rank[s[i]] <= Rank[s[j]]}
RECURSIVE Greedy(_, _)
Greedy(s, left) == IF s = <<>> THEN <<>>
                   ELSE IF ~Neg[Head(s)] \/ x.kb[Head(s)] > left THEN <<>>
                   ELSE <<Head(s)>> \o Greedy(Tail(s), left - x.kb[Head(s)])
Arr == UNION {{s \in [1..n -> All] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]} : n \in 0..Cardinality(All)}
Right == {Greedy(s, x.budget) : s \in Lines}
Exact == \A s \in Arr : SelectionOK(s, All, Rank, Neg, x.kb, x.budget) = (s \in Right)
\* P11 in its own words
Words == \A s \in Right :
  LET S == {s[i] : i \in DOMAIN s} IN
  /\ SumKb(x.kb, s) <= Max2(0, x.budget)
  /\ x.budget <= 0 => s = <<>>
  /\ \A i \in S : x.need[i] > 0 /\ \A j \in All \ S : x.need[i] >= x.need[j]
=============================================================================
