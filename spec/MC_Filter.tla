------------------------------ MODULE MC_Filter ------------------------------
(* Path filters: every short prefix list over a few entries, against a few  *)
(* paths that share prefixes.                                               *)
EXTENDS Strs, TLC, Json, SequencesExt, FiniteSets
CONSTANTS Entries, Pths, MaxLen, Show
VARIABLE l
Init == l = <<>>
Next == Len(l) < MaxLen /\ \E e \in Entries : l' = Append(l, e)
Spec == Init /\ [][Next]_l
Printed == Show => PrintT(<<"PATH", ToJson(l)>>)
Neg(e) == StartsWith(e, "!")
Pre(e) == IF Neg(e) THEN SubSeq(e, 2, Len(e)) ELSE e
\* the first entry that is a prefix decides (P05, word for word)
First(p) == {i \in DOMAIN l : StartsWith(p, Pre(l[i])) /\ \A j \in 1..(i - 1) : ~StartsWith(p, Pre(l[j]))}
Decides == \A p \in Pths : Accept(p, l) = (IF First(p) = {} THEN TRUE ELSE ~Neg(l[CHOOSE i \in First(p) : TRUE]))
\* entries after the deciding one, and entries that do not match, are of no consequence
Later   == \A p \in Pths : First(p) # {} => LET i == CHOOSE i \in First(p) : TRUE IN Accept(p, l) = Accept(p, SubSeq(l, 1, i)) /\ Accept(p, l) = Accept(p, <<l[i]>>)
Without == \A p \in Pths : \A i \in DOMAIN l : ~StartsWith(p, Pre(l[i])) => Accept(p, l) = Accept(p, RemoveAt(l, i))
\* a list and its opposite disagree exactly on the paths some entry matches
Flip    == [i \in DOMAIN l |-> IF Neg(l[i]) THEN Pre(l[i]) ELSE "!" \o l[i]]
Opposed == \A p \in Pths : (Accept(p, l) # Accept(p, Flip)) = (First(p) # {})
=============================================================================
