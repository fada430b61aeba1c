------------------------------- MODULE MC_Maps -------------------------------
(* What is recorded of a process: every short memory map over a few kinds   *)
(* of lines, under a few map filters.                                       *)
EXTENDS Daemon, Json
CONSTANTS Lines, MaxLen, Show
VARIABLE l
Line(x) ==
  CASE x = "a0"   -> [x |-> "/l/a", n |-> 4, len |-> 2, ol |-> "0,2"]
    [] x = "a2"   -> [x |-> "/l/a", n |-> 4, len |-> 2, ol |-> "2,2"]
    [] x = "a0x"  -> [x |-> "/l/a", n |-> 4, len |-> 3, ol |-> "0,3"]
    [] x = "b0"   -> [x |-> "/m/b", n |-> 4, len |-> 2, ol |-> "0,2"]
    [] x = "ap"   -> [x |-> "/l/a.#prelink#.Xy", n |-> 17, len |-> 2, ol |-> "0,2"]
    [] x = "ad"   -> [x |-> "/l/a%20(deleted)", n |-> 14, len |-> 5, ol |-> "0,5"]
    [] x = "apd"  -> [x |-> "/l/a.#prelink#.q%20(deleted)", n |-> 26, len |-> 2, ol |-> "2,2"]
    [] x = "anon" -> [x |-> "", n |-> 0, len |-> 7, ol |-> "0,7"]
    [] x = "heap" -> [x |-> "[heap]", n |-> 6, len |-> 9, ol |-> "0,9"]
    [] x = "memfd" -> [x |-> "anon_inode:[x]", n |-> 14, len |-> 9, ol |-> "0,9"]
Filters == { <<>>, <<"!/l">>, <<"/m", "!/">>, <<"/l/a", "!/l", "!/m">> }
Init == l = <<>>
Next == Len(l) < MaxLen /\ \E e \in Lines : l' = Append(l, e)
Spec == Init /\ [][Next]_l
Printed == Show => PrintT(<<"PATH", ToJson(l)>>)
C(f) == [Defaults EXCEPT !.mapprefix = f]
Pr(s, dy) == [pid |-> 10, unr |-> FALSE, x |-> "/l/a", n |-> 4, dying |-> dy, maps |-> [i \in DOMAIN s |-> Line(s[i])]]
RG(s, f) == RegionsOf(C(f), Pr(s, FALSE), KeyOf)
File == [a0 |-> "/l/a|0,2", a2 |-> "/l/a|2,2", a0x |-> "/l/a|0,3", b0 |-> "/m/b|0,2", ap |-> "/l/a|0,2", apd |-> "/l/a|2,2"]
Owner(x) == IF x = "b0" THEN "/m/b" ELSE "/l/a"
\* exactly the accepted file-backed mappings, in their order
Exactly == \A f \in Filters : RG(l, f) = [i \in DOMAIN SelectSeq(l, LAMBDA x : x \in DOMAIN File /\ Accept(Owner(x), f)) |->
             LET s == SelectSeq(l, LAMBDA x : x \in DOMAIN File /\ Accept(Owner(x), f)) IN [k |-> File[s[i]], len |-> Line(s[i]).len]]
Additive == \A f \in Filters, i \in 0..Len(l) : RG(l, f) = RG(SubSeq(l, 1, i), f) \o RG(SubSeq(l, i + 1, Len(l)), f)
\* big, small or nothing at all: by the total of what is recorded
Sized == \A f \in Filters, mn \in 0..9 :
  LET r == Digest(C(f), <<Pr(l, FALSE)>>, 10, KeyOf, mn)  t == SumLen(RG(l, f)) IN
  /\ r.r = (IF t = 0 THEN "dead" ELSE IF t >= mn THEN "big" ELSE "small")
  /\ r.r = "big" => DOMAIN r.maps = {RG(l, f)[i].k : i \in DOMAIN RG(l, f)}
\* it is read twice: the first time for its size, the second to be recorded
Twice == \A f \in Filters, mn \in {0, 3, 5}, i \in 0..Len(l) :
  LET a == SubSeq(l, 1, i)  b == SubSeq(l, i + 1, Len(l))
      r == Digest(C(f), <<[then |-> Pr(b, FALSE).maps] @@ Pr(a, FALSE)>>, 10, KeyOf, mn)
      one == Digest(C(f), <<Pr(a, FALSE)>>, 10, KeyOf, mn)
  IN IF one.r # "big" THEN r = one
     ELSE IF SumLen(RG(b, f)) = 0 THEN r.r = "dead"
     ELSE r.r = "big" /\ r.maps = BagOf(RG(b, f))
Dying == Digest(C(<<>>), <<Pr(l, TRUE)>>, 10, KeyOf, 0).r = "dead" /\ Digest(C(<<>>), <<>>, 10, KeyOf, 0).r = "dead"
=============================================================================
