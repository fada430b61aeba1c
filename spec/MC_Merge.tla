------------------------------- MODULE MC_Merge -------------------------------
(* From regions to requests: for every few regions of two files and every   *)
(* sort setting, the requests ask for exactly the bytes of the regions.     *)
EXTENDS Readahead, TLC, Json
CONSTANTS MaxRegions, MaxOff, MaxLen, Show
VARIABLE x       \* [regs: set of [f, off, len], sort, lay]
Reg == [f : {1, 2}, off : 0..MaxOff, len : 1..MaxLen]
Init == x \in [regs : {{r} : r \in Reg}, sort : 0..3, lay : 0..3]
Next == Cardinality(x.regs) < MaxRegions /\ \E r \in Reg \ x.regs : x' = [x EXCEPT !.regs = @ \union {r}]
Spec == Init /\ [][Next]_x
Printed == Show => PrintT(<<"PATH", ToJson(<<SetToSeq(x.regs), x.sort, x.lay>>)>>)

Ids == SetToSeq(x.regs)
reg == [i \in DOMAIN Ids |-> [p |-> IF Ids[i].f = 1 THEN "f" ELSE "g", pr |-> Ids[i].f, off |-> Ids[i].off, len |-> Ids[i].len, page |-> Ids[i].off]]
\* disk layouts: blocks in the order of the files, against it, unknown, and one file that cannot be opened
files == [p \in {"f", "g"} |->
   [k |-> IF x.lay = 3 /\ p = "g" THEN "n" ELSE "r", noopen |-> 0,
    ino |-> IF p = "f" THEN 9 ELSE 5,
    blk |-> CASE x.lay = 0 -> (IF p = "f" THEN 10 ELSE 30) [] x.lay = 1 -> (IF p = "f" THEN 30 ELSE 10) [] OTHER -> -1]]
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<y>> \o s : s \in Perms(S \ {y})} : y \in S}
blk == Lookup(<<>>, files, reg, [i \in DOMAIN Ids |-> i], x.sort)
Rq(s, full) == Merge(Order(s, reg, blk, x.sort), reg, full)
AsSet(s) == {s[i] : i \in DOMAIN s}
Regs == {Req(reg, i) : i \in DOMAIN Ids}
\* P12: exactly the bytes, whatever the order the regions come in
Bytes == \A s \in Perms(DOMAIN Ids), full \in BOOLEAN : Covers(AsSet(Rq(s, full)), Regs)
\* sorted by path: the same requests whatever the order, as few as can be, and the two ways to merge agree
ByPath == x.sort = SortPath =>
  \A s, t \in Perms(DOMAIN Ids) :
    /\ Rq(s, TRUE) = Rq(t, TRUE) /\ Rq(s, TRUE) = Rq(s, FALSE)
    /\ LET q == Rq(s, TRUE) IN \A i, j \in DOMAIN q : i < j => ((q[i].p = "f" /\ q[j].p = "g")
                                                              \/ (q[i].p = q[j].p /\ q[i].off + q[i].len < q[j].off))
\* sorted by block or inode: files one after the other where that is their order on disk
ByDisk == (x.sort = SortInode \/ (x.sort = SortBlock /\ x.lay \in {0, 1})) =>
  \A s \in Perms(DOMAIN Ids) :
    LET o == Order(s, reg, blk, x.sort) IN
    /\ \A i, j \in DOMAIN o : i < j => blk[o[i]] <= blk[o[j]]
    /\ \A t \in Perms(DOMAIN Ids) : Order(t, reg, blk, x.sort) = o
Unsorted == x.sort = SortNone => \A s \in Perms(DOMAIN Ids) : Order(s, reg, blk, x.sort) = s
=============================================================================
