------------------------------- MODULE Strs -------------------------------
(* Byte strings, written with every unusual byte as %XX.  The encoding is   *)
(* per byte, so prefixes of encodings are encodings of prefixes.            *)
EXTENDS Integers, Sequences

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* position of the first occurrence of p in s, 0 if there is none
RECURSIVE IdxFrom(_, _, _)
IdxFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
                    ELSE IdxFrom(s, p, i + 1)
IndexOf(s, p) == IdxFrom(s, p, 1)

(* The first entry of the list that is a prefix of the path decides; an     *)
(* entry starting with '!' rejects; no matching entry accepts.              *)
RECURSIVE Accept(_, _)
Accept(path, list) ==
  IF list = <<>> THEN TRUE
  ELSE LET e   == Head(list)
           neg == Len(e) > 0 /\ SubSeq(e, 1, 1) = "!"
           pre == IF neg THEN SubSeq(e, 2, Len(e)) ELSE e
       IN IF StartsWith(path, pre) THEN ~neg ELSE Accept(path, Tail(list))

PrelinkMark == ".#prelink#."
DeletedMark == "(deleted)"

(* What a name reported by the kernel stands for: <<>> for nothing on disk, *)
(* else <<the path>>.                                                       *)
FileOf(x) ==
  IF ~StartsWith(x, "/") THEN <<>>
  ELSE LET p == IndexOf(x, PrelinkMark) IN
       IF p > 0 THEN <<SubSeq(x, 1, p - 1)>>
       ELSE IF IndexOf(x, DeletedMark) > 0 THEN <<>> ELSE <<x>>

MaxName == 511          \* longer names are not tracked
=============================================================================
