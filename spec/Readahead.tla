------------------------------ MODULE Readahead ------------------------------
(* From the chosen regions to the requests made to the kernel.              *)
(* reg: id -> [p, pr, off, len]   pr: rank of the path in byte order        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

SortNone == 0  SortPath == 1  SortInode == 2  SortBlock == 3

Openable(files, p) == p \in DOMAIN files /\ files[p].k \notin {"n", "e", "t", "o"} /\ files[p].noopen = 0

\* position used for sorting by disk block or inode
BlockOf(files, reg, id, strategy) ==
  LET p == reg[id].p IN
  IF ~Openable(files, p) THEN 0
  ELSE IF strategy = SortBlock /\ files[p].blk > 0 THEN files[p].blk + reg[id].page
  ELSE files[p].ino

\* blk: what is remembered of earlier look-ups
Lookup(blk, files, reg, sel, strategy) ==
  [id \in DOMAIN blk \union {sel[i] : i \in DOMAIN sel} |->
     IF id \in DOMAIN blk THEN blk[id] ELSE BlockOf(files, reg, id, strategy)]

PathLess(reg, a, b) ==
  \/ reg[a].pr < reg[b].pr
  \/ reg[a].pr = reg[b].pr /\ \/ reg[a].off < reg[b].off
                              \/ reg[a].off = reg[b].off /\ reg[a].len > reg[b].len
BlockLess(reg, blk, a, b) == \/ blk[a] < blk[b]
                             \/ blk[a] = blk[b] /\ PathLess(reg, a, b)

Order(sel, reg, blk, strategy) ==
  IF strategy = SortPath THEN SortSeq(sel, LAMBDA a, b : PathLess(reg, a, b))
  ELSE IF strategy \in {SortInode, SortBlock} THEN SortSeq(sel, LAMBDA a, b : BlockLess(reg, blk, a, b))
  ELSE sel

Req(reg, id) == [p |-> reg[id].p, off |-> reg[id].off, len |-> reg[id].len]
Touches(r, x, full) ==
  /\ r.p = x.p
  /\ r.off + r.len >= x.off
  /\ IF full THEN x.off + x.len >= r.off ELSE x.off >= r.off
Join(r, x) == LET lo == IF x.off < r.off THEN x.off ELSE r.off
                  hi == IF x.off + x.len > r.off + r.len THEN x.off + x.len ELSE r.off + r.len
              IN [p |-> r.p, off |-> lo, len |-> hi - lo]
\* consecutive regions of a file that overlap or touch become one request;
\* full: also when the later one starts before the earlier one
Merge(order, reg, full) ==
  FoldLeft(LAMBDA acc, id :
             LET x == Req(reg, id) IN
             IF acc # <<>> /\ Touches(acc[Len(acc)], x, full)
             THEN [acc EXCEPT ![Len(acc)] = Join(@, x)] ELSE Append(acc, x),
           <<>>, order)

(* seen: the requests made, [p, off, len, f]; f the number of the reader (0 *)
(* for the daemon itself).  failed: the readers that could not be started.  *)
Strip(r) == [p |-> r.p, off |-> r.off, len |-> r.len]
RequestsOK(want, seen, maxprocs, failed, files) ==
  IF maxprocs <= 0
  THEN [i \in DOMAIN seen |-> Strip(seen[i])] = SelectSeq(want, LAMBDA r : Openable(files, r.p))
       /\ \A i \in DOMAIN seen : seen[i].f = 0
  ELSE /\ \A i \in DOMAIN seen : seen[i].f \in DOMAIN want /\ Strip(seen[i]) = want[seen[i].f]
       /\ \A i, j \in DOMAIN seen : seen[i].f = seen[j].f => i = j
       /\ {seen[i].f : i \in DOMAIN seen} =
          {f \in DOMAIN want : f \notin failed /\ Openable(files, want[f].p)}

\* the bytes asked for are those of the regions, region by region
Covers(reqs, regs) ==
  /\ \A x \in regs : \E r \in reqs : r.p = x.p /\ r.off <= x.off /\ x.off + x.len <= r.off + r.len
  /\ \A r \in reqs : \* every request is a union of regions: its cut points are covered
        \A o \in {r.off} \union {x.off + x.len : x \in {y \in regs : y.p = r.p}} :
          (o >= r.off /\ o < r.off + r.len) =>
             \E x \in regs : x.p = r.p /\ x.off <= o /\ o < x.off + x.len

(* Reading ahead stays in the background: at idle priority, for reading     *)
(* only, without a trace in the file's access time, and no terminal becomes *)
(* the daemon's.  fl: how the file was opened (1 for writing, 2 leaving the  *)
(* access time, 4 not taking over a terminal); io: the priority class.       *)
IdleClass == 3
Has(fl, b) == (fl \div b) % 2 = 1
Background(r) == r.io = IdleClass
Discreet(rc) == /\ \A i \in DOMAIN rc.opens : ~Has(rc.opens[i], 1) /\ Has(rc.opens[i], 4)
                /\ \A i \in DOMAIN rc.reqs : Has(rc.reqs[i].fl, 2)

\* kernels and file systems without read-ahead: advice on whole pages
Unsupported == {22, 38, 95}
=============================================================================
