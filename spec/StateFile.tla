------------------------------ MODULE StateFile ------------------------------
(* Reading a state file: a sequence of records, one per line.  Python's     *)
(* lexer only splits lines into fields; what they mean is decided here.     *)
(* A record is [tag, ok, ...]; ok: the fields are all there and well-formed *)
(*   PRELOAD  same (major version as ours), time                            *)
(*   MAP      id, key            key: the region                            *)
(*   EXE      id, p, upd, time                                              *)
(*   EXEMAP   exe, map           MARKOV  a, b, t, s, w                      *)
(*   VOMMNODE id, exe, n, parent                                            *)
(*   BADEXE, COMMENT, OTHER (unknown type), BLANK                           *)
EXTENDS Preload

Start == [res |-> "go", line |-> 0, time |-> 0, maps |-> EmptyF, ids |-> EmptyF,
          exes |-> EmptyF, chains |-> EmptyF, nid |-> ("0" :> <<>>), nodes |-> EmptyF, tree |-> FALSE]

Refuse(a, n) == [a EXCEPT !.res = "refused", !.line = n]

HasPair(a, x, y) == <<x, y>> \in DOMAIN a.chains \/ <<y, x>> \in DOMAIN a.chains

Node(a, r) ==
  IF r.exe \notin DOMAIN a.ids THEN a                    \* unknown application: dropped
  ELSE LET b == [a EXCEPT !.tree = TRUE] IN
       IF r.parent \notin DOMAIN a.nid THEN b              \* unknown parent: dropped
       ELSE LET k == Append(a.nid[r.parent], a.ids[r.exe]) IN
            IF Len(k) > MaxDepth \/ k \in DOMAIN a.nodes \/ r.id \in DOMAIN a.nid THEN b
            ELSE [b EXCEPT !.nid = Put(@, r.id, k), !.nodes = Put(@, k, r.n)]

Record(a, r, n) ==
  CASE r.tag = "BLANK"   -> Refuse(a, n)
    [] n = 1 /\ r.tag # "PRELOAD" -> [a EXCEPT !.res = "ignored"]
    [] r.tag = "PRELOAD" -> IF n > 1 \/ ~r.ok THEN Refuse(a, n)
                            ELSE IF ~r.same THEN [a EXCEPT !.res = "ignored"]
                            ELSE [a EXCEPT !.time = r.time]
    [] r.tag \in {"BADEXE", "COMMENT"} -> a
    [] r.tag = "OTHER"   -> Refuse(a, n)
    [] r.tag = "MAP"     -> IF ~r.ok \/ r.id \in DOMAIN a.maps \/ \E i \in DOMAIN a.maps : a.maps[i] = r.key
                            THEN Refuse(a, n) ELSE [a EXCEPT !.maps = Put(@, r.id, r.key)]
    [] r.tag = "EXE"     -> IF ~r.ok \/ r.id \in DOMAIN a.ids \/ r.p \in DOMAIN a.exes THEN Refuse(a, n)
                            ELSE [a EXCEPT !.ids = Put(@, r.id, r.p),
                                           !.exes = Put(@, r.p, [maps |-> EmptyF, time |-> r.time, upd |-> r.upd])]
    [] r.tag = "EXEMAP"  -> IF ~r.ok \/ r.exe \notin DOMAIN a.ids \/ r.map \notin DOMAIN a.maps THEN Refuse(a, n)
                            ELSE LET p == a.ids[r.exe]  k == a.maps[r.map]  b == a.exes[p].maps IN
                                 [a EXCEPT !.exes[p].maps = Put(@, k, (IF k \in DOMAIN b THEN b[k] ELSE 0) + 1)]
    [] r.tag = "MARKOV"  -> IF ~r.ok \/ r.a \notin DOMAIN a.ids \/ r.b \notin DOMAIN a.ids \/ r.a = r.b
                               \/ HasPair(a, a.ids[r.a], a.ids[r.b]) THEN Refuse(a, n)
                            ELSE [a EXCEPT !.chains = Put(@, <<a.ids[r.a], a.ids[r.b]>>,
                                                          [t |-> r.t, s |-> r.s, w |-> r.w])]
    [] r.tag = "VOMMNODE" -> IF ~r.ok THEN Refuse(a, n) ELSE Node(a, r)

RECURSIVE ReadFrom(_, _, _)
ReadFrom(a, recs, n) == IF a.res # "go" \/ n > Len(recs) THEN a
                        ELSE ReadFrom(Record(a, recs[n], n), recs, n + 1)

\* [res, line, c]: "loaded" or "ignored" with the content c, or "refused" at a line
Read(recs) ==
  LET a == ReadFrom(Start, recs, 1) IN
  [ res  |-> IF a.res = "go" THEN "loaded" ELSE a.res,
    line |-> a.line,
    c    |-> IF a.res # "go" THEN NoContent
             ELSE [time |-> a.time, exes |-> a.exes, chains |-> a.chains,
                   nodes |-> a.nodes, tree |-> a.tree] ]

\* the records of a content, in the order a save writes them
Id(s, x) == ToString(CHOOSE i \in DOMAIN s : s[i] = x)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Repeat(x, n) == [i \in 1..n |-> x]
NodeSeq(nodes) == SortSeq(SetToSeq(DOMAIN nodes), LAMBDA a, b : Len(a) < Len(b))
Written(c) ==
  LET ms == SetToSeq(UNION {DOMAIN c.exes[p].maps : p \in DOMAIN c.exes})
      ps == SetToSeq(DOMAIN c.exes)
      ks == SetToSeq(DOMAIN c.chains)
      ns == NodeSeq(c.nodes)
  IN << [tag |-> "PRELOAD", ok |-> TRUE, same |-> TRUE, time |-> c.time] >>
     \o [i \in DOMAIN ms |-> [tag |-> "MAP", ok |-> TRUE, id |-> ToString(i), key |-> ms[i]]]
     \o [i \in DOMAIN ps |-> [tag |-> "EXE", ok |-> TRUE, id |-> ToString(i), p |-> ps[i], upd |-> c.exes[ps[i]].upd, time |-> c.exes[ps[i]].time]]
     \o Flat([i \in DOMAIN ps |->
                LET b == c.exes[ps[i]].maps  bs == SetToSeq(DOMAIN b) IN
                Flat([j \in DOMAIN bs |-> Repeat([tag |-> "EXEMAP", ok |-> TRUE, exe |-> ToString(i), map |-> Id(ms, bs[j])], b[bs[j]])])])
     \o [i \in DOMAIN ks |-> [tag |-> "MARKOV", ok |-> TRUE, a |-> Id(ps, ks[i][1]), b |-> Id(ps, ks[i][2]),
                               t |-> c.chains[ks[i]].t, s |-> c.chains[ks[i]].s, w |-> c.chains[ks[i]].w]]
     \o [i \in DOMAIN ns |-> [tag |-> "VOMMNODE", ok |-> TRUE, id |-> ToString(i), exe |-> Id(ps, ns[i][Len(ns[i])]), n |-> c.nodes[ns[i]],
                               parent |-> IF Len(ns[i]) = 1 THEN "0" ELSE Id(ns, SubSeq(ns[i], 1, Len(ns[i]) - 1))]]
=============================================================================
