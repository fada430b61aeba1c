------------------------------- MODULE MC_File -------------------------------
(* Every state file made of a header and up to MaxLen records of a small    *)
(* alphabet: what reading it means (StateFile!Read), and that whatever is   *)
(* loaded keeps the daemon's invariants.  TLC's enumeration is also         *)
(* rendered into real files and given to the real daemon.                   *)
EXTENDS Daemon, Json
CONSTANTS MaxLen, Heads, Symbols, Show
VARIABLES f,               \* the names of the records so far
          room             \* how many more may follow

H(n) == [tag |-> "PRELOAD", ok |-> TRUE, same |-> TRUE, time |-> n]
Map(i, k) == [tag |-> "MAP", ok |-> TRUE, id |-> i, key |-> k]
Exe(i, p) == [tag |-> "EXE", ok |-> TRUE, id |-> i, p |-> p, upd |-> 3, time |-> 40]
Em(e, k)  == [tag |-> "EXEMAP", ok |-> TRUE, exe |-> e, map |-> k]
Mk(a, b)  == [tag |-> "MARKOV", ok |-> TRUE, a |-> a, b |-> b, t |-> 7, s |-> <<600, 0, 0, 0>>,
              w |-> << <<2,1,1,0>>, <<0,0,0,0>>, <<0,0,0,0>>, <<0,0,0,0>> >>]
Nd(i, e, n, q) == [tag |-> "VOMMNODE", ok |-> TRUE, id |-> i, exe |-> e, n |-> n, parent |-> q]
Rec(x) ==
  CASE x = "H"   -> H(100)
    [] x = "HX"  -> [H(100) EXCEPT !.same = FALSE]
    [] x = "HB"  -> [tag |-> "PRELOAD", ok |-> FALSE]
    [] x = "M1"  -> Map("1", "r1")   [] x = "M2" -> Map("2", "r2")
    [] x = "M1'" -> Map("1", "r2")   [] x = "M2'" -> Map("2", "r1")
    [] x = "E1"  -> Exe("1", "/bin/a") [] x = "E2" -> Exe("2", "/bin/b")
    [] x = "E2'" -> Exe("2", "/bin/a") [] x = "E1'" -> Exe("1", "/bin/b")
    [] x = "EB"  -> [tag |-> "EXE", ok |-> FALSE]
    [] x = "X11" -> Em("1", "1")     [] x = "X21" -> Em("2", "1")  [] x = "X12" -> Em("1", "2")
    [] x = "K12" -> Mk("1", "2")     [] x = "K21" -> Mk("2", "1")  [] x = "K11" -> Mk("1", "1")
    [] x = "KW"  -> [Mk("1", "2") EXCEPT !.s = <<250, 300, 0, 0>>, !.w = << <<1,5,4,9>>, <<0,1,0,7>>, <<0,0,0,0>>, <<0,0,0,0>> >>]
    [] x = "KB"  -> [tag |-> "MARKOV", ok |-> FALSE]
    [] x = "N1"  -> Nd("1", "1", 3, "0")  [] x = "N2" -> Nd("2", "2", 2, "1") [] x = "N1'" -> Nd("1", "2", 1, "0")
    [] x = "N3"  -> Nd("3", "1", 4, "2")  [] x = "NE" -> Nd("4", "9", 1, "0")  [] x = "NP" -> Nd("5", "1", 1, "7")
    [] x = "N0"  -> Nd("0", "1", 2, "0")  [] x = "NS" -> Nd("6", "1", 2, "6")
    [] x = "N4"  -> Nd("7", "1", 9, "0")
    [] x = "NB"  -> [tag |-> "VOMMNODE", ok |-> FALSE]
    [] x = "C"   -> [tag |-> "COMMENT"]   [] x = "B" -> [tag |-> "BADEXE"]
    [] x = "O"   -> [tag |-> "OTHER"]     [] x = "Z" -> [tag |-> "BLANK"]
Recs(s) == [i \in DOMAIN s |-> Rec(s[i])]

\* some files start with the objects others refer to
Begun == { <<"H", "E1", "E2">>, <<"H", "E1", "E2", "K12">>, <<"H", "M1", "M2", "E1", "X11">>, <<"H", "E1", "E2", "N1", "N2">>,
           <<"H", "E1", "M1", "E2", "X11", "X21", "K21", "N1">>, <<"H", "M1", "E2'", "X21", "C", "E1'", "K21">> }
Init == /\ f \in {<<h>> : h \in Heads} \union Begun
        /\ room = IF Len(f) = 1 THEN MaxLen ELSE MaxLen - 1
Next == /\ room > 0 /\ room' = room - 1
        /\ Read(Recs(f)).res = "loaded"           \* a refused or ignored file stays so (checked by Stays)
        /\ \E x \in Symbols : f' = Append(f, x)
Spec == Init /\ [][Next]_<<f, room>>
Printed == Show => PrintT(<<"PATH", ToJson(f)>>)

R == Read(Recs(f))
\* P03: three outcomes; a refusal names a line of the file, the last one if everything before it was fine
Outcomes == /\ R.res \in {"loaded", "ignored", "refused"}
            /\ (R.res = "refused") = (R.line # 0)
            /\ R.res = "refused" => R.line = Len(f)
            /\ R.res # "loaded" => R.c = NoContent
\* what follows a refused line makes no difference
Stays == R.res # "loaded" => \A x \in {"H", "E1", "O", "C"} : Read(Recs(Append(f, x))) = R
\* a file is refused for a reason
Declared(i, tag) == {Rec(f[j]) : j \in {k \in 2..(i - 1) : Rec(f[k]).tag = tag /\ Rec(f[k]).ok}}
Reason(i) ==
  LET r == Rec(f[i]) IN
  \/ r.tag \in {"BLANK", "OTHER"}
  \/ r.tag = "PRELOAD" /\ (i > 1 \/ ~r.ok)
  \/ r.tag \in {"MAP", "EXE", "EXEMAP", "MARKOV", "VOMMNODE"} /\ ~r.ok
  \/ r.tag = "MAP" /\ r.ok /\ \E x \in Declared(i, "MAP") : x.id = r.id \/ x.key = r.key
  \/ r.tag = "EXE" /\ r.ok /\ \E x \in Declared(i, "EXE") : x.id = r.id \/ x.p = r.p
  \/ r.tag = "EXEMAP" /\ r.ok /\ ((\A x \in Declared(i, "EXE") : x.id # r.exe) \/ \A x \in Declared(i, "MAP") : x.id # r.map)
  \/ r.tag = "MARKOV" /\ r.ok /\ (\/ r.a = r.b \/ (\A x \in Declared(i, "EXE") : x.id # r.a) \/ (\A x \in Declared(i, "EXE") : x.id # r.b)
                                  \/ \E x \in Declared(i, "MARKOV") : {x.a, x.b} = {r.a, r.b})
Justified == (R.res = "refused") = (Rec(f[1]).tag = "PRELOAD" /\ (IF Len(f) = 1 THEN ~Rec(f[1]).ok ELSE Reason(Len(f))))
             \/ Rec(f[1]).tag \in {"BLANK"}
\* comments and remembered small applications may stand anywhere
Skipped == \A i \in 1..Len(f), x \in {"C", "B"} :
  LET g == SubSeq(f, 1, i) \o <<x>> \o SubSeq(f, i + 1, Len(f))  q == Read(Recs(g)) IN
  q.res = R.res /\ q.c = R.c /\ q.line = (IF R.line > i THEN R.line + 1 ELSE R.line)
\* the order of independent records does not matter
Indep(a, b) == {a.tag, b.tag} \in {{"MAP", "EXE"}, {"MAP", "MARKOV"}, {"MAP", "VOMMNODE"}, {"EXEMAP", "MARKOV"}, {"EXEMAP", "VOMMNODE"}, {"MARKOV", "VOMMNODE"}}
Order2 == \A i \in 2..(Len(f) - 1) : (R.res = "loaded" /\ Indep(Rec(f[i]), Rec(f[i + 1]))) =>
  Read(Recs([j \in DOMAIN f |-> IF j = i THEN f[i + 1] ELSE IF j = i + 1 THEN f[i] ELSE f[j]])) = R
\* what was loaded is consistent, and stays so
\* what is loaded is what the records say, told record by record
Of(tag) == {i \in 2..Len(f) : Rec(f[i]).tag = tag}
Told == R.res = "loaded" =>
  /\ R.c.time = Rec(f[1]).time
  /\ DOMAIN R.c.exes = {Rec(f[i]).p : i \in Of("EXE")}
  /\ \A i \in Of("EXE") :
       LET r == Rec(f[i])  x == R.c.exes[r.p] IN
       /\ x.time = r.time /\ x.upd = r.upd
       /\ \A j \in Of("MAP") : (IF Rec(f[j]).key \in DOMAIN x.maps THEN x.maps[Rec(f[j]).key] ELSE 0)
                               = Cardinality({k \in Of("EXEMAP") : Rec(f[k]).exe = r.id /\ Rec(f[k]).map = Rec(f[j]).id})
  /\ DOMAIN R.c.chains = {<<Rec(f[CHOOSE j \in Of("EXE") : Rec(f[j]).id = Rec(f[i]).a]).p, Rec(f[CHOOSE j \in Of("EXE") : Rec(f[j]).id = Rec(f[i]).b]).p>> : i \in Of("MARKOV")}
  /\ Cardinality(DOMAIN R.c.chains) = Cardinality(Of("MARKOV"))
  \* every node of the tree is some record's, and of those that would be the same only the first counts
  /\ Cardinality(DOMAIN R.c.nodes) <= Cardinality(Of("VOMMNODE"))
  /\ \A k \in DOMAIN R.c.nodes :
       LET is == {i \in Of("VOMMNODE") : \E j \in Of("EXE") : j < i /\ Rec(f[j]).id = Rec(f[i]).exe /\ Rec(f[j]).p = k[Len(k)] /\ (Len(k) = 1) = (Rec(f[i]).parent = "0")}
           i0 == CHOOSE i \in is : \A j \in is : i <= j
       IN /\ is # {} /\ R.c.nodes[k] \in {Rec(f[i]).n : i \in is}
          /\ (Len(k) = 1 /\ Rec(f[i0]).id # "0" /\ \A j \in Of("VOMMNODE") : j < i0 => Rec(f[j]).id # Rec(f[i0]).id) => R.c.nodes[k] = Rec(f[i0]).n
AtMostOnce(mm) == /\ \A c \in DOMAIN mm.chains : c[1] \in Paths(mm) /\ c[2] \in Paths(mm) /\ c[1] # c[2]
                  /\ \A a, b \in Paths(mm) : a # b => Cardinality({<<a, b>>, <<b, a>>} \intersect DOMAIN mm.chains) <= 1
Pr(p, i) == [pid |-> 10 + i, unr |-> FALSE, x |-> p, n |-> 6, dying |-> FALSE, maps |-> << [x |-> p, n |-> 6, len |-> 3, ol |-> "0,3"] >>]
Fine(mm) == AtMostOnce(mm) /\ TreeInv(mm) /\ RefsInv(mm)
ConfOf(v) == [Defaults EXCEPT !.cycle = 4, !.minsize = 1, !.algo = v]
Lives == R.res = "loaded" =>
  \A v \in {"VOMM", "MARKOV"}, S \in { <<>>, <<Pr("/bin/a", 0)>>, <<Pr("/bin/a", 0), Pr("/bin/c", 1)>> } :
    LET c  == ConfOf(v)  vo == Vomm(c)
        m0 == StartAlgorithm(Startup(R.c, c, vo, S), vo)
        m1 == [Scan(m0, c, vo, S) EXCEPT !.time = @ + 2]
        m2 == Update(m1, vo, SetToSeq(DOMAIN m1.new), [p \in DOMAIN m1.new |-> Digest(c, S, CHOOSE q \in m1.new[p] : TRUE, KeyOf, 1)])
        m3 == [Scan(m2, c, vo, <<>>) EXCEPT !.time = @ + 2]
        m4 == Update(m3, vo, <<>>, EmptyF)
        m5 == Cleanup(m4, [p \in {"/bin/b"} |-> [k |-> "r"]])
    IN /\ \A x \in {m0, m2, m4, m5} : Fine(x)
       /\ m0.time = R.c.time /\ Paths(m0) = DOMAIN R.c.exes
       /\ Paths(m5) = Paths(m4) \ {"/bin/a", "/bin/c"}
       /\ \A sc \in {Scores(m2, c, vo), Scores(m4, c, vo)} : \A p \in DOMAIN sc : 0 <= sc[p][1] /\ sc[p][1] <= sc[p][2] /\ sc[p][2] <= M
       /\ Read(Written(Content(m5))).c = Content(m5)
=============================================================================
