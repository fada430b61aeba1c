------------------------------- MODULE Cmdline -------------------------------
(* The command line: what a list of arguments asks for.  Options may stand  *)
(* anywhere, in a short form (joined, or in a cluster) or a long one (which  *)
(* may be cut short as long as it is clear which is meant), up to "--".      *)
EXTENDS Integers, Sequences, FiniteSets, Strs

Opt == [ help |-> "h", version |-> "v", conffile |-> "c", statefile |-> "s", logfile |-> "l",
         foreground |-> "f", nice |-> "n", verbose |-> "V", debug |-> "d" ]
Longs == DOMAIN Opt
TakesArg == {"c", "s", "l", "n", "V"}
Shorts == {Opt[x] : x \in Longs} \union {"H"}          \* H: help, for the manual page

Default == [ conf |-> "dflt/etc/preload.conf", state |-> "dflt/lib/preload.state", log |-> "dflt/log/preload.log",
             fg |-> FALSE, nice |-> 15, verb |-> 4, st |-> "run", why |-> "" ]

Digits == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] x = "5" -> 5
               [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] OTHER -> 9]
RECURSIVE Nat_(_, _)
Nat_(s, a) == IF s = "" \/ SubSeq(s, 1, 1) \notin DOMAIN Digits THEN a ELSE Nat_(SubSeq(s, 2, Len(s)), 10 * a + Digits[SubSeq(s, 1, 1)])
\* the number a text begins with, 0 if it begins with none
Num(s) == IF StartsWith(s, "-") THEN 0 - Nat_(SubSeq(s, 2, Len(s)), 0) ELSE Nat_(s, 0)

\* the effect of one option (x: its letter, a: its argument)
Do(r, x, a) ==
  CASE x = "c" -> [r EXCEPT !.conf = a]
    [] x = "s" -> [r EXCEPT !.state = a]
    [] x = "l" -> [r EXCEPT !.log = a]
    [] x = "f" -> [r EXCEPT !.fg = TRUE]
    [] x = "n" -> [r EXCEPT !.nice = Num(a)]
    [] x = "V" -> [r EXCEPT !.verb = Num(a)]
    [] x = "d" -> [r EXCEPT !.log = "", !.fg = TRUE, !.verb = 9]
    [] x = "v" -> [r EXCEPT !.st = "version"]
    [] OTHER   -> [r EXCEPT !.st = "help"]
Bad(r, why) == [r EXCEPT !.st = "usage", !.why = why]

\* the long options a name may stand for
Meant(n) == IF n \in Longs THEN {n} ELSE {x \in Longs : StartsWith(x, n)}

RECURSIVE Parse(_, _), Cluster(_, _, _)
Parse(r, av) ==
  IF r.st # "run" \/ av = <<>> \/ Head(av) = "--" THEN r
  ELSE LET a == Head(av) rest == Tail(av) IN
  IF ~StartsWith(a, "-") \/ a = "-" THEN Parse(r, rest)             \* not an option: ignored
  ELSE IF StartsWith(a, "--") THEN
    LET eq == IndexOf(a, "=")
        n  == IF eq = 0 THEN SubSeq(a, 3, Len(a)) ELSE SubSeq(a, 3, eq - 1)
        M  == Meant(n) IN
    IF Cardinality(M) # 1 THEN Bad(r, "unknown")
    ELSE LET x == Opt[CHOOSE m \in M : TRUE] IN
         IF x \notin TakesArg THEN IF eq # 0 THEN Bad(r, "excess") ELSE Parse(Do(r, x, ""), rest)
         ELSE IF eq # 0 THEN Parse(Do(r, x, SubSeq(a, eq + 1, Len(a))), rest)
         ELSE IF rest = <<>> THEN Bad(r, "missing") ELSE Parse(Do(r, x, Head(rest)), Tail(rest))
  ELSE Cluster(r, SubSeq(a, 2, Len(a)), rest)
Cluster(r, c, rest) ==
  IF r.st # "run" THEN r
  ELSE IF c = "" THEN Parse(r, rest)
  ELSE LET x == SubSeq(c, 1, 1) more == SubSeq(c, 2, Len(c)) IN
       IF x \notin Shorts THEN Bad(r, "unknown")
       ELSE IF x \notin TakesArg THEN Cluster(Do(r, x, ""), more, rest)
       ELSE IF more # "" THEN Parse(Do(r, x, more), rest)
       ELSE IF rest = <<>> THEN Bad(r, "missing") ELSE Parse(Do(r, x, Head(rest)), Tail(rest))
Asked(av) == Parse(Default, av)

(* What a start with these arguments comes to.  fs says what is behind each  *)
(* name: a configuration file ("ok" with a cycle before and after a reload,  *)
(* "bad", "none"), a state file (its time, -1: none, -2: damaged), a log     *)
(* file (TRUE: can be written).  nofork: no process can be started.          *)
Visible(v, k) == k <= v                    \* k: 0 errors, 1 critical, 2 warnings, 3 messages, 4 information, 5 debugging
StateOf(r, fs) == IF r.state # "" /\ r.state \in DOMAIN fs.state THEN fs.state[r.state] ELSE -1
Started(av, fs, nofork) ==
  LET r == Asked(av)
      none == [st |-> r.st, rc |-> 0, out |-> "", err |-> "", detached |-> FALSE, nice |-> <<>>, cycle |-> <<>>, time |-> <<>>, saved |-> "", log |-> "", shown |-> {}] IN
  CASE r.st = "version" -> [none EXCEPT !.out = "version"]
    [] r.st = "help"    -> [none EXCEPT !.out = "usage"]
    [] r.st = "usage"   -> [none EXCEPT !.rc = 1, !.err = "usage"]
    [] OTHER ->
       IF r.log # "" /\ r.log \in DOMAIN fs.log /\ ~fs.log[r.log] THEN [none EXCEPT !.st = "fail", !.rc = 1]
       ELSE IF r.conf # "" /\ (r.conf \notin DOMAIN fs.conf \/ fs.conf[r.conf].st # "ok") THEN [none EXCEPT !.st = "fail", !.rc = 1, !.log = r.log]
       ELSE IF ~r.fg /\ nofork THEN [none EXCEPT !.st = "fail", !.rc = 1, !.log = r.log]
       ELSE IF StateOf(r, fs) = -2 THEN [none EXCEPT !.st = "fail", !.rc = IF r.fg THEN 1 ELSE 0, !.log = r.log, !.detached = ~r.fg, !.nice = <<r.nice>>]
       ELSE [none EXCEPT !.detached = ~r.fg, !.nice = <<r.nice>>,
                         !.cycle = IF r.conf = "" THEN <<20, 20>> ELSE fs.conf[r.conf].cycle,
                         !.time = <<IF StateOf(r, fs) = -1 THEN 0 ELSE StateOf(r, fs)>>,
                         !.saved = r.state, !.log = r.log, !.shown = {k \in 1..5 : Visible(r.verb, k)}]
=============================================================================
