----------------------------- MODULE MC_Cmdline -----------------------------
(* Every short command line over a few words, and the laws of reading it.    *)
EXTENDS Cmdline, TLC, Json
CONSTANTS Words, MaxLen, Show
VARIABLE av
Init == av = <<>>
Next == Len(av) < MaxLen /\ \E w \in Words : av' = Append(av, w)
Spec == Init /\ [][Next]_av
Printed == Show => PrintT(<<"PATH", ToJson(av)>>)
R == Asked(av)
Same(a, b) == [f \in DOMAIN a \ {"why"} |-> a[f]] = [f \in DOMAIN b \ {"why"} |-> b[f]]
\* the list is complete and nothing ended it
Open == R.st = "run" /\ \A i \in DOMAIN av : av[i] # "--"
\* the last one decides, and an option changes only what it is for
Last == Open =>
  /\ Same(Asked(av \o <<"-c", "Z">>), [R EXCEPT !.conf = "Z"])
  /\ Same(Asked(av \o <<"--statefile=Z">>), [R EXCEPT !.state = "Z"])
  /\ Same(Asked(av \o <<"--log", "Z">>), [R EXCEPT !.log = "Z"])
  /\ Same(Asked(av \o <<"-n-3">>), [R EXCEPT !.nice = -3])
  /\ Same(Asked(av \o <<"--verb=2">>), [R EXCEPT !.verb = 2])
  /\ Same(Asked(av \o <<"-f">>), [R EXCEPT !.fg = TRUE])
  /\ Same(Asked(av \o <<"--debug">>), Asked(av \o <<"-l", "", "-fV9">>))
\* nobody asked: the default
Untouched == R.st = "run" =>
  /\ (R.conf # Default.conf => \E i \in DOMAIN av : IndexOf(av[i], "c") > 0)
  /\ (R.state # Default.state => \E i \in DOMAIN av : IndexOf(av[i], "s") > 0)
  /\ (R.log # Default.log => \E i \in DOMAIN av : IndexOf(av[i], "l") > 0 \/ IndexOf(av[i], "d") > 0)
  /\ (R.nice # 15 => \E i \in DOMAIN av : IndexOf(av[i], "n") > 0)
  /\ (R.verb # 4 => \E i \in DOMAIN av : IndexOf(av[i], "V") > 0 \/ IndexOf(av[i], "verb") > 0 \/ IndexOf(av[i], "d") > 0)
\* help, version and mistakes are final, except that a missing argument may follow
Final == \A w \in {"-f", "--help", "--foreground", "--statefile=Z", "x", "--"} : (R.st # "run" /\ R.why # "missing") => Asked(Append(av, w)) = R
\* what is no option does not matter, in front, or at the end
Extra == /\ Asked(<<"x">> \o av) = R
         /\ (R.why # "missing" => Asked(Append(av, "x")) = R)
         /\ Asked(<<"--">> \o av) = Default
\* the ways of writing an option are the same
Forms == Open =>
  /\ \A f \in {<<"-cZ">>, <<"-c", "Z">>, <<"--conffile", "Z">>, <<"--conffile=Z">>, <<"--c=Z">>} : Asked(av \o f) = Asked(av \o <<"--conf", "Z">>)
  /\ Asked(av \o <<"-fdcZ">>) = Asked(av \o <<"-f", "-d", "-c", "Z">>)
  /\ Asked(av \o <<"--ver=3">>).st = "usage" /\ Asked(av \o <<"--ver">>).st = "usage" /\ Asked(av \o <<"--vers">>).st = "version" /\ Asked(av \o <<"--verb=3">>).st = "run"
\* debugging messages are shown only if all the others are
Levels == \A v \in 0..10 : \A k \in 0..4 : Visible(v, k + 1) => Visible(v, k)
=============================================================================
