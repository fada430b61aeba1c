-------------------------------- MODULE Conf --------------------------------
(* The configuration: documented defaults overlaid with the keys of a file. *)
(* A file is [st, kv]: st "none" (no file configured), "missing",           *)
(* "malformed" or "ok"; kv: the entries in order, each [g, k, ok, v]; ok    *)
(* says whether the text is a value of the key's type.                      *)
EXTENDS Integers, Sequences, Strs, TLC

Defaults ==
  [ cycle |-> 20, usecorrelation |-> 1, minsize |-> 2000000, memtotal |-> -10, memfree |-> 50,
    memcached |-> 0, membuffers |-> 50, doscan |-> 1, dopredict |-> 1, autosave |-> 3600,
    mapprefix |-> <<>>, exeprefix |-> <<>>, algo |-> "VOMM", maxprocs |-> 30, sortstrategy |-> 3 ]

ModelKeys  == {"cycle", "usecorrelation", "minsize", "memtotal", "memfree", "memcached", "membuffers"}
\* key of the file -> field
SystemKeys == [ doscan |-> "doscan", dopredict |-> "dopredict", autosave |-> "autosave",
                mapprefix |-> "mapprefix", exeprefix |-> "exeprefix",
                prediction_algorithm |-> "algo", maxprocs |-> "maxprocs",
                processes |-> "maxprocs", sortstrategy |-> "sortstrategy" ]
Field(e) == IF e.g = "model" /\ e.k \in ModelKeys THEN e.k
            ELSE IF e.g = "system" /\ e.k \in DOMAIN SystemKeys THEN SystemKeys[e.k] ELSE ""

\* the entries that count: "processes" only if there is no "maxprocs"
Counts(kv, e) == Field(e) # "" /\
  ~(e.g = "system" /\ e.k = "processes" /\ \E i \in DOMAIN kv : kv[i].g = "system" /\ kv[i].k = "maxprocs")
\* a later entry for a key replaces an earlier one
LastKey(kv, i) == ~\E j \in (i + 1)..Len(kv) : kv[j].g = kv[i].g /\ kv[j].k = kv[i].k

Valid(file) ==
  \/ file.st = "none"
  \/ file.st = "ok" /\ \A i \in DOMAIN file.kv : (Counts(file.kv, file.kv[i]) /\ LastKey(file.kv, i)) => file.kv[i].ok

RECURSIVE Overlay(_, _)
Overlay(c, kv) == IF kv = <<>> THEN c
                  ELSE LET e == Head(kv) IN
                       Overlay([c EXCEPT ![Field(e)] = e.v], Tail(kv))

Load(file) ==
  IF file.st = "none" THEN Defaults
  ELSE LET keep == SelectSeq([i \in DOMAIN file.kv |-> [e |-> file.kv[i], i |-> i]],
                             LAMBDA x : Counts(file.kv, x.e) /\ LastKey(file.kv, x.i))
       IN Overlay(Defaults, [i \in DOMAIN keep |-> keep[i].e])

\* the configuration in force as it is written out on request: the entries of a
\* file, in order, that would bring it into force
RECURSIVE Strung(_)
Strung(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o ";" \o Strung(Tail(l))
YesNo(v) == IF v = 1 THEN "true" ELSE "false"
Dumped(c) ==
  << <<"model.cycle", ToString(c.cycle)>>, <<"model.usecorrelation", YesNo(c.usecorrelation)>>, <<"model.minsize", ToString(c.minsize)>>,
     <<"model.memtotal", ToString(c.memtotal)>>, <<"model.memfree", ToString(c.memfree)>>, <<"model.memcached", ToString(c.memcached)>>,
     <<"model.membuffers", ToString(c.membuffers)>>,
     <<"system.doscan", YesNo(c.doscan)>>, <<"system.dopredict", YesNo(c.dopredict)>>, <<"system.autosave", ToString(c.autosave)>>,
     <<"system.mapprefix", Strung(c.mapprefix)>>, <<"system.exeprefix", Strung(c.exeprefix)>>, <<"system.prediction_algorithm", c.algo>>,
     <<"system.maxprocs", ToString(c.maxprocs)>>, <<"system.sortstrategy", ToString(c.sortstrategy)>> >>

Vomm(c) == IndexOf(c.algo, "VOMM") > 0
=============================================================================
