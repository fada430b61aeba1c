------------------------------ MODULE MC_Budget ------------------------------
(* The memory budget for many memory situations and configured percentages. *)
EXTENDS Predict, Json
CONSTANTS Big, Show
Or(a, b) == IF Big THEN b ELSE a
Totals == Or({0, 1099, 50000}, {0, 99, 1099, 50000, 7999999})
Frees == Or({0, 150, 20001}, {0, 1, 150, 20001, 3000000})
Avails == {-1, 0, 777, 30000}
Cacheds == Or({0, 350, 10000}, {0, 350, 9999, 1000000})
Bufs == {0, 99, 5000}
PT == Or({-101, -10, 0, 50}, {-101, -100, -10, 0, 1, 50, 300})
PF == {0, 50, 200, -30}
PC == {0, 30, -100}
PB == Or({0, 50}, {0, 50, -50})
VARIABLE x
Init == x \in [total : Totals, free : Frees, avail : Avails, cached : Cacheds, buffers : Bufs, memtotal : PT, memfree : PF, memcached : PC, membuffers : PB]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
B(y) == Budget(y, y)
Printed == Show => PrintT(<<"PATH", ToJson(<<x.total, x.free, x.avail, x.cached, x.buffers, x.memtotal, x.memfree, x.memcached, x.membuffers, B(x)>>)>>)

\* the words: percentages of the figures, a negative first part counting as zero; each figure is cut to hundreds
\* a percentage out of range counts as the nearest in range
ASSUME \A v \in PT \union PF \union PC \union PB \union {-101, 101, 100, -100} : Clamp(v) \in -100..100 /\ \A z \in -100..100 : Abs(v - Clamp(v)) <= Abs(v - z)
Pct(v, f) == Clamp(v) * f
Ideal100 == LET first == Pct(x.memtotal, x.total) + Pct(x.memfree, Available(x)) IN Max2(0, first) + Pct(x.memcached, x.cached) + Pct(x.membuffers, x.buffers)
AsTold == Abs((100 * B(x)) - Ideal100) <= 100 * 400
\* more memory never means less, where its share is not negative
More == \A d \in {1, 100, 5000} :
  /\ x.memtotal >= 0 => B([x EXCEPT !.total = @ + d]) >= B(x)
  /\ (x.memfree >= 0 /\ x.avail >= 0) => B([x EXCEPT !.avail = @ + d]) >= B(x)
  /\ (x.memfree >= 0 /\ x.free > 0) => B([x EXCEPT !.free = @ + d]) >= B(x)
  /\ x.membuffers >= 0 /\ x.memfree >= 0 => B([x EXCEPT !.buffers = @ + d]) >= B(x)
  /\ x.memcached >= 0 /\ x.memfree >= 0 => B([x EXCEPT !.cached = @ + d]) >= B(x)
Clamped == B([x EXCEPT !.memtotal = Clamp(@), !.memfree = Clamp(@), !.memcached = Clamp(@), !.membuffers = Clamp(@)]) = B(x)
\* what the kernel reports as available is what counts; the estimate only where it reports nothing
Reported == x.avail >= 0 => \A f \in Frees : B([x EXCEPT !.free = f]) = B(x)
Estimate == x.avail < 0 => /\ Available(x) >= x.free
                           /\ Available(x) <= x.free + x.cached + x.buffers
                           /\ x.free = 0 => Available(x) = 0
NoPart == (x.memcached = 0 /\ x.membuffers = 0) => B(x) >= 0
=============================================================================
