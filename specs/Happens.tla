-------------------------------- MODULE Happens --------------------------------
(* What of the memory accesses of threads happens before what, in the language  *)
(* of the C++ memory model: a clock for each thread, counting its releases, and *)
(* what it knows of the others'; for each location, who accessed it when, and   *)
(* the clock an acquiring load of it gets.  Two accesses, one of them a write   *)
(* and not both atomic, of which neither happens before the other, are a race.  *)
(* Accesses are in the order in which they took place.                          *)
EXTENDS Integers, Sequences
LOCAL Max(x, y) == IF x >= y THEN x ELSE y
LOCAL Join(c, d) == [u \in 1..Len(c) |-> Max(c[u], d[u])]
LOCAL Below(c, d) == \A u \in 1..Len(c) : c[u] <= d[u]
None(n) == [u \in 1..n |-> 0]
\* clocks; what an acquire fence would get; what release fences gave; locations: <<writes, reads, atomic writes, atomic reads, to get>>
Unknown(n) == <<None(n), None(n), None(n), None(n), None(n)>>
Together(n) == <<[t \in 1..n |-> [u \in 1..n |-> IF u = t THEN 1 ELSE 0]], [t \in 1..n |-> None(n)], [t \in 1..n |-> None(n)], <<>>>>
Acquires(mo) == mo \in {1, 2, 4, 5}
Releases(mo) == mo \in {3, 4, 5}
Race == <<>>
Info(h, l) == IF l <= Len(h[4]) THEN h[4][l] ELSE Unknown(Len(h[1]))
LOCAL Put(h, l, i) == [h EXCEPT ![4] = [x \in 1..Max(l, Len(h[4])) |-> IF x = l THEN i ELSE Info(h, x)]]
\* one access of t: kind 0 read, 1 write, 2 atomic load, 3 atomic store, 4 both at once, 5 fence, 6 end of the memory, 7 its beginning
One(h, t, kind, l, mo) ==
  LET c == h[1][t]  i == Info(h, l)
      After(k) == Below(i[k], c)
      Mark(k) == [i EXCEPT ![k][t] = c[t]]
      get == IF kind \in {2, 4} THEN i[5] ELSE None(Len(c))
      c2 == IF Acquires(mo) THEN Join(c, get) ELSE c
      told == Join(h[3][t], IF Releases(mo) THEN c2 ELSE None(Len(c)))
      to == IF kind = 3 THEN told ELSE IF kind = 4 THEN Join(i[5], told) ELSE i[5]
      \* releases are told apart by the thread's clock
      c3 == IF kind \in {3, 4} /\ Releases(mo) THEN [c2 EXCEPT ![t] = @ + 1] ELSE c2
  IN
  CASE kind = 0 -> IF After(1) /\ After(3) THEN Put(h, l, Mark(2)) ELSE Race
    [] kind \in {1, 6} -> IF After(1) /\ After(2) /\ After(3) /\ After(4) THEN Put(h, l, Mark(1)) ELSE Race
    [] kind = 7 -> Put(h, l, [Unknown(Len(c)) EXCEPT ![1][t] = c[t]])
    [] kind \in {2, 3, 4} ->
         IF ~After(1) \/ (kind # 2 /\ ~After(2)) THEN Race
         ELSE [Put(h, l, [Mark(IF kind = 2 THEN 4 ELSE 3) EXCEPT ![5] = to]) EXCEPT ![1][t] = c3, ![2][t] = Join(@, get)]
    [] kind = 5 -> LET a == IF Acquires(mo) THEN Join(c, h[2][t]) ELSE c IN
                   IF Releases(mo) THEN [h EXCEPT ![1][t] = [a EXCEPT ![t] = @ + 1], ![3][t] = Join(@, a)] ELSE [h EXCEPT ![1][t] = a]
    [] OTHER -> Race
\* of n locations from l on; an atomic access is marked at the first
RECURSIVE Each(_, _, _, _, _, _)
Each(h, t, kind, l, n, mo) == IF h = Race \/ n = 0 THEN h ELSE Each(One(h, t, kind, l, mo), t, kind, l + 1, n - 1, mo)
RECURSIVE Follow(_, _, _, _)
\* the accesses <<kind, location, how many, order>> written after one another in s, from the i-th on
Follow(h, t, s, i) ==
  IF h = Race \/ i > Len(s) \div 4 THEN h
  ELSE Follow(Each(h, t, s[(4 * i) - 3], s[(4 * i) - 2], s[(4 * i) - 1], s[4 * i]), t, s, i + 1)
================================================================================
