---------------------------------- MODULE Raw ----------------------------------
(* Objects made, copied, moved and destroyed in raw memory (A04).  A place has  *)
(* nothing (0), an object with a value, or one that has been moved from (-1).   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Vals

VARIABLES st, ret
vars == <<st>>
Default == 7
Init == st = [i \in 1..N |-> 0] /\ ret = <<"", <<>>>>
In(o, n) == o >= 0 /\ n >= 0 /\ o + n <= N
Apart(a, b, n) == a + n <= b \/ b + n <= a
Places(o, n) == (o + 1)..(o + n)
None(o, n) == In(o, n) /\ \A i \in Places(o, n) : st[i] = 0
Live(o, n) == In(o, n) /\ \A i \in Places(o, n) : st[i] # 0
Alive(m) == Cardinality({i \in 1..N : m[i] # 0})
\* the call ends at place e; that many objects are alive, and none was used that was not
To(m, e) == st' = m /\ ret' = <<"", <<e, Alive(m), 0>>>>
From(s, n, d) == [i \in 1..N |-> IF i \in Places(d, n) THEN st[(s + i) - d] ELSE st[i]]
Same(o, n, v) == [i \in 1..N |-> IF i \in Places(o, n) THEN v ELSE st[i]]
Do(op, a) ==
  CASE op = "set" -> Len(a[1]) = N /\ (\A i \in 1..N : a[1][i] \in {0} \cup (1..1000)) /\ To(a[1], 0)
    [] op \in {"ucopy", "ucopyn"} -> Live(a[1], a[2]) /\ None(a[3], a[2]) /\ To(From(a[1], a[2], a[3]), a[3] + a[2])
    [] op \in {"umove", "umoven"} -> Live(a[1], a[2]) /\ None(a[3], a[2]) /\
         To([i \in 1..N |-> IF i \in Places(a[1], a[2]) THEN -1 ELSE IF i \in Places(a[3], a[2]) THEN st[(a[1] + i) - a[3]] ELSE st[i]], a[3] + a[2])
    [] op \in {"ufill", "ufilln"} -> None(a[1], a[2]) /\ a[3] \in 1..1000 /\ To(Same(a[1], a[2], a[3]), a[1] + a[2])
    [] op = "make" -> None(a[1], a[2]) /\ To(Same(a[1], a[2], Default), a[1] + a[2])
    [] op = "destroy" -> Live(a[1], a[2]) /\ To(Same(a[1], a[2], 0), a[1] + a[2])
    [] op \in {"copy", "copyn"} -> Live(a[1], a[2]) /\ Live(a[3], a[2]) /\ (a[3] <= a[1] \/ Apart(a[1], a[3], a[2])) /\ To(From(a[1], a[2], a[3]), a[3] + a[2])
    [] op = "copyback" -> Live(a[1], a[2]) /\ Live(a[3], a[2]) /\ (a[3] >= a[1] \/ Apart(a[1], a[3], a[2])) /\ To(From(a[1], a[2], a[3]), a[3])
    [] op \in {"fill", "filln"} -> Live(a[1], a[2]) /\ a[3] \in 1..1000 /\ To(Same(a[1], a[2], a[3]), a[1] + a[2])
    [] op = "swaps" -> Live(a[1], a[2]) /\ Live(a[3], a[2]) /\ Apart(a[1], a[3], a[2]) /\
         To([i \in 1..N |-> IF i \in Places(a[1], a[2]) THEN st[(a[3] + i) - a[1]] ELSE IF i \in Places(a[3], a[2]) THEN st[(a[1] + i) - a[3]] ELSE st[i]], a[3] + a[2])
    [] op = "rotate" -> LET x == a[1]  n == a[2]  m == a[3] IN n >= 0 /\ m >= 0 /\ Live(x, n + m) /\
         To([i \in 1..N |-> IF i \notin Places(x, n + m) THEN st[i] ELSE IF i + n <= x + n + m THEN st[i + n] ELSE st[i - m]], 0)
    [] op = "fin" -> To([i \in 1..N |-> 0], 0)
    [] OTHER -> FALSE
Observe(s) == s = st'
R == IF Vals = {} THEN {} ELSE 0..N
Calls == {<<"set", <<[i \in 1..N |-> IF i <= n THEN i + 1 ELSE 0]>>>> : n \in 0..N}
         \cup {<<o, <<s, n, d>>>> : o \in {"ucopy", "ucopyn", "umove", "umoven", "copy", "copyn", "copyback", "swaps"}, s \in R, n \in R, d \in R}
         \cup {<<o, <<d, n, v>>>> : o \in {"ufill", "ufilln", "fill", "filln"}, d \in R, n \in R, v \in Vals}
         \cup {<<"make", <<d, n, v>>>> : d \in R, n \in R, v \in 0..4} \cup {<<"destroy", <<d, n, v>>>> : d \in R, n \in R, v \in 0..3}
         \cup {<<"rotate", <<x, n, m>>>> : x \in R, n \in R, m \in R}
Counted == ret[2] = <<>> \/ ret[2][2] = Alive(st)
================================================================================
