---------------------------------- MODULE Atom ----------------------------------
(* Atomic operations of threads (P02).  Each thread carries out a program of     *)
(* operations on shared variables.  While one thread runs it may complete        *)
(* operations and be inside another; each takes effect at one instant between    *)
(* its beginning and its end.  Where an unfinished one may or may not have taken *)
(* effect both are kept: the state has every configuration that explains what    *)
(* was seen, and a step after which there is none is an error.  The memory       *)
(* accesses behind the operations must not race (Happens).                       *)
EXTENDS Integers, Sequences, FiniteSets, Bytes, Happens
CONSTANT W                      \* bytes of a number
VARIABLES st, ret
NThr == 3
\* st: <<programs, next operation of each thread, configurations, accesses>>
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
\* a configuration: <<two numbers, lock, other flag, int, data under the lock, published, which threads hold the lock, what was done of an unfinished operation>>
First == <<<<Zero(W), Zero(W)>>, 0, 0, 0, 0, 0, [t \in 1..NThr |-> 0], [t \in 1..NThr |-> <<>>]>>
Init == st = <<<<>>, <<>>, {}, <<>>>> /\ ret = <<"", <<>>>>
Val(c) == [i \in 1..W |-> IF i = 1 \/ c >= 64 THEN c ELSE 0]
\* bits of an order: 1 acquires, 2 releases, 4 is in the one order of all
Need(o) == CASE o = 0 -> 0 [] o \in {1, 2} -> 1 [] o = 3 -> 2 [] o = 4 -> 3 [] OTHER -> 7
Has(m, n) == m = -1 \/ ((n % 2) <= (m % 2) /\ ((n \div 2) % 2) <= ((m \div 2) % 2) /\ (n \div 4) <= (m \div 4))
WithoutRelease(n) == IF n = 7 THEN 7 ELSE n % 2
Z == Zero(W)
Arith(n, x, v) == CASE n = 0 -> Add(x, v) [] n = 1 -> Sub(x, v) [] n = 2 -> BitAnd(x, v) [] n = 3 -> BitOr(x, v) [] OTHER -> BitXor(x, v)
\* what the operation i of thread t may do to c: <<c', order it must keep to, result>>
Does(c, t, i) ==
  LET op == i[1]  o == i[2] % 10  f == i[2] \div 10  k == i[3]  x == c[1][k]  v == Val(i[4])  e == Val(i[5])
      Set(y) == [c EXCEPT ![1][k] = y]
      Gives(d, ok, r1) == {<<d, Need(o), <<ok>> \o r1 \o Z>>}
      Quietly(d) == {<<d, 7, <<0>> \o Z \o Z>>}
      Cas(weak, fo) == (IF x = e THEN {<<Set(v), Need(o), <<1>> \o Z \o e>>} ELSE {}) \cup (IF x # e \/ weak THEN {<<c, fo, <<0>> \o Z \o x>>} ELSE {})
  IN
  CASE op \in {1, 18} -> IF op = 1 THEN Gives(Set(v), 0, Z) ELSE Quietly(Set(v))
    [] op \in {2, 17} -> IF op = 2 THEN Gives(c, 0, x) ELSE {<<c, 7, <<0>> \o x \o Z>>}
    [] op = 3 -> Gives(Set(v), 0, x)
    [] op = 4 -> Cas(TRUE, WithoutRelease(Need(o)))
    [] op = 5 -> Cas(TRUE, Need(f))
    [] op = 6 -> Cas(FALSE, Need(f))
    [] op \in 7..11 -> Gives(Set(Arith(op - 7, x, v)), 0, x)
    [] op \in 12..16 -> LET y == Arith(op - 12, x, v) IN Gives(Set(y), 0, y)
    [] op \in 19..20 -> {<<Set(Arith(op - 19, x, Small(1, W))), 7, <<0>> \o x \o Z>>}
    [] op \in 21..27 -> LET y == IF op < 23 THEN Arith(op - 21, x, Small(1, W)) ELSE Arith(op - 23, x, v) IN {<<Set(y), 7, <<0>> \o y \o Z>>}
    [] op = 28 -> Gives([c EXCEPT ![2] = 1, ![7][t] = IF c[2] = 0 THEN 1 ELSE @], c[2], Z)
    \* only by who holds the lock
    [] op = 29 -> IF c[7][t] = 1 THEN Gives([c EXCEPT ![2] = 0, ![7][t] = 0], 1, Z) ELSE {<<c, 0, <<0>> \o Z \o Z>>}
    [] op = 30 -> IF c[7][t] = 1 THEN {<<[c EXCEPT ![5] = @ + 1], 0, <<1>> \o Small(c[5], W) \o Z>>} ELSE {<<c, 0, <<0>> \o Z \o Z>>}
    [] op = 31 -> {<<[c EXCEPT ![4] = 1], 7, <<1 - c[4]>> \o Z \o Z>>}
    \* the first time, and by the first thread
    [] op \in {32, 36} -> {<<IF t = 1 THEN [c EXCEPT ![6] = 1] ELSE c, IF op = 32 /\ t = 1 /\ c[6] = 0 THEN Need(o) ELSE 0, <<0>> \o Z \o Z>>}
    [] op \in {33, 37} -> {<<c, IF op = 33 THEN Need(o) ELSE 0, <<c[6]>> \o Small(7 * c[6], W) \o Z>>}
    [] op = 34 -> Gives([c EXCEPT ![3] = 1], c[3], Z)
    [] op = 35 -> Gives([c EXCEPT ![3] = 0], 0, Z)
    [] OTHER -> {}
Instr(t, n) == SubSeq(st[1][t], (5 * n) - 4, 5 * n)
Left(t) == (Len(st[1][t]) \div 5) + 1 - st[2][t]
\* configurations after the n-th operation of t took effect in those of C where it had not, its result noted
Effect(C, t, n) == UNION {IF c[8][t] = <<>> THEN {[d[1] EXCEPT ![8][t] = <<d[2], d[3]>>] : d \in Does(c, t, Instr(t, n))} ELSE {c} : c \in C}
\* those where it ended so
Ended(C, t, n, mo, r) == {[c EXCEPT ![8][t] = <<>>] : c \in {d \in Effect(C, t, n) : d[8][t][2] = r /\ Has(mo, d[8][t][1])}}
Item(e, j) == SubSeq(e, ((j - 1) * (2 + (2 * W))) + 1, j * (2 + (2 * W)))
RECURSIVE Complete(_, _, _, _)
Complete(C, t, e, j) ==
  IF j > Len(e) \div (2 + (2 * W)) THEN C
  ELSE LET i == Item(e, j) IN Complete(Ended(C, t, (st[2][t] + j) - 1, i[1], Tail(i)), t, e, j + 1)

Do(op, a) ==
  CASE op = "begin" -> st[1] = <<>> /\ st' = <<<<a[1], a[2], a[3]>>, <<1, 1, 1>>, {First}, Together(NThr)>> /\ ret' = <<"", <<>>>>
    \* t runs for a time: the operations it completed, whether it is inside one now, the accesses
    [] op = "go" ->
         LET t == a[1]  n == Len(a[4]) \div (2 + (2 * W)) IN
         st[1] # <<>> /\ n + a[3] <= Left(t) /\
         LET C == Complete(st[3], t, a[4], 1)
             D == IF a[3] = 1 THEN C \cup Effect(C, t, st[2][t] + n) ELSE C
             h == Follow(st[4], t, a[5], 1)
         IN D # {} /\ h # Race /\ st' = <<st[1], [st[2] EXCEPT ![t] = @ + n], D, h>> /\ ret' = <<"", <<>>>>
    \* t completes one operation
    [] op = "one" ->
         st[1] # <<>> /\ Left(a[1]) > 0 /\
         LET t == a[1]  h == Follow(st[4], t, a[3], 1)
             R == {d[8][t][2] : d \in {c \in Effect(st[3], t, st[2][t]) : Has(a[2], c[8][t][1])}} IN
         h # Race /\ ret' \in {<<"", r>> : r \in R} /\
         st' = <<st[1], [st[2] EXCEPT ![t] = @ + 1], Ended(st[3], t, st[2][t], a[2], ret'[2]), h>>
    [] op = "fin" -> UNCHANGED st /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
\* between operations everyone sees one of the configurations
Observe(s) == s = <<>> \/ \E c \in st'[3] : (\A t \in 1..NThr : st'[2][t] > Len(st'[1][t]) \div 5 \/ c[8][t] = <<>>) /\ s = <<c[1][1], c[1][2], c[2], c[3], c[4], c[5]>>

\* programs of the model: the operations in turn, threads from different places
Line(k) == CASE k = 1 -> <<7, 6, 1, 3, 0>> [] k = 2 -> <<13, 4, 1, 1, 0>> [] k = 3 -> <<3, 2, 1, 200, 0>> [] k = 4 -> <<6, 5, 1, 5, 0>> [] k = 5 -> <<5, 5, 1, 7, 200>>
             [] k = 6 -> <<1, 3, 1, 129, 0>> [] k = 7 -> <<2, 2, 1, 0, 0>> [] k = 8 -> <<19, 6, 1, 0, 0>> [] k = 9 -> <<22, 6, 1, 0, 0>> [] k = 10 -> <<15, 0, 1, 85, 0>>
             [] k = 11 -> <<11, 1, 1, 255, 0>> [] k = 12 -> <<25, 6, 1, 15, 0>> [] k = 13 -> <<28, 2, 1, 0, 0>> [] k = 14 -> <<30, 0, 1, 0, 0>> [] k = 15 -> <<29, 3, 1, 0, 0>>
             [] k = 16 -> <<31, 0, 1, 0, 0>> [] k = 17 -> <<32, 3, 1, 0, 0>> [] k = 18 -> <<33, 2, 1, 0, 0>> [] k = 19 -> <<34, 6, 1, 0, 0>> [] OTHER -> <<35, 3, 1, 0, 0>>
RECURSIVE Lines(_)
Lines(p) == IF p = <<>> THEN <<>> ELSE Line(Head(p)) \o Lines(Tail(p))
Sets == {<<<<1, 4, 3>>, <<2, 5, 7>>, <<8, 10, 12>>>>, <<<<6, 9, 11>>, <<7, 3, 7>>, <<4, 1, 8>>>>, <<<<13, 14, 15>>, <<13, 14, 15>>, <<13, 14, 15>>>>,
         <<<<17, 16, 19>>, <<18, 16, 20>>, <<18, 19, 16>>>>, <<<<1, 1, 1>>, <<8, 8, 8>>, <<9, 9, 9>>>>, <<<<3, 12>>, <<11, 2>>, <<5, 5, 7>>>>}
ProgSets == {<<Lines(p[1]), Lines(p[2]), Lines(p[3])>> : p \in Sets}
Calls == IF st[1] = <<>> THEN {<<"begin", p>> : p \in ProgSets} ELSE {<<"one", <<t, 7, <<>>>>>> : t \in 1..NThr}
\* at most one holds the lock, and only while it is set
Exclusion == \A c \in st[3] : Cardinality({t \in 1..NThr : c[7][t] = 1}) <= 1 /\ (c[2] = 0 => \A t \in 1..NThr : c[7][t] = 0)
Explained == st[1] # <<>> => st[3] # {}
================================================================================
