---------------------------------- MODULE Share ----------------------------------
(* Shared pointers of threads to the same objects (P02).  A pointer is its        *)
(* thread's own; what threads share are the objects and the counts of their       *)
(* owners.  An operation gains and loses owners one at a time, and others may     *)
(* come between.  Who takes the last one destroys the object, before its          *)
(* operation is over.  As in Atom, all configurations that explain what was seen  *)
(* are kept, and the memory accesses must not race.                               *)
EXTENDS Integers, Sequences, FiniteSets, Happens
CONSTANT Len3                   \* operations a thread of the model has
VARIABLES st, ret
NThr == 3
NReg == 3
NObj == 8
\* st: <<programs, next operation of each thread, their pointers, configurations, accesses>>
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Init == st = <<<<>>, <<>>, <<>>, {}, <<>>>> /\ ret = <<"", <<>>>>
Instr(p, t, n) == SubSeq(p[t], (3 * n) - 2, 3 * n)
Size(p, t) == Len(p[t]) \div 3
\* steps: <<1, o>> one owner more, <<2, o>> one less, <<3, o>> how many are there, <<4, o>> is there one
Some(s) == SelectSeq(s, LAMBDA e : e[2] # 0)
Ways(r, i) ==
  LET old == r[i[2]]  from == IF i[1] = 4 THEN 0 ELSE r[i[3]] IN
  CASE i[1] = 1 -> {Some(<<<<1, from>>, <<2, old>>>>)} \cup (IF from = old THEN {<<>>} ELSE {})
    [] i[1] = 2 -> IF i[2] = i[3] THEN {<<>>} ELSE {Some(<<<<2, old>>>>)}
    [] i[1] \in {3, 4} -> {Some(<<<<2, old>>>>)}
    [] i[1] = 6 -> {<<<<3, old>>>>}
    [] i[1] = 7 -> {<<<<4, old>>>>}
    [] i[1] = 9 -> {Some(<<<<1, from>>, <<2, from>>>>)}
    [] OTHER -> {<<>>}
\* pointers after the operation
After(r, i) ==
  CASE i[1] = 1 -> [r EXCEPT ![i[2]] = r[i[3]]]
    [] i[1] = 2 -> IF i[2] = i[3] THEN r ELSE [r EXCEPT ![i[2]] = r[i[3]], ![i[3]] = 0]
    [] i[1] = 3 -> [r EXCEPT ![i[2]] = 0]
    [] i[1] = 4 -> [r EXCEPT ![i[2]] = i[3]]
    [] i[1] = 5 -> [r EXCEPT ![i[2]] = r[i[3]], ![i[3]] = r[i[2]]]
    [] OTHER -> r
\* a configuration: <<owners of each object, steps left of each thread, what it read, what it has to destroy>>
Load(p, c, t, n, r) ==
  IF n > Size(p, t) THEN {[c EXCEPT ![2][t] = <<>>]}
  ELSE LET i == Instr(p, t, n) IN
       {[c EXCEPT ![1] = [o \in 1..NObj |-> IF i[1] = 4 /\ o = i[3] THEN 1 ELSE c[1][o]], ![2][t] = w,
                  ![3][t] = IF i[1] = 8 THEN 7 * r[i[2]] ELSE IF i[1] = 9 THEN 7 * r[i[3]] ELSE 0] : w \in Ways(r, i)}
\* one step of t
Step(c, t) ==
  IF c[2][t] = <<>> \/ c[4][t] # 0 THEN c
  ELSE LET e == Head(c[2][t])  o == e[2]  d == [c EXCEPT ![2][t] = Tail(@)] IN
       CASE e[1] = 1 -> [d EXCEPT ![1][o] = @ + 1]
         [] e[1] = 2 -> [d EXCEPT ![1][o] = @ - 1, ![4][t] = IF c[1][o] = 1 THEN o ELSE 0]
         [] e[1] = 3 -> [d EXCEPT ![3][t] = IF o = 0 THEN 0 ELSE c[1][o]]
         [] OTHER -> [d EXCEPT ![3][t] = IF o = 0 THEN 0 ELSE B(c[1][o] = 1)]
RECURSIVE Closure(_, _)
Closure(C, t) == LET D == C \cup {Step(c, t) : c \in C} IN IF D = C THEN C ELSE Closure(D, t)
RECURSIVE Seen(_, _, _, _, _, _)
\* from operation n on, with pointers r: <<<<1, result>> operation over, <<2, o>> destroyed>>; gives <<n, r, configurations>>
Seen(p, C, t, n, r, e) ==
  IF e = <<>> THEN <<n, r, C>>
  ELSE IF e[1] = 2 THEN Seen(p, {[c EXCEPT ![4][t] = 0] : c \in {d \in Closure(C, t) : d[4][t] = e[2]}}, t, n, r, SubSeq(e, 3, Len(e)))
  ELSE IF n > Size(p, t) THEN <<n, r, {}>>
  ELSE LET q == After(r, Instr(p, t, n))
           D == {d \in Closure(C, t) : d[2][t] = <<>> /\ d[4][t] = 0 /\ d[3][t] = e[2]}
       IN Seen(p, UNION {Load(p, c, t, n + 1, q) : c \in D}, t, n + 1, q, SubSeq(e, 3, Len(e)))
Start == [t \in 1..NThr |-> <<1, 2, 0>>]
None0 == [t \in 1..NThr |-> 0]
RECURSIVE Loaded(_, _, _)
Loaded(p, C, t) == IF t > NThr THEN C ELSE Loaded(p, UNION {Load(p, c, t, 1, Start[t]) : c \in C}, t + 1)
RECURSIVE Drops(_, _, _)
\* what is destroyed when all pointers go, in order
Drops(r, k, n) == IF k > Len(r) THEN <<>> ELSE (IF r[k] # 0 /\ ~\E j \in (k + 1)..Len(r) : r[j] = r[k] THEN <<r[k]>> ELSE <<>>) \o Drops(r, k + 1, n)
All(r) == [k \in 1..(NThr * NReg) |-> r[((k - 1) \div NReg) + 1][((k - 1) % NReg) + 1]]

Do(op, a) ==
  CASE op = "begin" ->
         /\ st[1] = <<>> /\ ret' = <<"", <<>>>>
         /\ st' = <<<<a[1], a[2], a[3]>>, <<1, 1, 1>>, Start,
                    Loaded(<<a[1], a[2], a[3]>>, {<<[o \in 1..NObj |-> IF o < 3 THEN 3 ELSE 0], [t \in 1..NThr |-> <<>>], None0, None0>>}, 1), Together(NThr)>>
    \* t runs, for a time or to the end of an operation; whether it is inside one then, what was seen, the accesses
    [] op \in {"go", "one"} ->
         st[1] # <<>> /\
         LET t == a[1]  x == Seen(st[1], st[4], t, st[2][t], st[3][t], a[4])
             D == IF a[3] = 1 THEN Closure(x[3], t) ELSE x[3]
             h == Follow(st[5], t, a[5], 1)
         IN D # {} /\ h # Race /\ (op = "one" => x[1] = st[2][t] + 1) /\ x[1] + a[3] <= Size(st[1], t) + 1 /\ ret' = <<"", <<>>>> /\
            st' = <<st[1], [st[2] EXCEPT ![t] = x[1]], [st[3] EXCEPT ![t] = x[2]], D, h>>
    [] op = "fin" -> UNCHANGED st /\ ret' \in {<<"", <<-1>>>>} \cup (IF st[1] = <<>> THEN {<<"", <<0>>>>} ELSE {<<"", Drops(All(st[3]), 1, 0) \o <<0>>>>})
    [] OTHER -> FALSE
Observe(s) == s = <<>> \/ \E c \in st'[4] : s = [k \in 1..(2 * NThr * NReg) |-> LET o == All(st'[3])[(k + 1) \div 2] IN IF k % 2 = 1 THEN o ELSE IF o = 0 THEN 0 ELSE c[1][o]]

\* in the model threads run operation by operation, and all that can be seen is tried
Line(t, k) == CASE k = 1 -> <<1, 3, 1>> [] k = 2 -> <<1, 2, 1>> [] k = 3 -> <<2, 1, 2>> [] k = 4 -> <<3, 1, 1>> [] k = 5 -> <<3, 2, 1>> [] k = 6 -> <<4, 1, 2 + t>>
                [] k = 7 -> <<5, 1, 3>> [] k = 8 -> <<6, 1, 1>> [] k = 9 -> <<7, 2, 1>> [] OTHER -> <<9, 1, 2>>
RECURSIVE Lines(_, _)
Lines(t, p) == IF p = <<>> THEN <<>> ELSE Line(t, Head(p)) \o Lines(t, Tail(p))
Sets == {<<<<1, 4, 5>>, <<3, 8, 4>>, <<4, 9, 5>>>>, <<<<6, 8, 4>>, <<2, 4, 5>>, <<10, 4, 5>>>>, <<<<7, 2, 4>>, <<4, 5, 8>>, <<3, 4, 9>>>>, <<<<4, 5, 8>>, <<5, 4, 9>>, <<3, 6, 8>>>>}
Kills == {<<>>} \cup {<<2, o>> : o \in 1..NObj}
Calls == IF st[1] = <<>> THEN {<<"begin", <<Lines(1, SubSeq(p[1], 1, Len3)), Lines(2, SubSeq(p[2], 1, Len3)), Lines(3, SubSeq(p[3], 1, Len3))>>>> : p \in Sets}
         ELSE {<<"one", <<t, 0, 0, k \o <<1, v>>, <<>>>>>> : t \in 1..NThr, k \in Kills, v \in 0..14}
Owners(o) == Cardinality({k \in 1..(NThr * NReg) : All(st[3])[k] = o})
\* between operations the counts are those of the owners
Exact == \A c \in st[4] : \A o \in 1..NObj :
           c[1][o] = Owners(o) + Cardinality({t \in 1..NThr : st[2][t] <= Size(st[1], t) /\ LET i == Instr(st[1], t, st[2][t]) IN i[1] = 4 /\ i[3] = o})
Explained == st[1] # <<>> => st[4] # {}
===================================================================================
