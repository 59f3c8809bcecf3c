---------------------------------- MODULE Own ----------------------------------
(* Owning pointers (P01).  Objects each contain a pointer to a next object, so *)
(* pointers are the roots and those in live objects.  An object lives from its *)
(* creation until no pointer refers to it.  Objects have numbers, the least    *)
(* free one is taken.  A pointer is addressed from a root: h is root h, NR + h  *)
(* the pointer in the object of root h, 2 NR + h that in the object behind it.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kind,         \* 0 auto_ptr, 1 unique_ptr, 2 unique_ptr of arrays, 3 shared_ptr
          NR, NObj, Vals

VARIABLES st,           \* <<objects the roots refer to, objects, released object>>; object: <<lives, value, next>>
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Gone == <<0, 0, 0>>
Init == st = <<[h \in 1..NR |-> 0], [x \in 1..NObj |-> Gone], 0>> /\ ret = <<"", <<>>>>

\* the place of the pointer addressed by h in s: <<0, root>> or <<1, object>>; <<>> when there is none
Loc(s, h) ==
  IF h < 1 THEN <<>> ELSE IF h <= NR THEN <<0, h>>
  ELSE IF h <= 2 * NR THEN (IF s[1][h - NR] = 0 THEN <<>> ELSE <<1, s[1][h - NR]>>)
  ELSE IF h > 3 * NR THEN <<>>
  ELSE LET x == s[1][h - (2 * NR)] IN IF x = 0 THEN <<>> ELSE IF s[2][x][3] = 0 THEN <<>> ELSE <<1, s[2][x][3]>>
Get(s, p) == IF p[1] = 0 THEN s[1][p[2]] ELSE s[2][p[2]][3]
Set(s, p, x) == IF p[1] = 0 THEN [s EXCEPT ![1][p[2]] = x] ELSE [s EXCEPT ![2][p[2]][3] = x]
Owners(s, x) == Cardinality({h \in 1..NR : s[1][h] = x}) + Cardinality({y \in 1..NObj : s[2][y][1] = 1 /\ s[2][y][3] = x})
RECURSIVE Chain(_, _, _)
\* the objects from x on
Chain(s, x, n) == IF x = 0 \/ n = 0 THEN {} ELSE {x} \cup Chain(s, s[2][x][3], n - 1)
\* would x in p close a ring?
Ring(s, p, x) == p[1] = 1 /\ p[2] \in Chain(s, x, NObj)
RECURSIVE Drop(_, _, _)
\* x lost an owner: <<what becomes of s, the objects destroyed in order>>
Drop(s, x, dead) ==
  IF x = 0 THEN <<s, dead>> ELSE IF Owners(s, x) > 0 THEN <<s, dead>>
  ELSE Drop([s EXCEPT ![2][x] = Gone], s[2][x][3], Append(dead, x))
\* the pointer p takes x, and what it had is dropped
Taken(s, p, x) == Drop(Set(s, p, x), Get(s, p), <<>>)
Free == {x \in 1..NObj : st[2][x][1] = 0}
Becomes(r) == st' = r[1] /\ ret' = <<"", r[2]>>
RECURSIVE End(_, _, _)
End(s, h, dead) == IF h > NR THEN dead ELSE LET r == Drop([s EXCEPT ![1][h] = 0], s[1][h], dead) IN End(r[1], h + 1, r[2])

Do(op, a) ==
  LET p == Loc(st, a[1])  q == Loc(st, a[2])  x == Get(st, p)  y == Get(st, q) IN
  CASE op = "new" -> p # <<>> /\ Free # {} /\
         LET n == Least(Free) IN Becomes(Taken([st EXCEPT ![2][n] = <<1, a[2], 0>>], p, n))
    [] op = "drop" -> p # <<>> /\ Becomes(Taken(st, p, 0))
    \* assignment or construction from q, which then has nothing; into itself it changes nothing
    [] op \in {"move", "remake"} -> p # <<>> /\ q # <<>> /\ ~Ring(st, p, y) /\ (op = "remake" => p[1] = 0 /\ q[1] = 0 /\ p # q) /\
         (IF p = q THEN UNCHANGED st /\ ret' = <<"", <<>>>> ELSE Becomes(Taken(Set(st, q, 0), p, y)))
    [] op \in {"copy", "recopy"} -> Kind = 3 /\ p # <<>> /\ q # <<>> /\ ~Ring(st, p, y) /\ (op = "recopy" => p[1] = 0 /\ q[1] = 0 /\ p # q) /\
         Becomes(Taken(st, p, y))
    [] op = "swap" -> p # <<>> /\ q # <<>> /\ ~Ring(st, p, y) /\ ~Ring(st, q, x) /\ st' = Set(Set(st, p, y), q, x) /\ ret' = <<"", <<>>>>
    [] op = "release" -> Kind < 3 /\ p # <<>> /\ st[3] = 0 /\ st' = [Set(st, p, 0) EXCEPT ![3] = x] /\ ret' = <<"", <<x>>>>
    [] op = "adopt" -> p # <<>> /\ st[3] # 0 /\ ~Ring(st, p, st[3]) /\ Becomes(Taken([st EXCEPT ![3] = 0], p, st[3]))
    [] op = "again" -> Kind = 0 /\ p # <<>> /\ UNCHANGED st /\ ret' = <<"", <<>>>>
    [] op = "write" -> p # <<>> /\ x # 0 /\ st' = [st EXCEPT ![2][x][2] = a[2]] /\ ret' = <<"", <<>>>>
    [] op = "query" -> p # <<>> /\ q # <<>> /\ UNCHANGED st /\
         ret' = <<"", <<x, IF x = 0 THEN 0 ELSE st[2][x][2], B(x # 0), IF Kind = 3 /\ x # 0 THEN Owners(st, x) ELSE 0,
                        B(Kind = 3 /\ x # 0 /\ Owners(st, x) = 1), B(x = y), B(x # y), 1>>>>
    [] op = "fin" -> st' = <<[h \in 1..NR |-> 0], [n \in 1..NObj |-> Gone], 0>> /\ ret' = <<"", Drop([st EXCEPT ![3] = 0], st[3], End(st, 1, <<>>))[2] \o <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

Addr == 1..(3 * NR)
Calls == {<<"new", <<h, v>>>> : h \in Addr, v \in Vals} \cup {<<o, <<h, 0>>>> : o \in {"drop", "release", "adopt", "again"}, h \in Addr}
         \cup {<<o, <<h, g>>>> : o \in {"move", "copy", "swap", "query"}, h \in Addr, g \in Addr} \cup {<<o, <<h, g>>>> : o \in {"remake", "recopy"}, h \in 1..NR, g \in 1..NR}
         \cup {<<"write", <<h, v>>>> : h \in Addr, v \in Vals}
Alive == {x \in 1..NObj : st[2][x][1] = 1}
Reached == UNION ({Chain(st, st[1][h], NObj) : h \in 1..NR} \cup {Chain(st, st[3], NObj)})
\* nothing is lost, and nothing referred to is gone
Exact == Alive = Reached
Sole == Kind < 3 => \A x \in Alive : Owners(st, x) + B(st[3] = x) = 1
================================================================================
