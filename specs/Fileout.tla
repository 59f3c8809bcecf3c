------------------------------- MODULE Fileout -------------------------------
(* Buffered output files (F02).  A stream holds the text the system has not   *)
(* been given yet; every call may give it any first part of that, and those   *)
(* that flush give it all.  How much the system took, which error it returned *)
(* and, after one, how much of the text a call accepted and what state it     *)
(* left come as witnesses at the end of the arguments:                        *)
(*   t: bytes taken, e: the first error or 0 (-1: the system took nothing),   *)
(*   n: characters accepted, s: the state.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, MaxLen

VARIABLES st,   \* st[k] = [op: is it open, c: the content of its file, p: the position in it, app: does it append, w: text not given, s: state, x: requested]
          ret
vars == <<st>>
K == 1..NS
B(c) == IF c THEN 1 ELSE 0
Bit(v, i) == (v \div i) % 2
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
BOr(a, b) == B(Bit(a, 1) + Bit(b, 1) > 0) + (2 * B(Bit(a, 2) + Bit(b, 2) > 0)) + (4 * B(Bit(a, 4) + Bit(b, 4) > 0))
BAny(a, b) == \E i \in {1, 2, 4} : Bit(a, i) = 1 /\ Bit(b, i) = 1
Cut(q, b, e) == SubSeq(q, b + 1, Min(e, Len(q)))
Zeros(n) == [i \in 1..n |-> 0]
EBadf == 9

New == [op |-> FALSE, c |-> <<>>, p |-> 0, app |-> FALSE, w |-> <<>>, s |-> 0, x |-> 0]
Init == st = [k \in K |-> New] /\ ret = <<"", <<>>>>
Set(k, o) == st' = [st EXCEPT ![k] = o]
Ret(e, l) == ret' = <<e, l>>
Void == Ret("", <<>>)

\* the system being given v
Given(o, v) ==
  IF v = <<>> THEN o
  ELSE LET p == IF o.app THEN Len(o.c) ELSE o.p  c == o.c \o Zeros(Max(0, p - Len(o.c))) IN
       [o EXCEPT !.c = Cut(c, 0, p) \o v \o Cut(c, p + Len(v), Len(c)), !.p = p + Len(v)]
\* with the text d added, of which n characters are accepted, and t bytes of it all given
Moved(o, d, t, n) == LET w == o.w \o Cut(d, 0, n) IN [Given(o, Cut(w, 0, t)) EXCEPT !.w = Cut(w, t, Len(w))]
\* an error of the script, or of having no file
Possible(o, q, e) == e # 0 => (IF o.op THEN (IF e = -1 THEN -1000 ELSE -e) \in {q[i] : i \in 1..Len(q)} ELSE e = EBadf)
Raised(e) == IF e = -1 THEN 6 ELSE 4
\* the stream o doing that, z being the witnesses and all whether it flushes
Works(k, o, d, q, z, all) ==
  LET t == z[1]  e == z[2]  n == z[3]  s == z[4] IN
  /\ t >= 0 /\ n \in 0..Len(d) /\ t <= Len(o.w) + n /\ (o.op \/ t = 0)
  /\ Possible(o, q, e)
  /\ (o.s = 0 /\ e = 0) => n = Len(d) /\ s = 0 /\ (all => t = Len(o.w) + n)
  /\ s \in 0..7 /\ BOr(s, BOr(o.s, IF e = 0 THEN 0 ELSE Raised(e))) = s
  /\ Set(k, [Moved(o, d, t, n) EXCEPT !.s = s])
  /\ ret' \in (LET r == Raised(e)  file == <<"file", <<e>>>>  bounds == <<"bounds", <<>>>>  none == <<"", <<>>>> IN
               IF o.s # 0 THEN {none, bounds} \cup (IF e > 0 THEN {file} ELSE {})
               ELSE IF e = 0 THEN {none}
               ELSE IF BAny(o.x, r) THEN {IF e = -1 THEN bounds ELSE file}
               ELSE IF BAny(o.x, s) THEN {none, bounds} ELSE {none})
\* what is given to the system as it is closed; nothing remains to give
Shut(o) == [o EXCEPT !.op = FALSE, !.p = 0, !.app = FALSE, !.w = <<>>]
Opened(o, m) == [o EXCEPT !.op = TRUE, !.p = 0, !.app = Bit(m, 4) = 1, !.c = IF Bit(m, 32) = 1 THEN <<>> ELSE @, !.w = <<>>, !.s = 0]
Quiet(o) == o.s = 0 /\ (o.op \/ o.w = <<>>)

Do(op, a) ==
  LET k == a[1]  o == st[k]  W(d, all) == Works(k, o, d, a[Len(a) - 1], a[Len(a)], all) IN
  CASE op \in {"put", "write", "str", "int", "fmt"} -> W(a[3], FALSE)   \* the text, however it is made
    [] op = "line" -> W(a[3], TRUE)
    [] op = "flush" -> W(<<>>, TRUE)
    [] op = "seekp" -> \* only with nothing left to give
         LET z == a[Len(a)]  e == z[2]  f == Moved(o, <<>>, z[1], 0)
             p == CASE a[3] = 0 -> a[2] [] a[3] = 1 -> f.p + a[2] [] OTHER -> Len(f.c) + a[2]
         IN z[1] <= Len(o.w) /\ IF f.w # <<>> THEN W(<<>>, TRUE) ELSE o.op /\ o.s = 0 /\ e = 0 /\ p >= 0 /\ Set(k, [f EXCEPT !.p = p]) /\ Void
    [] op = "tellp" -> o.op /\ ~o.app /\ Set(k, o) /\ Ret("", <<o.p + Len(o.w)>>)
    [] op = "open" -> \* an open one gives its text to its file first
         Quiet(o) /\ a[Len(a)][2] = 0 /\ Set(k, Opened(Moved(o, <<>>, Len(o.w), 0), a[2])) /\ Void
    [] op = "make" -> \* anew
         Quiet(o) /\ a[Len(a)][2] = 0 /\ Set(k, [Opened(Moved(o, <<>>, Len(o.w), 0), a[2]) EXCEPT !.x = 0]) /\ Void
    [] op = "close" -> \* what cannot be given is lost, which the state tells; an exception leaves it as it was
         LET z == a[Len(a)]  q == a[Len(a) - 1]  t == z[1]  e == z[2]  s == z[4] IN
         /\ Possible(o, q, e) /\ t \in 0..Len(o.w) /\ (o.op \/ t = 0)
         /\ (o.s = 0 /\ e = 0) => t = Len(o.w) /\ s = 0
         /\ s \in 0..7 /\ (e # 0 => BOr(s, Raised(e)) = s)
         /\ (IF e # 0 /\ BAny(o.x, Raised(e)) THEN Set(k, [Moved(o, <<>>, t, 0) EXCEPT !.s = s]) /\ (IF e = -1 THEN Ret("bounds", <<>>) ELSE Ret("file", <<e>>))
             ELSE Set(k, [Shut(Moved(o, <<>>, t, 0)) EXCEPT !.s = s]) /\ Void)
    [] op = "kill" -> LET z == a[Len(a)] IN
         /\ Possible(o, a[Len(a) - 1], z[2]) /\ z[1] \in 0..Len(o.w) /\ (o.op \/ z[1] = 0) /\ ((o.s = 0 /\ z[2] = 0) => z[1] = Len(o.w))
         /\ Set(k, [Shut(Moved(o, <<>>, z[1], 0)) EXCEPT !.s = 0, !.x = 0]) /\ Void
    [] op = "clear" -> Set(k, [o EXCEPT !.s = 0]) /\ Void
    [] op = "exceptions" -> Set(k, [o EXCEPT !.x = a[2]]) /\ Void
    [] op = "fin" -> st' = [j \in K |-> New] /\ Void
    [] OTHER -> FALSE

Seen(o) == <<B(o.op), o.p, o.s, o.x, Len(o.w), o.c>>
Observe(v) == (\A k \in K : v[1][k] = Seen(st'[k])) /\ v[2] = 0

(* ---- the bounded model ---- *)
CONSTANT Small
Scripts == {<<>>, <<-5>>, <<1, -5>>} \cup (IF Small = 0 THEN {<<1, -1000>>, <<-11>>, <<-4>>} ELSE {})
Ends(q) == {<<t, e, n, s>> : t \in 0..2, e \in {0} \cup (IF -5 \in {q[i] : i \in 1..Len(q)} THEN {5} ELSE {}) \cup (IF -1000 \in {q[i] : i \in 1..Len(q)} THEN {-1} ELSE {}) \cup {EBadf}, n \in 0..2, s \in {0, 4}}
Calls ==
  UNION {
    {<<"str", <<k, 0, v, q, z>>>> : k \in K, v \in {<<98, 98>>}, z \in Ends(q)}
    \cup {<<"line", <<k, 0, <<10>>, q, z>>>> : k \in K, z \in Ends(q)}
    \cup {<<o, <<k, q, z>>>> : o \in {"flush", "close", "kill"}, k \in K, z \in Ends(q)}
    \cup {<<"seekp", <<k, 0, 0, q, z>>>> : k \in K, z \in Ends(q)}
  : q \in Scripts }
  \cup {<<"open", <<k, m, 0, <<>>, <<0, 0, 0, 0>>>>>> : k \in K, m \in {2, 6, 34}}
  \cup {<<"tellp", <<k, <<>>, <<0, 0, 0, 0>>>>>> : k \in K}
  \cup {<<"clear", <<k, <<>>, <<0, 0, 0, 0>>>>>> : k \in K}
  \cup {<<"exceptions", <<k, 4, <<>>, <<0, 0, 0, 0>>>>>> : k \in K}
Bounded == \A k \in K : Len(st[k].c) + Len(st[k].w) <= MaxLen
\* the system has been given nothing but the text, in order: with a position that only writes move, all text ever
\* accepted and not lost is in the file or waiting
Consistent == \A k \in K : (~st[k].op => st[k].p = 0) /\ st[k].p <= Len(st[k].c)
=============================================================================
