--------------------------------- MODULE Block ---------------------------------
(* Copying, filling, rotating and swapping of blocks of memory (A04). The       *)
(* memory is M bytes, among them those around any destination; every call       *)
(* starts from the same bytes, no two places of which continue alike.           *)
EXTENDS Integers, Sequences
CONSTANTS M,
          Offs, Counts, Forms

VARIABLES st,           \* the memory after the last call
          ret
vars == <<st>>
Pat == [i \in 1..M |-> ((((i * i) * 7) + (13 * i)) + (5 * (i \div 16))) % 251]
\* how many bytes an element of a form has: 0 1 void, 2 3 uint8_t, 4 5 char, 6 7 int8_t, 8 to 11 of 16 bits, 12 to 15 of 32, 16 17 float,
\* 18 uint64_t, 19 double, 20 a structure of three bytes, 21 the routine for any bytes, 22 wchar_t, 23 a pointer, 24 a structure of twenty
E(f) == CASE f \in 8..11 -> 2 [] f \in 12..17 -> 4 [] f \in {18, 19, 23} -> 8 [] f = 20 -> 3 [] f = 22 -> 4 [] f = 24 -> 20 [] OTHER -> 1
In(o, n) == o >= 0 /\ n >= 0 /\ o + n <= M
Apart(a, b, n) == a + n <= b \/ b + n <= a
\* n bytes of the pattern from s on, at d
Moved(s, n, d) == [i \in 1..M |-> IF i > d /\ i <= d + n THEN Pat[(s + i) - d] ELSE Pat[i]]
Filled(d, n, v) == [i \in 1..M |-> IF i > d /\ i <= d + n THEN v[(((i - d) - 1) % Len(v)) + 1] ELSE Pat[i]]
\* from a to c, what begins at b goes first
Rotated(a, b, c) == [i \in 1..M |-> IF i <= a \/ i > c THEN Pat[i] ELSE IF i + (b - a) <= c THEN Pat[i + (b - a)] ELSE Pat[i - (c - b)]]
Swapped(a, n, b) == [i \in 1..M |-> IF i > a /\ i <= a + n THEN Pat[(i - a) + b] ELSE IF i > b /\ i <= b + n THEN Pat[(i - b) + a] ELSE Pat[i]]
To(m, l) == st' = m /\ ret' = <<"", l>>
\* by whole elements
Even(a) == (a[4] - a[2]) % E(a[1]) = 0
Bytes(v) == \A i \in 1..Len(v) : v[i] \in 0..255
Init == st = Pat /\ ret = <<"", <<>>>>

Do(op, a) ==
  \* the destination may overlap what has been read: below the source when copying upward, above it downward
  CASE op \in {"copy", "copyn"} -> LET n == a[3] * E(a[1]) IN
         In(a[2], n) /\ In(a[4], n) /\ ((a[4] <= a[2] /\ Even(a)) \/ Apart(a[2], a[4], n)) /\ To(Moved(a[2], n, a[4]), <<a[4] + n, 0>>)
    [] op = "copyback" -> LET n == a[3] * E(a[1]) IN
         In(a[2], n) /\ In(a[4], n) /\ ((a[4] >= a[2] /\ Even(a)) \/ Apart(a[2], a[4], n)) /\ To(Moved(a[2], n, a[4]), <<a[4], 0>>)
    [] op \in {"fill", "filln", "ufill", "ufilln"} -> LET n == a[3] * E(a[1]) IN
         In(a[2], n) /\ Len(a[4]) = E(a[1]) /\ Bytes(a[4]) /\ To(Filled(a[2], n, a[4]), <<a[2] + n, 0>>)
    \* from the one to the other, each element once: [a[2], a[2] + a[3]) and a[4] more
    [] op = "rotate" -> LET x == a[2]  y == x + (a[3] * E(a[1]))  z == y + (a[4] * E(a[1])) IN
         In(x, z - x) /\ a[3] >= 0 /\ a[4] >= 0 /\ To(Rotated(x, y, z), <<0>>)
    [] op = "swaps" -> LET n == a[3] * E(a[1]) IN In(a[2], n) /\ In(a[4], n) /\ Apart(a[2], a[4], n) /\ To(Swapped(a[2], n, a[4]), <<a[4] + n, 0>>)
    [] op \in {"swap", "iterswap"} -> LET n == E(a[1]) IN In(a[2], n) /\ In(a[3], n) /\ Apart(a[2], a[3], n) /\ To(Swapped(a[2], n, a[3]), <<0>>)
    [] op \in {"ucopy", "ucopyn", "umove", "umoven"} -> LET n == a[3] * E(a[1]) IN
         In(a[2], n) /\ In(a[4], n) /\ Apart(a[2], a[4], n) /\ To(Moved(a[2], n, a[4]), <<a[4] + n, 0>>)
    [] op = "zero" -> LET n == a[3] * E(a[1]) IN In(a[2], n) /\ To(Filled(a[2], n, <<0>>), <<0>>)
    [] op = "destroy" -> LET n == a[3] * E(a[1]) IN In(a[2], n) /\ To(Pat, <<0>>)
    [] op = "fin" -> To(Pat, <<>>)
    [] OTHER -> FALSE

\* the memory is written as what it is made of: <<0, n, k>> n bytes of the pattern from k on, <<1, n, v>> n bytes of v over and over
RECURSIVE Made(_, _, _)
Made(s, i, o) ==
  IF i > Len(s) THEN o = M
  ELSE LET q == s[i] IN
       /\ o + q[2] <= M
       /\ \A n \in 1..q[2] : st'[o + n] = (IF q[1] = 0 THEN Pat[q[3] + n] ELSE q[3][((n - 1) % Len(q[3])) + 1])
       /\ Made(s, i + 1, o + q[2])
Observe(s) == Made(s, 1, 0)

Vals(f) == [i \in 1..E(f) |-> (i * 37) % 256]
Calls == {<<o, <<f, s, n, d>>>> : o \in {"copy", "copyn", "copyback", "ucopy", "ucopyn", "umove", "umoven"}, f \in Forms, s \in Offs, n \in Counts, d \in Offs}
         \cup {<<o, <<f, d, n, Vals(f)>>>> : o \in {"fill", "filln", "ufill", "ufilln"}, f \in Forms, d \in Offs, n \in Counts}
         \cup {<<"rotate", <<f, a, n, m>>>> : f \in Forms, a \in Offs, n \in Counts, m \in Counts}
         \cup {<<"swaps", <<f, a, n, b>>>> : f \in Forms, a \in Offs, n \in Counts, b \in Offs}
         \cup {<<o, <<f, a, b>>>> : o \in {"swap", "iterswap"}, f \in Forms, a \in Offs, b \in Offs}
         \cup {<<o, <<f, a, n>>>> : o \in {"zero", "destroy"}, f \in Forms, a \in Offs, n \in Counts}
\* what the parts of each have to do with each other
Count(m, b) == Len(SelectSeq(m, LAMBDA x : x = b))
Laws == /\ \A a \in Offs : \A n \in Counts : \A m \in Counts : In(a, n + m) =>
             LET r == Rotated(a, a + n, a + n + m) IN
             /\ SubSeq(r, a + 1, a + n + m) = SubSeq(Pat, a + n + 1, a + n + m) \o SubSeq(Pat, a + 1, a + n)
             /\ SubSeq(r, 1, a) = SubSeq(Pat, 1, a) /\ SubSeq(r, a + n + m + 1, M) = SubSeq(Pat, a + n + m + 1, M)
        /\ \A a \in Offs : \A b \in Offs : \A n \in Counts : In(a, n) /\ In(b, n) /\ Apart(a, b, n) =>
             /\ Swapped(a, n, b) = Swapped(b, n, a)
             /\ SubSeq(Moved(a, n, b), b + 1, b + n) = SubSeq(Swapped(a, n, b), b + 1, b + n)
        /\ \A a \in Offs : \A n \in Counts : In(a, n) => Count(Filled(a, n, <<255>>), 255) = n
================================================================================
