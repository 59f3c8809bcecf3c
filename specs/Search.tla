------------------------------- MODULE Search --------------------------------
(* Searching and comparing strings (S02).  The state is a few texts of bytes; *)
(* every search and comparison is a function of them.  A position is a byte   *)
(* offset; -1 stands for npos, as a result and as an argument.                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, MaxLen, Chars

VARIABLES st, ret
vars == <<st>>
K == 1..NS
B(x) == IF x THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
NPos == -1
At(q, i) == q[i + 1]                                    \* byte at offset i
Cut(q, b, e) == SubSeq(q, b + 1, e)
End(q, p) == IF p = NPos \/ p > Len(q) THEN Len(q) ELSE p
Sub(q, o, n) == Cut(q, End(q, o), IF n = NPos THEN Len(q) ELSE End(q, End(q, o) + n))
Offs(q) == 0..(Len(q) - 1)
Least(S) == IF S = {} THEN NPos ELSE CHOOSE x \in S : \A y \in S : x <= y
Most(S) == IF S = {} THEN NPos ELSE CHOOSE x \in S : \A y \in S : x >= y
In(c, s) == \E i \in 1..Len(s) : s[i] = c
\* where s occurs in q
Occ(q, s) == {i \in 0..(Len(q) - Len(s)) : \A j \in 1..Len(s) : q[i + j] = s[j]}
From(q, p) == {i \in Offs(q) : i >= End(q, p)}
UpTo(q, p) == {i \in Offs(q) : p = NPos \/ i <= p}
FindC(q, c, p) == Least({i \in From(q, p) : At(q, i) = c})
RFindC(q, c, p) == Most({i \in UpTo(q, p) : At(q, i) = c})
\* an empty pattern is found nowhere
FindS(q, s, p) == IF s = <<>> THEN NPos ELSE Least({i \in Occ(q, s) : i >= End(q, p)})
\* backward: the last occurrence that ends at or before the position
RFindS(q, s, p) == IF s = <<>> THEN NPos ELSE Most({i \in Occ(q, s) : i + Len(s) <= End(q, p)})
FirstOf(q, s, p) == Least({i \in From(q, p) : In(At(q, i), s)})
FirstNotOf(q, s, p) == Least({i \in From(q, p) : ~In(At(q, i), s)})
LastOf(q, s, p) == Most({i \in UpTo(q, p) : In(At(q, i), s)})
LastNotOf(q, s, p) == Most({i \in UpTo(q, p) : ~In(At(q, i), s)})
\* lexicographic by byte, a proper prefix first
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a = <<>> /\ b = <<>> -> 0 [] a = <<>> -> -1 [] b = <<>> -> 1
               [] a[1] < b[1] -> -1 [] a[1] > b[1] -> 1 [] OTHER -> Cmp(Tail(a), Tail(b))
\* == != < > <= >=
Ops(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c > 0), B(c <= 0), B(c >= 0)>>

Init == st = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Ret(x) == UNCHANGED st /\ ret' = <<"", x>>
Q(k) == st[k]

Do(op, a) ==
  CASE op = "set" -> st' = [st EXCEPT ![a[1]] = a[2]] /\ ret' = <<"", <<>>>>
    [] op = "find_s" -> Ret(<<FindS(Q(a[1]), Q(a[2]), a[3])>>)
    [] op = "find_p" -> Ret(<<FindS(Q(a[1]), Sub(Q(a[2]), 0, a[4]), a[3])>>)                     \* the first a[4] bytes
    [] op = "find_c" -> Ret(<<FindC(Q(a[1]), a[2], a[3])>>)
    [] op = "rfind_s" -> Ret(<<RFindS(Q(a[1]), Q(a[2]), a[3])>>)
    [] op = "rfind_p" -> Ret(<<RFindS(Q(a[1]), Sub(Q(a[2]), 0, a[4]), a[3])>>)
    [] op = "rfind_c" -> Ret(<<RFindC(Q(a[1]), a[2], a[3])>>)
    [] op = "of_s" -> LET q == Q(a[1]) s == Q(a[2]) IN Ret(<<FirstOf(q, s, a[3]), FirstNotOf(q, s, a[3]), LastOf(q, s, a[3]), LastNotOf(q, s, a[3])>>)
    [] op = "of_p" -> LET q == Q(a[1]) s == Sub(Q(a[2]), 0, a[4]) IN Ret(<<FirstOf(q, s, a[3]), FirstNotOf(q, s, a[3]), LastOf(q, s, a[3]), LastNotOf(q, s, a[3])>>)
    [] op = "of_c" -> LET q == Q(a[1]) s == <<a[2]>> IN Ret(<<FirstOf(q, s, a[3]), FirstNotOf(q, s, a[3]), LastOf(q, s, a[3]), LastNotOf(q, s, a[3])>>)
    \* positions left to the defaults
    [] op = "deflt" -> LET q == Q(a[1]) s == Q(a[2]) IN Ret(<<FindS(q, s, 0), RFindS(q, s, NPos), FirstOf(q, s, 0), FirstNotOf(q, s, 0), LastOf(q, s, NPos), LastNotOf(q, s, NPos)>>)
    \* the order, as a number and as operators on strings, and on one string and the text of the other
    [] op = "cmp" -> LET c == Cmp(Q(a[1]), Q(a[2])) IN Ret(<<c>> \o Ops(c))
    [] op = "cmp_z" -> LET c == Cmp(Q(a[1]), Q(a[2])) IN Ret(<<c>> \o Ops(c) \o Ops(-c))
    [] op = "cmp_ch" -> LET c == Cmp(Q(a[1]), <<a[2]>>) IN Ret(<<B(c = 0), B(c # 0), B(c < 0)>>)
    \* ranges: of one with the other, with a range of the other, and with the first bytes of the other's text
    [] op = "cmp_r" -> LET q == Sub(Q(a[1]), a[3], a[4]) s == Q(a[2]) IN Ret(<<Cmp(q, s), Cmp(q, Sub(s, a[5], a[6])), Cmp(q, Sub(s, 0, a[6]))>>)
    [] op = "cmp_rz" -> Ret(<<Cmp(Sub(Q(a[1]), a[3], a[4]), Q(a[2]))>>)
    \* do the hashes agree?  they must for equal texts
    [] op = "hash" -> UNCHANGED st /\ ret' \in {<<"", <<1>>>>} \cup (IF Q(a[1]) = Q(a[2]) THEN {} ELSE {<<"", <<0>>>>})
    [] op = "fin" -> st' = [k \in K |-> <<>>] /\ ret' = <<"", <<>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

(* ---- exhaustive model ---- *)
Texts(n) == UNION {[1..m -> Chars] : m \in 0..n}
Pos == {-1} \cup 0..(MaxLen + 1)
Calls ==
  IF st[1] = <<>> /\ st[2] = <<>>
  THEN {<<"set", <<1, s>>>> : s \in Texts(MaxLen)} \cup {<<"set", <<2, s>>>> : s \in Texts(2)}
  ELSE (IF st[2] = <<>> THEN {<<"set", <<2, s>>>> : s \in Texts(3)} ELSE {})
       \cup {<<o, <<1, 2, p>>>> : o \in {"find_s", "rfind_s", "of_s"}, p \in Pos}
       \cup {<<o, <<1, c, p>>>> : o \in {"find_c", "rfind_c", "of_c"}, c \in Chars, p \in Pos}
       \cup {<<o, <<1, 2>>>> : o \in {"cmp", "cmp_z", "hash", "deflt"}}
       \cup {<<"cmp_ch", <<1, c>>>> : c \in Chars}
       \cup {<<"cmp_r", <<1, 2, o, n, p, m>>>> : o \in 0..2, n \in {0, 1, 2, -1}, p \in 0..1, m \in {1, 2}}
\* the order is a total order and agrees with equality
TotalOrder == \A x \in Texts(2), y \in Texts(2) : /\ Cmp(x, y) = -Cmp(y, x) /\ (Cmp(x, y) = 0) = (x = y)
Transitive == \A x \in Texts(2), y \in Texts(2), z \in Texts(2) : Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
OrderOK == st = [k \in K |-> <<>>] => TotalOrder /\ Transitive
\* forward and backward searches of one character agree when it occurs once
SearchOK == \A c \in Chars : LET q == st[1] IN (FindC(q, c, 0) = NPos) = (RFindC(q, c, NPos) = NPos) /\ FindC(q, c, 0) <= RFindC(q, c, NPos)
=============================================================================
