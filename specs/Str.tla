--------------------------------- MODULE Str ---------------------------------
(* Strings (S01): sequences of bytes 0 to 255.  Positions are zero based byte *)
(* offsets; positions past the end mean the end.  Wide characters enter as    *)
(* their UTF-8 encoding.  A string may refer to text that is not its own      *)
(* (Lits); editing it makes a copy first, which shows here as the text of     *)
(* the others never changing.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, MaxLen, Chars

VARIABLES st,  \* st[k]: the text of string k
          ret
vars == <<st>>
K == 1..NS
\* texts a string can be linked to
Lits == << <<>>, <<97>>, <<97, 98>>, <<104, 101, 108, 108, 111, 32, 119, 111, 114, 108, 100>>, <<195, 169, 116, 195, 169>> >>
B(x) == IF x THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Rep(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
Fill(n, c) == [i \in 1..n |-> c]
Cut(q, b, e) == SubSeq(q, b + 1, e)                       \* bytes b to e-1
Sub(q, o, n) == Cut(q, Min(o, Len(q)), Min(o + n, Len(q)))
Splice(q, b, e, s) == Cut(q, 0, b) \o s \o Cut(q, e, Len(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* UTF-8: the number of bytes and the encoding of character w
Bytes(w) == CASE w < 128 -> 1 [] w < 2048 -> 2 [] w < 65536 -> 3 [] w < 2097152 -> 4 [] w < 67108864 -> 5 [] OTHER -> 6
RECURSIVE TailB(_, _)
TailB(w, n) == IF n = 0 THEN <<>> ELSE TailB(w \div 64, n - 1) \o <<128 + (w % 64)>>
Pow64(n) == CASE n = 0 -> 1 [] n = 1 -> 64 [] n = 2 -> 4096 [] n = 3 -> 262144 [] n = 4 -> 16777216 [] n = 5 -> 1073741824
Head8(n) == CASE n = 2 -> 192 [] n = 3 -> 224 [] n = 4 -> 240 [] n = 5 -> 248 [] n = 6 -> 252
Enc(w) == IF w < 128 THEN <<w>> ELSE LET n == Bytes(w) IN <<Head8(n) + w \div Pow64(n - 1)>> \o TailB(w % Pow64(n - 1), n - 1)
RECURSIVE EncAll(_)
EncAll(s) == IF s = <<>> THEN <<>> ELSE Enc(Head(s)) \o EncAll(Tail(s))
\* numbers as text
RECURSIVE Digits(_, _)
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Digits(n, b) == IF n < b THEN <<Digit(n)>> ELSE Digits(n \div b, b) \o <<Digit(n % b)>>
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n, 10) ELSE Digits(n, 10)
Pad(s, n, c) == IF Len(s) < n THEN Fill(n - Len(s), c) \o s ELSE s
\* strtol
IsSp(c) == c \in {32} \cup 9..13
DigVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..122 -> c - 87 [] c \in 65..90 -> c - 55 [] OTHER -> 99
RECURSIVE Skip(_, _)
Skip(q, i) == IF i <= Len(q) /\ IsSp(q[i]) THEN Skip(q, i + 1) ELSE i
RECURSIVE Num(_, _, _, _)
\* the number denoted from position i on in base b, with what was read so far; and the position after it
Num(q, i, b, v) == IF i <= Len(q) /\ DigVal(q[i]) < b /\ v < 10000000 THEN Num(q, i + 1, b, v * b + DigVal(q[i])) ELSE <<v, i>>
ParseNum(q, b) == LET i == Skip(q, 1)
                      s == IF i <= Len(q) /\ q[i] \in {43, 45} THEN 1 ELSE 0
                      j == i + s
                      x == IF b = 16 /\ j + 2 <= Len(q) /\ q[j] = 48 /\ q[j + 1] \in {120, 88} /\ DigVal(q[j + 2]) < 16 THEN 2 ELSE 0
                      r == Num(q, j + x, b, 0)
                  IN IF r[2] = j THEN <<0, 0>> ELSE <<IF s = 1 /\ q[i] = 45 THEN -r[1] ELSE r[1], r[2] - 1>>
SmallNum(q, b) == LET p == ParseNum(q, b) IN p[1] < 1000000 /\ -1000000 < p[1]

Init == st = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Set(k, q) == st' = [st EXCEPT ![k] = q]
Put(k, q) == Set(k, q) /\ Ret(<<>>)
Same == UNCHANGED st
Q(k) == st[k]
Ln(k) == Len(st[k])
App(k, s) == Put(k, st[k] \o s)
\* insertion at a position; the iterator forms return the position of what was inserted
InsP(k, p, s) == LET q == Min(p, Ln(k)) IN Put(k, Splice(st[k], q, q, s))
InsI(k, p, s) == p <= Ln(k) /\ Set(k, Splice(st[k], p, p, s)) /\ Ret(<<p>>)
\* replacing bytes b to e-1
RepI(k, b, e, s) == b <= e /\ e <= Ln(k) /\ Put(k, Splice(st[k], b, e, s))
RepP(k, p, n, s) == Put(k, Splice(st[k], Min(p, Ln(k)), Min(p + n, Ln(k)), s))

\* what a reader of terminated text sees
UpToZero(q) == IF \E i \in 1..Len(q) : q[i] = 0 THEN Cut(q, 0, (CHOOSE i \in 1..Len(q) : q[i] = 0 /\ \A j \in 1..(i - 1) : q[j] # 0) - 1) ELSE q
Format(i, d, t) == LET q == UpToZero(t) IN
  CASE i = 0 -> Dec(d)
    [] i = 1 -> <<60>> \o q \o <<62>>                                                       \* <%s>
    [] i = 2 -> Pad(Digits(IF d < 0 THEN -d ELSE d, 16), 5, 48) \o <<124>> \o <<65>>        \* %05x|%c
    [] i = 3 -> q \o <<61>> \o Pad(Dec(d), 40, 32)                                          \* %s=%40d
    [] i = 4 -> <<>>
    [] i = 5 -> <<37>>

Do(op, a) ==
  CASE op = "new" -> Put(a[1], <<>>)
    [] op = "new_copy" -> a[1] # a[2] /\ Put(a[1], Q(a[2]))
    [] op = "new_sub" -> a[1] # a[2] /\ Put(a[1], Sub(Q(a[2]), a[3], a[4]))
    [] op = "new_subd" -> a[1] # a[2] /\ Put(a[1], Sub(Q(a[2]), a[3], 1000000))
    [] op \in {"new_l", "new_rng", "new_il", "new_mem", "assign_l", "assign_z", "assign_rng", "assign_il", "op_z", "op_il"} -> Put(a[1], a[2])
    [] op \in {"new_fill", "assign_fill"} -> Put(a[1], Fill(a[2], a[3]))
    [] op \in {"new_lit", "link_lit"} -> Put(a[1], Lits[a[2]])
    [] op = "link_sub" -> Put(a[1], Sub(Lits[a[2]], a[3], a[4]))
    [] op = "new_move" -> a[1] # a[2] /\ st' = [st EXCEPT ![a[1]] = Q(a[2]), ![a[2]] = <<>>] /\ Ret(<<>>)
    [] op \in {"assign_move", "op_move"} -> a[1] # a[2] /\ st' = [st EXCEPT ![a[1]] = Q(a[2]), ![a[2]] = Q(a[1])] /\ Ret(<<>>)
    [] op = "swap" -> st' = [st EXCEPT ![a[1]] = Q(a[2]), ![a[2]] = Q(a[1])] /\ Ret(<<>>)
    [] op \in {"assign_s", "op_s"} -> Put(a[1], Q(a[2]))
    [] op \in {"assign_sub", "substr"} -> a[1] # a[2] /\ Put(a[1], Sub(Q(a[2]), a[3], a[4]))
    [] op = "op_c" -> Put(a[1], <<a[2]>>)
    [] op = "assign_wc" -> Put(a[1], Rep(Enc(a[3]), a[2]))
    [] op \in {"assign_w", "assign_wz", "op_wz"} -> Put(a[1], EncAll(a[2]))
    [] op \in {"resize", "resize_c"} -> Put(a[1], IF a[2] <= Ln(a[1]) THEN Cut(Q(a[1]), 0, a[2]) ELSE Q(a[1]) \o Fill(a[2] - Ln(a[1]), a[3]))
    [] op = "clear" -> Put(a[1], <<>>)
    [] op \in {"shrink", "copy_link"} -> Put(a[1], Q(a[1]))
    [] op = "reserve" -> Set(a[1], Q(a[1])) /\ Ret(<<1>>)
    [] op \in {"append_l", "append_z", "append_rng", "append_il", "pe_z", "pe_il"} -> App(a[1], a[2])
    [] op = "append_fill" -> App(a[1], Fill(a[2], a[3]))
    [] op \in {"append_s", "pe_s"} -> a[1] # a[2] /\ App(a[1], Q(a[2]))
    [] op = "append_sub" -> a[1] # a[2] /\ App(a[1], Sub(Q(a[2]), a[3], a[4]))
    [] op = "append_wc" -> App(a[1], Rep(Enc(a[3]), a[2]))
    [] op \in {"append_w", "append_wz", "pe_wz"} -> App(a[1], EncAll(a[2]))
    [] op \in {"push", "pe_c", "pe_uc"} -> App(a[1], <<a[2]>>)
    [] op \in {"push_w", "pe_w"} -> App(a[1], Enc(a[2]))
    [] op = "pop" -> Ln(a[1]) > 0 /\ Put(a[1], Cut(Q(a[1]), 0, Ln(a[1]) - 1))
    [] op = "plus" -> Put(a[1], Q(a[2]) \o Q(a[3]))
    [] op = "cplus" -> Put(a[1], a[2] \o Q(a[3]))
    [] op = "pluslit" -> Put(a[1], Q(a[3]) \o a[2])
    [] op \in {"insert_fill", "insert_ifill"} -> InsP(a[1], a[2], Fill(a[3], a[4]))
    [] op \in {"insert_z", "insert_l", "insert_il0"} -> InsP(a[1], a[2], a[3])
    [] op = "insert_s" -> a[1] # a[3] /\ InsP(a[1], a[2], Q(a[3]))
    [] op = "insert_sub" -> a[1] # a[3] /\ InsP(a[1], a[2], Sub(Q(a[3]), a[4], a[5]))
    [] op = "insert_wc" -> InsP(a[1], a[2], Rep(Enc(a[4]), a[3]))
    [] op = "insert_w" -> InsP(a[1], a[2], Rep(EncAll(a[3]), a[4]))
    [] op = "insert_itfill" -> InsI(a[1], a[2], Fill(a[3], a[4]))
    [] op = "insert_itc" -> InsI(a[1], a[2], <<a[3]>>)
    [] op \in {"insert_itn", "insert_itz"} -> InsI(a[1], a[2], Rep(a[3], a[4]))
    [] op = "insert_il" -> InsI(a[1], a[2], a[3])
    [] op \in {"erase_pos", "erase_ipos"} -> a[2] <= Ln(a[1]) /\ Put(a[1], Splice(Q(a[1]), a[2], Min(a[2] + a[3], Ln(a[1])), <<>>))
    [] op = "erase_all" -> Put(a[1], <<>>)
    [] op = "erase_from" -> a[2] <= Ln(a[1]) /\ Put(a[1], Cut(Q(a[1]), 0, a[2]))
    [] op \in {"erase_it", "erase_rng"} -> a[2] <= a[3] /\ a[3] <= Ln(a[1]) /\ Set(a[1], Splice(Q(a[1]), a[2], a[3], <<>>)) /\ Ret(<<a[2]>>)
    [] op = "eraser" -> a[2] <= a[3] /\ Set(a[1], Splice(Q(a[1]), Min(a[2], Ln(a[1])), Min(a[3], Ln(a[1])), <<>>)) /\ Ret(<<Min(a[2], Ln(a[1]))>>)
    [] op \in {"rep_n", "rep_l", "rep_z", "rep_il"} -> RepI(a[1], a[2], a[3], Rep(a[4], a[5]))
    [] op = "rep_s" -> a[1] # a[4] /\ RepI(a[1], a[2], a[3], Q(a[4]))
    [] op = "rep_fill" -> RepI(a[1], a[2], a[3], Fill(a[4], a[5]))
    [] op = "rep_ps" -> a[1] # a[4] /\ RepP(a[1], a[2], a[3], Q(a[4]))
    [] op = "rep_psub" -> a[1] # a[4] /\ RepP(a[1], a[2], a[3], Sub(Q(a[4]), a[5], a[6]))
    [] op \in {"rep_pl", "rep_pz"} -> RepP(a[1], a[2], a[3], a[4])
    [] op = "rep_pfill" -> RepP(a[1], a[2], a[3], Fill(a[4], a[5]))
    [] op = "write" -> a[2] < Ln(a[1]) /\ Put(a[1], [Q(a[1]) EXCEPT ![a[2] + 1] = a[3]])
    [] op = "copy_out" -> a[3] <= Ln(a[1]) /\ Same /\ LET c == Sub(Q(a[1]), a[3], a[2]) IN Ret(<<Len(c)>> \o c)
    [] op = "copyto" -> a[3] <= Ln(a[1]) /\ Same /\ LET c == Sub(Q(a[1]), a[3], a[2] - 1) IN Ret(<<Len(c)>> \o c \o <<0>>)
    [] op = "format" -> a[1] # a[4] /\ Set(a[1], Format(a[2], a[3], Q(a[4]))) /\ Ret(<<Len(Format(a[2], a[3], Q(a[4])))>>)
    [] op = "to_string" -> Put(a[1], Dec(a[2]))
    \* a[2] the base; numbers too large are not asked
    [] op = "stol" -> Same /\ LET p == ParseNum(Q(a[1]), a[2]) IN IF SmallNum(Q(a[1]), a[2]) THEN Ret(p) ELSE ret'[1] = "" /\ Len(ret'[2]) = 2
    [] op = "query" -> LET q == Q(a[1]) n == Len(q) IN
         Same /\ Ret(<<n, B(n = 0)>> \o q \o Rev(q) \o (IF n = 0 THEN <<>> ELSE <<q[1], q[n]>>) \o Sub(q, 1, n) \o Sub(q, n \div 2, 3))
    [] op = "fin" -> st' = [k \in K |-> <<>>] /\ Ret(<<0>>)
    [] OTHER -> FALSE
Observe(s) == s = st'

(* ---- exhaustive model ---- *)
Texts == {<<>>, <<97>>, <<98, 97>>}
Room(k, n) == Ln(k) + n <= MaxLen
Calls ==
  UNION {
    {<<o, <<k>>>> : o \in {"new", "clear", "shrink", "copy_link", "erase_all", "query"}} \cup (IF Ln(k) > 0 THEN {<<"pop", <<k>>>>} ELSE {})
    \cup {<<"new_lit", <<k, i>>>> : i \in 1..3} \cup {<<"link_lit", <<k, i>>>> : i \in 1..3}
    \cup {<<o, <<k, s>>>> : o \in {"new_l", "new_rng", "assign_l", "assign_z", "op_z", "new_il"}, s \in Texts}
    \cup {<<o, <<k, s>>>> : o \in {"append_l", "append_z", "pe_z"}, s \in {t \in Texts : Room(k, Len(t))}}
    \cup {<<o, <<k, c>>>> : o \in {"op_c"}, c \in Chars} \cup (IF Room(k, 1) THEN {<<o, <<k, c>>>> : o \in {"push", "pe_c", "pe_uc", "push_w"}, c \in Chars} ELSE {})
    \cup {<<o, <<k, n, 98>>>> : o \in {"new_fill", "assign_fill", "resize", "resize_c"}, n \in 0..2}
    \cup {<<"reserve", <<k, n>>>> : n \in {0, 2, 9}}
    \cup {<<"erase_pos", <<k, p, n>>>> : p \in 0..Ln(k), n \in 0..2} \cup {<<"erase_from", <<k, p>>>> : p \in 0..Ln(k)}
    \cup {<<o, <<k, p, q>>>> : o \in {"erase_it", "erase_rng", "eraser"}, p \in 0..Ln(k), q \in 0..Ln(k)}
    \cup {<<"insert_fill", <<k, p, n, 97>>>> : p \in 0..(Ln(k) + 1), n \in {m \in 0..2 : Room(k, m)}}
    \cup {<<o, <<k, p, s>>>> : o \in {"insert_z", "insert_l"}, p \in 0..Ln(k), s \in {t \in Texts : Room(k, Len(t))}}
    \cup {<<"insert_itn", <<k, p, s, n>>>> : p \in 0..Ln(k), s \in {<<97>>}, n \in {m \in 0..2 : Room(k, m)}}
    \cup UNION {{<<"rep_n", <<k, b, e, s, 1>>>> : s \in {t \in Texts : Ln(k) - (e - b) + Len(t) <= MaxLen}} : b \in 0..Ln(k), e \in 0..Ln(k)}
    \cup UNION {{<<"rep_pz", <<k, b, n, s>>>> : s \in {t \in Texts : Room(k, Len(t))}} : b \in 0..Ln(k), n \in 0..1}
    \cup {<<"write", <<k, p, 97>>>> : p \in 0..(Ln(k) - 1)}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"new_copy", "new_move", "assign_move", "op_move", "swap", "assign_s", "op_s"} \cup (IF Room(k, Ln(j)) THEN {"append_s", "pe_s"} ELSE {})}
                \cup {<<o, <<k, j, p, 1>>>> : o \in {"new_sub", "assign_sub", "substr"}, p \in 0..2}
                \cup (IF Room(k, Ln(j)) THEN {<<"plus", <<k, k, j>>>>} \cup {<<"insert_s", <<k, p, j>>>> : p \in 0..Ln(k)} ELSE {})
                : j \in K}
    : k \in K}
TypeOK == \A k \in K : \A i \in 1..Ln(k) : st[k][i] \in 0..255
\* an operation on one string changes no other unless it takes from it
TakesFrom == {"new_move", "assign_move", "op_move", "swap"}
=============================================================================
