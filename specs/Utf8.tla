-------------------------------- MODULE Utf8 ---------------------------------
(* Wide characters and UTF-8 text (S03).  The state is what the strings mean: *)
(* sequences of wide characters, each as its upper and lower 16 bits.  What   *)
(* the implementation must hold is their encoding.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, MaxLen, Chars
\* bounded models: the characters at the limits of each length, by number
Edge == << <<0, 0>>, <<0, 65>>, <<0, 127>>, <<0, 128>>, <<0, 2047>>, <<0, 2048>>, <<0, 65535>>, <<1, 0>>, <<31, 65535>>, <<32, 0>>, <<1023, 65535>>, <<1024, 0>>, <<32767, 65535>>, <<32768, 0>>, <<65535, 65535>> >>

VARIABLES st,  \* st[k]: the characters of string k
          ret
vars == <<st>>
K == 1..NS
B(x) == IF x THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Cut(q, b, e) == SubSeq(q, b + 1, e)
Splice(q, b, e, s) == Cut(q, 0, b) \o s \o Cut(q, e, Len(q))
\* characters from a flat list of halves, and back
Pairs(l) == [i \in 1..(Len(l) \div 2) |-> <<l[(2 * i) - 1], l[2 * i]>>]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<q[1][1], q[1][2]>> \o Flat(Tail(q))
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
\* the encoding: number of bytes, six bit groups, bytes
NB(w) == CASE w[1] = 0 /\ w[2] < 128 -> 1
           [] w[1] = 0 /\ w[2] < 2048 -> 2
           [] w[1] = 0 -> 3
           [] w[1] < 32 -> 4
           [] w[1] < 1024 -> 5
           [] w[1] < 32768 -> 6
           [] OTHER -> 7
Grp(w, i) == CASE i = 0 -> w[2] % 64
               [] i = 1 -> (w[2] \div 64) % 64
               [] i = 2 -> (w[2] \div 4096) + (16 * (w[1] % 4))
               [] i = 3 -> (w[1] \div 4) % 64
               [] i = 4 -> (w[1] \div 256) % 64
               [] i = 5 -> w[1] \div 16384
               [] OTHER -> 0
Lead(n) == CASE n = 2 -> 192 [] n = 3 -> 224 [] n = 4 -> 240 [] n = 5 -> 248 [] n = 6 -> 252 [] n = 7 -> 254
Enc(w) == LET n == NB(w) IN IF n = 1 THEN <<w[2]>> ELSE [i \in 1..n |-> IF i = 1 THEN Lead(n) + Grp(w, n - 1) ELSE 128 + Grp(w, n - i)]
RECURSIVE EncAll(_)
EncAll(q) == IF q = <<>> THEN <<>> ELSE Enc(q[1]) \o EncAll(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE NB(q[1]) + Sum(Tail(q))
Off(q, i) == Sum(Cut(q, 0, i))      \* byte position of character i
\* decoding, by the first byte's leading ones; what reading an encoding must give back
Ones(c) == CASE c < 128 -> 0 [] c < 192 -> 1 [] c < 224 -> 2 [] c < 240 -> 3 [] c < 248 -> 4 [] c < 252 -> 5 [] c < 254 -> 6 [] c = 254 -> 7 [] OTHER -> 8
SeqBytes(c) == LET n == Ones(c) IN IF n = 0 THEN 1 ELSE n
\* shifting six more bits into a character
Shift6(w, g) == <<((w[1] * 64) % 65536) + (w[2] \div 1024), ((w[2] % 1024) * 64) + g>>
RECURSIVE DecTail(_, _)
DecTail(w, s) == IF s = <<>> THEN w ELSE DecTail(Shift6(w, s[1] % 64), Tail(s))
FirstBits(c) == CASE Ones(c) = 0 -> c [] Ones(c) = 2 -> c % 32 [] Ones(c) = 3 -> c % 16 [] Ones(c) = 4 -> c % 8 [] Ones(c) = 5 -> c % 4 [] Ones(c) = 6 -> c % 2 [] OTHER -> 0
Dec(s) == DecTail(<<0, FirstBits(s[1])>>, Tail(s))

Init == st = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Q(k) == st[k]
Ln(k) == Len(st[k])
Put(k, q) == st' = [st EXCEPT ![k] = q] /\ ret' = <<"", <<>>>>
Ret(x) == UNCHANGED st /\ ret' = <<"", x>>
Ins(k, i, s) == i <= Ln(k) /\ Put(k, Splice(Q(k), i, i, s))

Do(op, a) ==
  CASE op \in {"assign", "assign_z", "op_z", "out_back", "out_ptr", "out_stream", "copy_back"} -> Put(a[1], Pairs(a[2]))
    [] op = "assign_n" -> Put(a[1], Rep(Pairs(a[2]), a[3]))
    [] op \in {"append", "append_z", "pe_z"} -> Put(a[1], Q(a[1]) \o Pairs(a[2]))
    [] op = "append_n" -> Put(a[1], Q(a[1]) \o Rep(Pairs(a[2]), a[3]))
    [] op \in {"push", "pe"} -> Put(a[1], Q(a[1]) \o Pairs(a[2]))
    \* at the byte position of a character
    [] op = "insert" -> Ins(a[1], a[2], Rep(Pairs(a[3]), a[4]))
    [] op = "insert_n" -> Ins(a[1], a[2], Rep(Pairs(a[3]), a[4]))
    \* erasing characters between positions found by stepping
    [] op = "erase" -> a[2] <= a[3] /\ a[3] <= Ln(a[1]) /\ Put(a[1], Splice(Q(a[1]), a[2], a[3], <<>>))
    [] op = "copy" -> Put(a[1], Q(a[2]))
    [] op = "app" -> Put(a[1], Q(a[1]) \o Q(a[2]))
    \* reading: by the string's iterators, over plain bytes, and into a wide array
    [] op \in {"read", "read_wide", "read_post", "read_u", "read_stream"} -> Ret(Flat(Q(a[1])))
    [] op = "length" -> Ret(<<Ln(a[1])>>)
    \* byte position of the i-th character
    [] op = "wiat" -> a[2] <= Ln(a[1]) /\ Ret(<<Off(Q(a[1]), a[2])>>)
    \* stepping by n: byte position, and character there unless at the end
    [] op = "step" -> a[2] + a[3] <= Ln(a[1]) /\ LET i == a[2] + a[3] IN Ret(<<Off(Q(a[1]), i)>> \o (IF i < Ln(a[1]) THEN Flat(<<Q(a[1])[i + 1]>>) ELSE <<>>))
    \* characters between two positions; and how the positions compare
    [] op = "dist" -> a[2] <= a[3] /\ a[3] <= Ln(a[1]) /\ Ret(<<a[3] - a[2], B(a[2] = a[3]), B(a[2] < a[3])>>)
    \* byte counts: of the whole as an array of characters, of each, and as announced by each first byte
    [] op = "bytes" -> LET q == Q(a[1]) IN Ret(<<Sum(q)>> \o [i \in 1..Len(q) |-> NB(q[i])] \o [i \in 1..Len(q) |-> NB(q[i])])
    [] op = "seqbytes" -> Ret(<<SeqBytes(a[1])>>)
    [] op = "fin" -> st' = [k \in K |-> <<>>] /\ ret' = <<"", <<>>>>
    [] OTHER -> FALSE
Observe(s) == s = [k \in K |-> EncAll(st'[k])]

(* ---- exhaustive model ---- *)
CharSet == {Edge[i] : i \in Chars}
Room(k, n) == Ln(k) + n <= MaxLen
Calls ==
  UNION {
    {<<o, <<k>>>> : o \in {"read", "read_wide", "read_post", "read_stream", "length", "bytes"}}
    \cup (IF Room(k, 1) THEN {<<o, <<k, w>>>> : o \in {"push", "pe", "append"}, w \in CharSet} \cup {<<"insert", <<k, i, w, 1>>>> : i \in 0..Ln(k), w \in CharSet} ELSE {})
    \cup {<<o, <<k, w>>>> : o \in {"out_back", "out_ptr", "out_stream", "assign"}, w \in CharSet}
    \cup {<<"erase", <<k, i, j>>>> : i \in 0..Ln(k), j \in 0..Ln(k)}
    \cup {<<"wiat", <<k, i>>>> : i \in 0..Ln(k)}
    \cup {<<o, <<k, i, j>>>> : o \in {"dist", "step"}, i \in 0..Ln(k), j \in 0..Ln(k)}
    : k \in K}
\* the encoding loses nothing: each character decodes from its bytes, whose first tells their number,
\* and no encoding is the beginning of another
RoundTrip == \A i \in 1..Len(Edge) : LET e == Enc(Edge[i]) IN
    /\ Dec(e) = Edge[i] /\ SeqBytes(e[1]) = Len(e)
    /\ \A j \in 2..Len(e) : e[j] \in 128..191
    /\ \A j \in 1..Len(Edge) : i # j => SubSeq(Enc(Edge[j]), 1, Min(Len(e), NB(Edge[j]))) # e
Decodes == \A k \in K : \A i \in 1..Ln(k) : LET b == EncAll(st[k]) o == Off(st[k], i - 1) IN Dec(SubSeq(b, o + 1, o + SeqBytes(b[o + 1]))) = st[k][i]
=============================================================================
