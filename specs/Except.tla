--------------------------------- MODULE Except --------------------------------
(* Exceptions: what each says of itself, by which classes it is caught, what a  *)
(* copy and a record of one keep; error codes; readable names of types (E01).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds, Dem    \* Dem: names of types are made readable
VARIABLES st,           \* two slots, each an exception <<kind, text, operation, error number, numbers, trace>>, the trace is 0 where there is none
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
None == <<0, <<>>, <<>>, 0, <<>>, 0>>
NK == 18
Plain(k) == k \in 1..3
Said(k) == k \in 5..14
System(k) == k \in 15..18
\* two ways to make one class
Class(k) == IF k = 16 THEN 15 ELSE k
Parent(k) == CASE k = 1 -> 0 [] k \in 2..5 -> 1 [] k = 6 \/ k = 11 -> 5 [] k \in 7..10 -> 6 [] k \in 12..15 -> 11 [] OTHER -> 15
RECURSIVE Isa(_, _)
Isa(k, c) == k # 0 /\ (k = c \/ Isa(Parent(k), c))
Classes == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18>>

error == <<101, 114, 114, 111, 114>>
spc == <<32>>
colon == <<58, 32>>
\* "error" with a word before
Of(w) == w \o spc \o error
What(e) ==
  CASE e[1] = 1 -> error
    [] e[1] = 2 -> <<98, 97, 100, 32, 99, 97, 115, 116>>
    [] e[1] = 3 -> <<98, 97, 100, 32, 116, 121, 112, 101, 105, 100>>
    [] e[1] = 4 -> <<109, 101, 109, 111, 114, 121, 32, 97, 108, 108, 111, 99, 97, 116, 105, 111, 110, 32, 102, 97, 105, 108, 101, 100>>
    [] Said(e[1]) -> e[2]
    [] e[1] \in {15, 16} -> Of(<<115, 121, 115, 116, 101, 109>>)
    [] e[1] = 17 -> Of(<<102, 105, 108, 101>>)
    [] OTHER -> <<115, 116, 114, 101, 97, 109, 32, 98, 111, 117, 110, 100, 115, 32, 101, 120, 99, 101, 112, 116, 105, 111, 110>>
Name(e) ==
  CASE e[1] = 5 -> error
    [] e[1] = 6 -> Of(<<108, 111, 103, 105, 99>>)
    [] e[1] = 7 -> Of(<<100, 111, 109, 97, 105, 110>>)
    [] e[1] = 8 -> <<105, 110, 118, 97, 108, 105, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116>>
    [] e[1] = 9 -> Of(<<108, 101, 110, 103, 116, 104>>)
    [] e[1] = 10 -> <<111, 117, 116, 32, 111, 102, 32, 114, 97, 110, 103, 101>>
    [] e[1] = 11 -> Of(<<114, 117, 110, 116, 105, 109, 101>>)
    [] e[1] = 12 -> Of(<<114, 97, 110, 103, 101>>)
    [] e[1] = 13 -> Of(<<111, 118, 101, 114, 102, 108, 111, 119>>)
    [] e[1] = 14 -> Of(<<117, 110, 100, 101, 114, 102, 108, 111, 119>>)
    [] System(e[1]) -> e[3]
    [] OTHER -> <<>>
\* codes of what is recorded: the same for all which say no more than a message
Form(k) == CASE k \in 1..3 -> 0 [] k = 4 -> 1 [] Said(k) -> 2 [] k \in {15, 16} -> 3 [] k = 17 -> 13 [] OTHER -> 14

\* numbers as text
RECURSIVE DecI(_)
DecI(x) == IF x < 0 THEN <<45>> \o DecI(0 - x) ELSE IF x < 10 THEN <<48 + x>> ELSE DecI(x \div 10) \o <<48 + (x % 10)>>
RECURSIVE DivB(_, _, _), Rem(_, _, _)
DivB(a, i, r) == IF i = 0 THEN <<>> ELSE LET s == (r * 256) + a[i] IN DivB(a, i - 1, s % 10) \o <<s \div 10>>
Rem(a, i, r) == IF i = 0 THEN r ELSE Rem(a, i - 1, ((r * 256) + a[i]) % 10)
Zeroes(a) == \A i \in 1..Len(a) : a[i] = 0
RECURSIVE Dec(_)
Dec(a) == LET q == DivB(a, Len(a), 0)  d == <<48 + Rem(a, Len(a), 0)>> IN IF Zeroes(q) THEN d ELSE Dec(q) \o d
HexD(x) == IF x < 10 THEN 48 + x ELSE 55 + x
RECURSIVE Hex(_, _)
Hex(a, i) == IF i = 0 THEN <<>> ELSE <<HexD(a[i] \div 16), HexD(a[i] % 16)>> \o Hex(a, i - 1)
RECURSIVE NoZero(_)
NoZero(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZero(SubSeq(t, 2, Len(t))) ELSE t
HexOf(a) == NoZero(Hex(a, 8))

\* messages of the system
Known == {0, 1, 2, 4, 5, 9, 11, 12, 13, 17, 21, 22, 28, 32, 36, 75, 95}
IsErr(n) == IF n \in Known THEN TRUE ELSE IF n < 0 THEN n >= -100000 ELSE n \in 141..100000
Err(n) ==
  CASE n = 0 -> <<83, 117, 99, 99, 101, 115, 115>> [] n = 1 -> <<79, 112, 101, 114, 97, 116, 105, 111, 110, 32, 110, 111, 116, 32, 112, 101, 114, 109, 105, 116, 116, 101, 100>> [] n = 2 -> <<78, 111, 32, 115, 117, 99, 104, 32, 102, 105, 108, 101, 32, 111, 114, 32, 100, 105, 114, 101, 99, 116, 111, 114, 121>> [] n = 4 -> <<73, 110, 116, 101, 114, 114, 117, 112, 116, 101, 100, 32, 115, 121, 115, 116, 101, 109, 32, 99, 97, 108, 108>> [] n = 5 -> <<73, 110, 112, 117, 116, 47, 111, 117, 116, 112, 117, 116, 32, 101, 114, 114, 111, 114>> [] n = 9 -> <<66, 97, 100, 32, 102, 105, 108, 101, 32, 100, 101, 115, 99, 114, 105, 112, 116, 111, 114>> [] n = 11 -> <<82, 101, 115, 111, 117, 114, 99, 101, 32, 116, 101, 109, 112, 111, 114, 97, 114, 105, 108, 121, 32, 117, 110, 97, 118, 97, 105, 108, 97, 98, 108, 101>> [] n = 12 -> <<67, 97, 110, 110, 111, 116, 32, 97, 108, 108, 111, 99, 97, 116, 101, 32, 109, 101, 109, 111, 114, 121>>
    [] n = 13 -> <<80, 101, 114, 109, 105, 115, 115, 105, 111, 110, 32, 100, 101, 110, 105, 101, 100>> [] n = 17 -> <<70, 105, 108, 101, 32, 101, 120, 105, 115, 116, 115>> [] n = 21 -> <<73, 115, 32, 97, 32, 100, 105, 114, 101, 99, 116, 111, 114, 121>> [] n = 22 -> <<73, 110, 118, 97, 108, 105, 100, 32, 97, 114, 103, 117, 109, 101, 110, 116>> [] n = 28 -> <<78, 111, 32, 115, 112, 97, 99, 101, 32, 108, 101, 102, 116, 32, 111, 110, 32, 100, 101, 118, 105, 99, 101>> [] n = 32 -> <<66, 114, 111, 107, 101, 110, 32, 112, 105, 112, 101>> [] n = 36 -> <<70, 105, 108, 101, 32, 110, 97, 109, 101, 32, 116, 111, 111, 32, 108, 111, 110, 103>> [] n = 75 -> <<86, 97, 108, 117, 101, 32, 116, 111, 111, 32, 108, 97, 114, 103, 101, 32, 102, 111, 114, 32, 100, 101, 102, 105, 110, 101, 100, 32, 100, 97, 116, 97, 32, 116, 121, 112, 101>>
    [] n = 95 -> <<79, 112, 101, 114, 97, 116, 105, 111, 110, 32, 110, 111, 116, 32, 115, 117, 112, 112, 111, 114, 116, 101, 100>> [] OTHER -> <<85, 110, 107, 110, 111, 119, 110, 32, 101, 114, 114, 111, 114, 32>> \o DecI(n)
\* the codes with names, in the order of the names
Errc == <<97, 98, 99, 106, 7, 33, 14, 9, 74, 32, 103, 114, 111, 104, 18, 89, 16, 39, 8, 17, 27, 36, 38, 113, 43, 84, 25, 4, 22, 29, 5, 21, 90, 100, 102, 101, 105, 10, 67, 37, 61, 42, 92, 28, 63, 6, 19, 2, 3, 20, 88, 60, 107, 12, 95, 125, 115, 1, 95, 11, 130, 13, 71, 93, 30, 35, 11, 34, 131, 62, 26, 110, 23, 24, 31, 40, 75, 91>>

\* readable names: pointers to a type built in, to a name or to a name in others
Drop(t, n) == SubSeq(t, n + 1, Len(t))
Cut(t, n) == IF Len(t) > n THEN SubSeq(t, 1, n) ELSE t
Digit(c) == c \in 48..57
RECURSIVE NumLen(_, _), NumOf(_, _), Path(_, _), Stars(_)
NumLen(t, i) == IF i < Len(t) /\ i < 3 /\ Digit(t[i + 1]) THEN NumLen(t, i + 1) ELSE i
NumOf(t, n) == IF n = 0 THEN 0 ELSE (10 * NumOf(t, n - 1)) + (t[n] - 48)
\* <<whether it is one, the name, what follows>>
Ident(t) == LET k == NumLen(t, 0)  n == NumOf(t, k) IN IF k = 0 \/ n = 0 \/ Len(t) < k + n THEN <<FALSE, <<>>, t>> ELSE <<TRUE, SubSeq(t, k + 1, k + n), Drop(t, k + n)>>
\* names up to an E: <<whether, the path>>
Path(t, p) == IF t = <<69>> THEN <<p # <<>>, p>> ELSE LET d == Ident(t) IN IF ~d[1] THEN <<FALSE, <<>>>> ELSE Path(d[3], IF p = <<>> THEN d[2] ELSE p \o <<58, 58>> \o d[2])
Stars(t) == IF t = <<>> THEN <<FALSE, <<>>>> ELSE
  IF t[1] = 80 THEN LET r == Stars(Drop(t, 1)) IN <<r[1], r[2] \o <<42>>>> ELSE
  IF t[1] = 78 THEN Path(Drop(t, 1), <<>>) ELSE
  IF Len(t) = 1 /\ t[1] \in {99, 100, 105, 106, 109} THEN <<TRUE,
    CASE t[1] = 99 -> <<99, 104, 97, 114>> [] t[1] = 100 -> <<100, 111, 117, 98, 108, 101>> [] t[1] = 105 -> <<105, 110, 116>>
      [] t[1] = 106 -> <<117, 110, 115, 105, 103, 110, 101, 100, 32, 105, 110, 116>> [] OTHER -> <<117, 110, 115, 105, 103, 110, 101, 100, 32, 108, 111, 110, 103>>>>
  ELSE LET d == Ident(t) IN <<d[1] /\ d[3] = <<>>, d[2]>>
Clear(t) == IF ~Dem THEN t ELSE LET r == Stars(t) IN IF r[1] THEN r[2] ELSE t
\* room for n with the end
Readable(t, n) == LET r == Clear(t) IN IF r = t THEN t ELSE Cut(r, n - 1)
RECURSIVE Points(_)
Points(t) == IF t # <<>> /\ t[1] = 80 THEN Points(Drop(t, 1)) ELSE t
Letter(c) == c \in 97..122 \/ c = 95
\* the names given: those above and those which are no type
IsType(t) == LET u == Points(t) IN IF u = <<>> THEN TRUE ELSE IF u[1] \in {63, 113} \/ Digit(u[1]) THEN TRUE ELSE Stars(u)[1]
IsText(t) == \A i \in 1..Len(t) : t[i] \in 1..255

Num(e, i) == SubSeq(e[5], (8 * i) - 7, 8 * i)
Said2(e) == IF System(e[1]) THEN Err(e[4]) ELSE e[2]
TypeText(e) == Readable(Cut(e[2], 255), 256)
failed == <<102, 97, 105, 108, 101, 100, 32, 116, 111, 32, 97, 108, 108, 111, 99, 97, 116, 101, 32>>
bytes == <<32, 98, 121, 116, 101, 115>>
Info(e) ==
  CASE Plain(e[1]) -> What(e)
    [] e[1] = 4 -> failed \o Dec(Num(e, 1)) \o bytes
    [] e[1] = 17 -> e[3] \o spc \o e[2] \o colon \o Err(e[4])
    [] e[1] = 18 -> TypeText(e) \o <<32, 115, 116, 114, 101, 97, 109, 32>> \o e[3] \o <<58, 32, 64, 48, 120>> \o HexOf(Num(e, 1)) \o <<58, 32, 110, 101, 101, 100, 32>> \o Dec(Num(e, 2)) \o bytes
                    \o <<44, 32, 104, 97, 118, 101, 32>> \o Dec(Num(e, 3))
    [] OTHER -> Name(e) \o colon \o Said2(e)
Bar == <<124>>
\* with a format of one's own: all between bars; only the first
InfoAll(e) ==
  CASE Plain(e[1]) -> What(e)
    [] e[1] = 4 -> Bar \o Dec(Num(e, 1)) \o Bar
    [] e[1] = 17 -> Bar \o e[3] \o Bar \o e[2] \o Bar \o Err(e[4]) \o Bar
    [] e[1] = 18 -> Bar \o TypeText(e) \o Bar \o e[3] \o Bar \o Dec(Num(e, 1)) \o Bar \o Dec(Num(e, 2)) \o Bar \o Dec(Num(e, 3)) \o Bar
    [] OTHER -> Bar \o Name(e) \o Bar \o Said2(e) \o Bar
InfoFirst(e) ==
  CASE Plain(e[1]) -> What(e)
    [] e[1] = 4 -> Dec(Num(e, 1)) \o <<33>>
    [] e[1] = 17 -> e[3] \o <<33>>
    [] e[1] = 18 -> TypeText(e) \o <<33>>
    [] OTHER -> Name(e) \o <<33>>

View(e) == IF e[1] = 0 THEN <<0, <<>>, <<>>, <<>>, 0, 0, <<>>, <<>>, <<>>, 0>>
           ELSE <<Class(e[1]), What(e), Name(e), Info(e), Form(e[1]), IF System(e[1]) THEN e[4] ELSE 0, IF System(e[1]) THEN e[3] ELSE <<>>,
                  IF e[1] \in 17..18 THEN e[2] ELSE <<>>, IF e[1] = 18 THEN e[5] ELSE <<>>, e[6]>>

\* records: the form, the size after the first eight bytes, the trace, and then
Bytes4(x) == LET y == IF x < 0 THEN 16777216 + x ELSE x IN <<y % 256, (y \div 256) % 256, (y \div 65536) % 256, IF x < 0 THEN 255 ELSE 0>>
Len8(n) == (((n + 7) \div 8) * 8) - n
Str(t) == LET n == Len(t) IN (IF n < 128 THEN <<n>> ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>> ELSE <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>) \o t
\* -1: what fills up to the next eight is not known
Pad(t) == t \o [i \in 1..Len8(Len(t)) |-> -1]
Own(e) ==
  CASE Plain(e[1]) -> <<>>
    [] e[1] = 4 -> Num(e, 1)
    [] OTHER -> Pad(Str(Said2(e))) \o (IF System(e[1]) THEN Pad(Str(e[3])) \o Pad(Bytes4(e[4])) ELSE <<>>) \o (IF e[1] \in 17..18 THEN Pad(Str(e[2])) ELSE <<>>) \o (IF e[1] = 18 THEN e[5] ELSE <<>>)
At4(b, i) == b[i] + (256 * b[i + 1]) + (65536 * b[i + 2])
IsRecord(b, e) ==
  LET n == Len(b)  frames == At4(b, 9)  chars == At4(b, 13)  o == Own(e) IN
  /\ n >= 16 /\ SubSeq(b, 1, 4) = Bytes4(Form(e[1])) /\ SubSeq(b, 5, 8) = Bytes4(n - 8)
  /\ frames > 0 /\ n = 16 + chars + Len8(chars) + (8 * frames) + Len(o)
  /\ \A i \in 1..Len(o) : o[i] = -1 \/ o[i] = b[(n - Len(o)) + i]

IsS(x) == x \in 1..2
Used(x) == IsS(x) /\ st[x][1] # 0
Same(l) == UNCHANGED st /\ ret' = <<"", l>>
Put(x, e, l) == st' = [st EXCEPT ![x] = e] /\ ret' = <<"", l>>
\* text, operation, error number, numbers: those of the class
Made(k, t, o, n, b) ==
  CASE Plain(k) -> <<k, <<>>, <<>>, 0, <<>>>>
    [] k = 4 -> <<k, <<>>, <<>>, 0, SubSeq(b, 1, 8)>>
    [] Said(k) -> <<k, t, <<>>, 0, <<>>>>
    [] k \in {15, 16} -> <<k, <<>>, o, n, <<>>>>
    [] k = 17 -> <<k, Cut(t, 4095), o, n, <<>>>>
    [] OTHER -> <<k, t, o, n, b>>
Code(n, m) ==
  <<B(n # 0), B(n = m), B(n = m), B(n = m), B(n = m), B(n = m)>> \o Bytes4(n) \o Bytes4(n) \o Bytes4(m) \o Bytes4(0) \o <<Len(Err(n))>> \o Err(n) \o Err(m)

Do(op, a) ==
  CASE op = "make" -> IsS(a[1]) /\ a[2] \in 1..NK /\ IsText(a[3]) /\ IsText(a[4]) /\ IsErr(a[5]) /\ Len(a[6]) = 24 /\ a[7] # 0 /\ (IF a[2] = 18 THEN IsType(a[3]) ELSE TRUE)
                      /\ Put(a[1], Append(Made(a[2], a[3], a[4], a[5], a[6]), a[7]), <<>>)
    [] op = "drop" -> Used(a[1]) /\ Put(a[1], None, <<>>)
    [] op = "copy" -> Used(a[2]) /\ IsS(a[1]) /\ a[1] # a[2] /\ Put(a[1], st[a[2]], <<>>)
    [] op = "assign" -> Used(a[1]) /\ Used(a[2]) /\ Class(st[a[1]][1]) = Class(st[a[2]][1]) /\ Put(a[1], st[a[2]], <<>>)
    \* caught as each of the classes or not; what is caught is kept
    [] op = "throw" -> Used(a[1]) /\ Same([i \in 1..Len(Classes) |-> B(Isa(Class(st[a[1]][1]), Classes[i]))])
    \* as each of its classes by reference it is still itself
    [] op = "info" -> Used(a[1]) /\ a[2] \in 0..2 /\ LET e == st[a[1]] IN Same(CASE a[2] = 0 -> Info(e) [] a[2] = 1 -> InfoAll(e) [] OTHER -> InfoFirst(e))
    [] op = "text" -> Used(a[1]) /\ Same(Info(st[a[1]]))
    \* written, and read into another
    [] op = "wire" -> Used(a[1]) /\ (IF a[2] = <<>> THEN Kinds # {} ELSE IsRecord(a[2], st[a[1]])) /\ Same(LET n == Len(a[2]) IN <<n, n, n>>)
    [] op = "demangle" -> a[1] \in 1..1000 /\ IsType(a[2]) /\ IsText(a[2]) /\ Len(a[2]) < a[1] /\ LET r == Readable(a[2], a[1]) IN Same(<<Len(r)>> \o r)
    [] op = "code" -> IsErr(a[1]) /\ IsErr(a[2]) /\ Same(Code(a[1], a[2]))
    [] op = "codewire" -> IsErr(a[1]) /\ Same(<<4, 4, 4>> \o Bytes4(a[1]) \o Bytes4(a[1]) \o Bytes4(a[1]) \o Bytes4(a[1]))
    [] op = "errc" -> a[1] \in 1..Len(Errc) /\ Same(<<Errc[a[1]], Errc[a[1]], Errc[a[1]], 1>>)
    [] op = "fin" -> st' = <<None, None>> /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = [i \in 1..2 |-> View(st'[i])]
Init == st = <<None, None>> /\ ret = <<"", <<>>>>

Texts == {<<>>, <<120, 37, 115>>}
By24 == <<255, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255>>
Calls == IF Kinds = {} THEN {} ELSE
         {<<"make", <<1, k, t, <<111>>, n, By24, 1>>>> : k \in Kinds, t \in (IF Kinds \subseteq {18} THEN {<<>>, <<80, 105>>, <<78, 49, 97, 50, 98, 99, 69>>} ELSE Texts \cap {u \in Texts : 18 \notin Kinds \/ u = <<>>}), n \in {2, -1}}
         \cup {<<"make", <<2, k, <<122>>, <<>>, 0, By24, 2>>>> : k \in Kinds \ {18}}
         \cup {<<o, <<x, y>>>> : o \in {"copy", "assign"}, x \in 1..2, y \in 1..2} \cup {<<o, <<x>>>> : o \in {"drop", "throw", "text"}, x \in 1..2}
         \cup {<<"info", <<x, f>>>> : x \in 1..2, f \in 0..2} \cup {<<"wire", <<x, <<>>>>>> : x \in 1..2}
         \cup (IF 1 \in Kinds THEN {<<"code", <<n, m>>>> : n \in Known, m \in {0, 2, -7}} \cup {<<"codewire", <<n>>>> : n \in Known} \cup {<<"errc", <<i>>>> : i \in 1..Len(Errc)}
                \cup {<<"demangle", <<n, t>>>> : n \in {4, 5, 9, 16, 300}, t \in {<<>>, <<105>>, <<80, 80, 109>>, <<50, 97, 98>>, <<78, 49, 97, 50, 98, 99, 69>>, <<63>>, <<80>>, <<57, 97>>}} ELSE {})
Few == TLCGet("level") < 4
\* caught as its parent when as itself, by the first class always; a record is of whole eights and says how long it is
Laws == \A x \in 1..2 : LET e == st[x] IN e[1] # 0 =>
          /\ Isa(Class(e[1]), 1) /\ (Isa(Class(e[1]), 5) <=> e[1] >= 5)
          /\ Len(Own(e)) % 8 = 0
          /\ (e[1] >= 5 => Len(Info(e)) >= Len(Said2(e)))
================================================================================
