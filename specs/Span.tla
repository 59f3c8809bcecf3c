---------------------------------- MODULE Span ---------------------------------
(* Durations and points in time, in units of different lengths and numbers of   *)
(* different widths, times with a part in nanoseconds, and rational numbers     *)
(* (D01).                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes
CONSTANTS Vals, Units

VARIABLES st,           \* <<durations, one of each unit; two times in seconds and nanoseconds>>
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
\* a unit as its powers of two, three, five, seven and 487 in seconds
Len3(a, b, c) == <<a, b, c, 0, 0>>
Unit(u) ==
  CASE u = 1 -> Len3(-9, 0, -9) [] u = 2 -> Len3(-6, 0, -6) [] u = 3 -> Len3(-3, 0, -3) [] u = 4 -> Len3(0, 0, 0) [] u = 5 -> Len3(2, 1, 1)
    [] u = 6 -> Len3(4, 2, 2) [] u = 7 -> Len3(7, 3, 2) [] u = 8 -> <<7, 3, 2, 1, 0>> [] u = 9 -> <<5, 4, 2, 0, 1>> [] u = 10 -> <<3, 3, 2, 0, 1>>
    [] u = 11 -> <<7, 4, 4, 0, 1>> [] u = 12 -> <<8, 4, 5, 0, 1>>
    \* of four bytes: a hundred millionth, a second; of two, a hundredth; three halves; of one, an hour
    [] u = 13 -> Len3(-8, 0, -8) [] u = 14 -> Len3(-2, 0, -2) [] u = 15 -> Len3(0, 0, 0) [] u = 16 -> Len3(-1, 1, 0) [] OTHER -> Len3(4, 2, 2)
NU == 17
Wide(u) == CASE u = 13 \/ u = 15 -> 4 [] u = 14 -> 2 [] u = 17 -> 1 [] OTHER -> 8
Prime(i) == CASE i = 1 -> 2 [] i = 2 -> 3 [] i = 3 -> 5 [] i = 4 -> 7 [] OTHER -> 487
N == 24                 \* bytes in a number on the way
RECURSIVE MulC(_, _, _, _), DivC(_, _, _, _)
MulC(a, k, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == (a[i] * k) + c IN <<s % 256>> \o MulC(a, k, i + 1, s \div 256)
DivC(a, k, i, r) == IF i = 0 THEN <<>> ELSE LET s == (r * 256) + a[i] IN DivC(a, k, i - 1, s % k) \o <<s \div k>>
Minus(a) == a[Len(a)] >= 128
Mag(a) == IF Minus(a) THEN Neg(a) ELSE a
Ext(a) == a \o [i \in 1..(N - Len(a)) |-> IF Minus(a) THEN 255 ELSE 0]
Fits(a, w) == \A i \in (w + 1)..Len(a) : a[i] = (IF a[w] >= 128 THEN 255 ELSE 0)
Cut(a) == SubSeq(a, 1, 8)
MulS(a, k) == MulC(a, k, 1, 0)
\* toward zero
DivS(a, k) == LET q == DivC(Mag(a), k, Len(a), 0) IN IF Minus(a) THEN Neg(q) ELSE q
Zeroes(a) == \A i \in 1..Len(a) : a[i] = 0
Less(a, b) == Minus(Sub(a, b))
RECURSIVE MulP(_, _, _), DivP(_, _, _)
MulP(a, k, n) == IF n <= 0 THEN a ELSE MulP(MulS(a, k), k, n - 1)
DivP(a, k, n) == IF n <= 0 THEN a ELSE DivP(DivS(a, k), k, n - 1)
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(a, p, i) == IF i > 5 THEN a ELSE Up(MulP(a, Prime(i), p[i]), p, i + 1)
Down(a, p, i) == IF i > 5 THEN a ELSE Down(DivP(a, Prime(i), 0 - p[i]), p, i + 1)
Ratio(v, u) == [i \in 1..5 |-> Unit(v)[i] - Unit(u)[i]]
\* x of unit v, in unit u; the product on the way is of a number of 64 bits
Product(x, v, u) == Up(Ext(x), Ratio(v, u), 1)
Conv(x, v, u) == Down(Product(x, v, u), Ratio(v, u), 1)
CanConv(x, v, u) == {u, v} # {1, 12} /\ Fits(Product(x, v, u), 8) /\ Fits(Conv(x, v, u), Wide(u))
\* without a cast: nothing is lost
Exact(v, u) == \A i \in 1..5 : Ratio(v, u)[i] >= 0
\* widest units in which both are whole
IsU(u) == u \in 1..NU
D(u) == st[1][u]
SetD(u, x) == st' = <<[st[1] EXCEPT ![u] = Cut(x)], st[2]>> /\ ret' = <<"", <<>>>>
Same(l) == UNCHANGED st /\ ret' = <<"", l>>

\* times of seconds and nanoseconds, together in nanoseconds
Nanos(h) == Add(MulS(MulS(MulS(Ext(h[1]), 1000), 1000), 1000), Ext(<<h[2] % 256, (h[2] \div 256) % 256, (h[2] \div 65536) % 256, h[2] \div 16777216>>))
Giga(a) == DivS(DivS(DivS(a, 1000), 1000), 1000)
Times(a) == MulS(MulS(MulS(a, 1000), 1000), 1000)
IntOf(a) == a[1] + (256 * a[2]) + (65536 * a[3]) + (16777216 * a[4])
\* the seconds not greater, and what is left, below 10^9
Split(a) == LET q == Giga(a)  s == IF Minus(Sub(a, Times(q))) THEN Sub(q, Ext(<<1, 0>>)) ELSE q IN <<s, IntOf(Sub(a, Times(s)))>>
FitsT(a) == Fits(Split(a)[1], 8)
T(h) == Nanos(st[2][h])
SetT(h, a) == LET s == Split(a) IN st' = <<st[1], [st[2] EXCEPT ![h] = <<Cut(s[1]), s[2]>>]>> /\ ret' = <<"", <<>>>>
IsH(h) == h \in 1..2
NanosIn(a, u) == Down(Up(a, Ratio(1, u), 1), Ratio(1, u), 1)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Low(n, d) == LET g == Gcd(AbsI(n), AbsI(d))  s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, AbsI(d) \div g>>
\* the fractions given to the templates
Frac(i) == CASE i = 1 -> <<0, 1>> [] i = 2 -> <<1, 1>> [] i = 3 -> <<-1, 1>> [] i = 4 -> <<2, 6>> [] i = 5 -> <<4, 15>> [] i = 6 -> <<6, -4>> [] i = 7 -> <<-10, -25>>
             [] i = 8 -> <<60, 1>> [] i = 9 -> <<1, 1000>> [] i = 10 -> <<999, 1000>> [] i = 11 -> <<1000, 7>> [] i = 12 -> <<0, -9>> [] i = 13 -> <<-3, 7>> [] OTHER -> <<36, 84>>
NF == 14
Cross(p, q) == (p[1] * q[2]) - (q[1] * p[2])

\* texts
RECURSIVE Digits(_)
Digits(a) == LET q == DivC(a, 10, Len(a), 0)  d == IntOf(Sub(a, MulS(q, 10))) IN (IF Zeroes(q) THEN <<>> ELSE Digits(q)) \o <<48 + d>>
Dec(a) == IF Minus(a) THEN <<45>> \o Digits(Neg(a)) ELSE Digits(a)
DecI(x) == Dec(IF x < 0 THEN Neg(Small(0 - x, 8)) ELSE Small(x, 8))
Pad(s, n) == [i \in 1..(n - Len(s)) |-> 48] \o s
Suffix(u) ==    \* _ns _us _ms _s _min _hours _days _weeks _years _months _centuries _millenia
  CASE u = 1 -> <<95, 110, 115>> [] u = 2 -> <<95, 117, 115>> [] u = 3 -> <<95, 109, 115>> [] u = 4 -> <<95, 115>> [] u = 5 -> <<95, 109, 105, 110>>
    [] u = 6 -> <<95, 104, 111, 117, 114, 115>> [] u = 7 -> <<95, 100, 97, 121, 115>> [] u = 8 -> <<95, 119, 101, 101, 107, 115>> [] u = 9 -> <<95, 121, 101, 97, 114, 115>>
    [] u = 10 -> <<95, 109, 111, 110, 116, 104, 115>> [] u = 11 -> <<95, 99, 101, 110, 116, 117, 114, 105, 101, 115>> [] u = 12 -> <<95, 109, 105, 108, 108, 101, 110, 105, 97>> [] OTHER -> <<>>
Bytes4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216, 0, 0, 0, 0>>

Init == st = <<[u \in 1..NU |-> Zero(8)], <<<<Zero(8), 0>>, <<Zero(8), 0>>>>>> /\ ret = <<"", <<>>>>
IsNum(x) == Len(x) = 8
Do(op, a) ==
  CASE op = "set" -> IsU(a[1]) /\ IsNum(a[2]) /\ Fits(a[2], Wide(a[1])) /\ SetD(a[1], a[2])
    \* a[3] tells whether these are durations or points in time
    [] op = "cast" -> IsU(a[1]) /\ IsU(a[2]) /\ CanConv(D(a[2]), a[2], a[1]) /\ SetD(a[1], Conv(D(a[2]), a[2], a[1]))
    [] op = "convert" -> IsU(a[1]) /\ IsU(a[2]) /\ Exact(a[2], a[1]) /\ CanConv(D(a[2]), a[2], a[1]) /\ SetD(a[1], Conv(D(a[2]), a[2], a[1]))
    [] op \in {"add", "sub"} -> IsU(a[1]) /\ IsU(a[2]) /\ Exact(a[2], a[1]) /\ CanConv(D(a[2]), a[2], a[1]) /\
         LET x == Ext(D(a[1]))  y == Conv(D(a[2]), a[2], a[1])  z == IF op = "add" THEN Add(x, y) ELSE Sub(x, y) IN Fits(z, Wide(a[1])) /\ SetD(a[1], z)
    [] op = "step" -> IsU(a[1]) /\ a[2] \in 0..3 /\ LET x == Ext(D(a[1]))  o == Ext(<<1, 0>>)  z == IF a[2] < 2 THEN Add(x, o) ELSE Sub(x, o) IN
         Fits(z, Wide(a[1])) /\ st' = <<[st[1] EXCEPT ![a[1]] = Cut(z)], st[2]>> /\ ret' = <<"", IF a[2] % 2 = 0 THEN Cut(z) ELSE Cut(x)>>
    [] op = "neg" -> IsU(a[1]) /\ LET z == Neg(Ext(D(a[1]))) IN Fits(z, Wide(a[1])) /\ SetD(a[1], z)
    [] op \in {"mul", "div", "mod"} -> IsU(a[1]) /\ a[2] \in -120..120 /\ (op # "mul" => a[2] # 0) /\
         LET x == Ext(D(a[1]))  k == AbsI(a[2])  q == DivS(x, k)
             z == CASE op = "mul" -> IF a[2] < 0 THEN Neg(MulS(x, k)) ELSE MulS(x, k) [] op = "div" -> IF a[2] < 0 THEN Neg(q) ELSE q [] OTHER -> Sub(x, MulS(q, k)) IN
         Fits(z, Wide(a[1])) /\ SetD(a[1], z)
    [] op = "moddur" -> IsU(a[1]) /\ a[2] \in 1..120 /\ LET x == Ext(D(a[1])) IN SetD(a[1], Sub(x, MulS(DivS(x, a[2]), a[2])))
    \* equal, less; one of them can be given in the unit of the other
    [] op = "compare" -> IsU(a[1]) /\ IsU(a[2]) /\
         (LET u == IF Exact(a[1], a[2]) THEN a[2] ELSE a[1]  v == IF u = a[2] THEN a[1] ELSE a[2] IN
          Exact(v, u) /\ CanConv(D(v), v, u) /\ (Exact(u, v) => CanConv(D(u), u, v)) /\
          LET x == IF u = a[2] THEN Conv(D(a[1]), a[1], u) ELSE Ext(D(a[1]))  y == IF u = a[2] THEN Ext(D(a[2])) ELSE Conv(D(a[2]), a[2], u) IN
          Same(<<B(x = y), B(Less(x, y))>>))
    [] op = "limits" -> IsU(a[1]) /\ LET w == Wide(a[1]) IN Same([i \in 1..8 |-> 0] \o [i \in 1..8 |-> IF i < w THEN 0 ELSE IF i = w THEN 128 ELSE 255] \o [i \in 1..8 |-> IF i < w THEN 255 ELSE IF i = w THEN 127 ELSE 0])
    [] op = "diff" -> IsU(a[1]) /\ IsU(a[2]) /\ Exact(a[2], a[1]) /\ CanConv(D(a[2]), a[2], a[1]) /\
         LET z == Sub(Ext(D(a[1])), Conv(D(a[2]), a[2], a[1])) IN Fits(z, Wide(a[1])) /\ Same(Cut(z))
    \* times of seconds and nanoseconds
    [] op = "hset" -> IsH(a[1]) /\ IsNum(a[2]) /\ a[3] \in 0..999999999 /\ st' = <<st[1], [st[2] EXCEPT ![a[1]] = <<a[2], a[3]>>]>> /\ ret' = <<"", <<>>>>
    [] op = "hnanos" -> IsH(a[1]) /\ IsNum(a[2]) /\ SetT(a[1], Ext(a[2]))
    [] op \in {"hadd", "hsub"} -> IsH(a[1]) /\ IsH(a[2]) /\ LET z == IF op = "hadd" THEN Add(T(a[1]), T(a[2])) ELSE Sub(T(a[1]), T(a[2])) IN FitsT(z) /\ SetT(a[1], z)
    [] op \in {"hmul", "hdiv"} -> IsH(a[1]) /\ a[2] \in -1000000..1000000 /\ (op = "hdiv" => a[2] # 0) /\
         LET k == AbsI(a[2])  m == IF op = "hmul" THEN MulS(T(a[1]), k) ELSE DivS(T(a[1]), k)  z == IF a[2] < 0 THEN Neg(m) ELSE m IN FitsT(z) /\ SetT(a[1], z)
    [] op = "hstep" -> IsH(a[1]) /\ a[2] \in 0..3 /\ LET x == T(a[1])  o == Ext(<<1, 0>>)  z == IF a[2] < 2 THEN Add(x, o) ELSE Sub(x, o)  w == Split(IF a[2] % 2 = 0 THEN z ELSE x)  s == Split(z) IN
         FitsT(z) /\ st' = <<st[1], [st[2] EXCEPT ![a[1]] = <<Cut(s[1]), s[2]>>]>> /\ ret' = <<"", Cut(w[1]) \o <<w[2]>>>>
    [] op = "hneg" -> IsH(a[1]) /\ LET z == Neg(T(a[1])) IN FitsT(z) /\ SetT(a[1], z)
    [] op = "hcompare" -> IsH(a[1]) /\ IsH(a[2]) /\ Same(<<B(T(a[1]) = T(a[2])), B(Less(T(a[1]), T(a[2]))), B(~Less(T(a[1]), T(a[2])))>>)
    [] op = "hint" -> IsH(a[1]) /\ Fits(T(a[1]), 8) /\ Same(Cut(T(a[1])))
    \* to and from durations
    [] op = "hto" -> IsH(a[1]) /\ IsU(a[2]) /\ a[2] \notin {12, 16} /\
         Fits(Up(T(a[1]), Ratio(1, a[2]), 1), 8) /\ LET z == NanosIn(T(a[1]), a[2]) IN Fits(z, Wide(a[2])) /\ SetD(a[2], z)
    [] op = "hfrom" -> IsH(a[1]) /\ IsU(a[2]) /\ CanConv(D(a[2]), a[2], 1) /\ SetT(a[1], Conv(D(a[2]), a[2], 1))
    [] op \in {"haddd", "hsubd"} -> IsH(a[1]) /\ IsU(a[2]) /\ CanConv(D(a[2]), a[2], 1) /\
         LET y == Conv(D(a[2]), a[2], 1)  z == IF op = "haddd" THEN Add(T(a[1]), y) ELSE Sub(T(a[1]), y) IN FitsT(z) /\ SetT(a[1], z)
    \* the sum, difference, product and quotient in lowest terms; how the two compare
    [] op = "ratio" -> a[1] \in 1..NF /\ a[2] \in 1..NF /\
         LET p == Frac(a[1])  q == Frac(a[2])  u == Low(p[1], p[2])  v == Low(q[1], q[2])  c == Cross(u, v) IN
         Same(u \o v \o Low((p[1] * q[2]) + (q[1] * p[2]), p[2] * q[2]) \o Low((p[1] * q[2]) - (q[1] * p[2]), p[2] * q[2]) \o Low(p[1] * q[1], p[2] * q[2])
              \o (IF q[1] = 0 THEN <<0, 0>> ELSE Low(p[1] * q[2], p[2] * q[1])) \o <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>)
    \* as text; as bytes, read back
    [] op = "text" -> IsU(a[1]) /\ a[1] # 17 /\ Same(Dec(D(a[1])) \o Suffix(a[1]))
    [] op = "wire" -> IsU(a[1]) /\ Same(SubSeq(D(a[1]), 1, Wide(a[1])))
    [] op = "htext" -> IsH(a[1]) /\ LET h == st[2][a[1]] IN ~Minus(h[1]) /\ Same(Dec(h[1]) \o <<46>> \o Pad(DecI(h[2]), 9))
    [] op = "hwire" -> IsH(a[1]) /\ Same(st[2][a[1]][1] \o Bytes4(st[2][a[1]][2]))
    [] op = "hlimits" -> IsH(a[1]) /\ LET z == [i \in 1..8 |-> 0] IN Same(z \o <<0>> \o [i \in 1..8 |-> IF i = 8 THEN 128 ELSE 0] \o <<0>> \o [i \in 1..8 |-> IF i = 8 THEN 127 ELSE 255] \o <<999999999>>)
    [] op = "rtext" -> a[1] \in 1..NF /\ LET p == Frac(a[1])  l == Low(p[1], p[2]) IN Same(DecI(l[1]) \o <<47>> \o DecI(l[2]))
    \* a clock shows a time from before it is asked to after
    [] op = "clock" -> a[1] \in 1..6 /\ Same(<<1, 1>>)
    [] op = "timet" -> IsU(a[1]) /\ a[1] = 4 /\ Same(D(4) \o D(4))
    [] op = "fin" -> st' = st /\ ret' = <<"", <<>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

Num(x) == IF x < 0 THEN Neg(Small(0 - x, 8)) ELSE Small(x, 8)
Calls == {<<"set", <<u, Num(x)>>>> : u \in Units, x \in Vals} \cup {<<o, <<u, v, p>>>> : o \in {"cast", "convert", "add", "sub", "compare", "diff"}, u \in Units, v \in Units, p \in 0..1}
         \cup {<<"step", <<u, k>>>> : u \in Units, k \in 0..3} \cup {<<"neg", <<u>>>> : u \in Units} \cup {<<o, <<u, x>>>> : o \in {"mul", "div", "mod", "moddur"}, u \in Units, x \in Vals}
         \cup {<<o, <<u, p>>>> : o \in {"limits", "text", "wire"}, u \in Units, p \in 0..1}
         \cup (IF Vals = {} THEN {} ELSE {<<"rtext", <<i>>>> : i \in 1..NF} \cup {<<"clock", <<i>>>> : i \in 1..6} \cup {<<"timet", <<4>>>>})
         \cup (IF Vals = {} THEN {} ELSE {<<"ratio", <<x, y>>>> : x \in 1..NF, y \in 1..NF})
\* states explored: near those numbers
Two == TLCGet("level") < 4 /\ Cardinality({u \in 1..NU : D(u) \notin {Num(x) : x \in Vals}}) <= 1 /\ \A u \in 1..NU : Fits(D(u), 2)
\* converting to a finer unit and back changes nothing, to a coarser one and back takes less than one of that
Laws == \A u \in Units : \A v \in Units :
          /\ Exact(v, u) => Conv(Cut(Conv(D(v), v, u)), u, v) = Ext(D(v))
          /\ Exact(u, v) => LET x == Ext(D(v))  y == Conv(Cut(Conv(D(v), v, u)), u, v) IN ~Less(Mag(x), Mag(y)) /\ Less(Sub(Mag(x), Mag(y)), Conv(Small(1, 8), u, v))
          /\ (Exact(v, u) \/ Exact(u, v)) /\ ~Minus(D(u)) => ~Minus(Conv(D(u), u, v))
================================================================================
