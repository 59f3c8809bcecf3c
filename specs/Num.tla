---------------------------------- MODULE Num ----------------------------------
(* Numeric algorithms and integer utilities (A05).  A number is its bytes, the  *)
(* least first, W of them; arithmetic is that of the bytes, modulo 256^W.       *)
(* Arrays are the bytes of their numbers.  There is no state: every call gives  *)
(* what its definition says.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, Signed, Vals, MaxLen
VARIABLES st, ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Init == st = <<>> /\ ret = <<"", <<>>>>
Zero(n) == [i \in 1..n |-> 0]
\* a small number in n bytes
Small(x, n) == [i \in 1..n |-> IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256 ELSE IF i = 3 THEN x \div 65536 ELSE 0]
One == Small(1, W)
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Sub(a, b) == AddC(a, Not(b), 1, 1)
Neg(a) == Sub(Zero(Len(a)), a)
RECURSIVE Column(_, _, _, _)
Column(a, b, k, i) == IF i > k THEN 0 ELSE (a[i] * b[k + 1 - i]) + Column(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == Column(a, b, k, 1) + c IN <<s % 256>> \o MulC(a, b, k + 1, s \div 256)
Mul(a, b) == MulC(a, b, 1, 0)
RECURSIVE LessU(_, _, _)
LessU(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessU(a, b, i - 1)
Flip(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
Less(a, b) == IF Signed = 1 THEN LessU(Flip(a), Flip(b), W) ELSE LessU(a, b, W)
Negative(a) == Signed = 1 /\ a[W] >= 128
Abs(a) == IF Negative(a) THEN Neg(a) ELSE a
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
P2 == [n \in 0..7 |-> CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] OTHER -> 128]
Bit(a, n) == (a[(n \div 8) + 1] \div P2[n % 8]) % 2
RECURSIVE Value(_, _)
Value(b, i) == IF i > 7 THEN 0 ELSE (b[i] * P2[i]) + Value(b, i + 1)
\* the number of which bit n is T(n)
FromBits(T(_), n) == [i \in 1..n |-> Value([k \in 0..7 |-> T((8 * (i - 1)) + k)], 0)]
Rotl(a, n) == FromBits(LAMBDA k : Bit(a, (k + (8 * W) - n) % (8 * W)), W)
Ones(a) == Cardinality({n \in 0..((8 * Len(a)) - 1) : Bit(a, n) = 1})
TopBit(a) == LET S == {n \in 0..((8 * Len(a)) - 1) : Bit(a, n) = 1} IN CHOOSE x \in S : \A y \in S : x >= y
Wide(a) == a \o <<0>>
Thin(a) == SubSeq(a, 1, Len(a) - 1)
RECURSIVE DivStep(_, _, _, _, _)
\* bit by bit from the top: <<quotient, remainder>>
DivStep(a, b, n, q, r) ==
  IF n < 0 THEN <<q, Thin(r)>>
  ELSE LET d == Add(r, r)  e == [d EXCEPT ![1] = @ + Bit(a, n)]  fit == ~LessU(e, b, Len(b)) IN
       DivStep(a, b, n - 1, IF fit THEN [q EXCEPT ![(n \div 8) + 1] = @ + P2[n % 8]] ELSE q, IF fit THEN Sub(e, b) ELSE e)
DivMod(a, b) == DivStep(a, Wide(b), (8 * W) - 1, Zero(W), Zero(W + 1))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF IsZero(b) THEN a ELSE Gcd(b, DivMod(a, b)[2])
\* far from overflow
Tame(a) == a[W] < 64 \/ (Signed = 1 /\ a[W] >= 192)
Least(a) == Signed = 1 /\ a = [i \in 1..W |-> IF i = W THEN 128 ELSE 0]
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE Mul(Pow(x, n - 1), x)
RECURSIVE PowMod(_, _, _)
PowMod(x, n, m) == IF n = 0 THEN One ELSE LET p == PowMod(x, n - 1, m) IN IF IsZero(p) THEN p ELSE LET q == Mul(p, x) IN IF IsZero(q) THEN q ELSE DivMod(q, m)[2]

(* arrays *)
Num(l, i) == SubSeq(l, ((i - 1) * W) + 1, i * W)
Nums(l) == [i \in 1..(Len(l) \div W) |-> Num(l, i)]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* what function objects are given, that mind their order: 2a + b and a - b
F2(x, y) == Add(Add(x, x), y)
\* the sum, 1: by that function
Sum(c, x, y) == IF c = 1 THEN F2(x, y) ELSE Add(x, y)
RECURSIVE Fold(_, _, _)
Fold(s, x, c) == IF s = <<>> THEN x ELSE Fold(Tail(s), Sum(c, x, Head(s)), c)
RECURSIVE Scan(_, _, _)
Scan(s, x, c) == IF s = <<>> THEN <<>> ELSE LET y == Sum(c, x, Head(s)) IN <<y>> \o Scan(Tail(s), y, c)
RECURSIVE Count(_, _)
Count(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Count(Add(x, One), n - 1)
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
Is(l) == UNCHANGED st /\ ret' = <<"", l>>
\* written over an area of one more than that
Out(s) == Is(<<Len(s)>> \o Flat(s) \o [i \in 1..W |-> 119])

(* <<operation, way of walking (1: from behind), ...>> *)
Do(op, a) ==
  LET v == LET u == Nums(a[2]) IN IF a[1] = 1 THEN Rev(u) ELSE u
      \* function objects, 0: the form without
      D(p, q) == IF a[3] = 1 THEN F2(p, q) ELSE Sub(p, q)
      T(p, q) == IF a[3] = 1 THEN Sub(p, q) ELSE Mul(p, q)
      x == a[1]  y == a[2]
  IN
  CASE op = "accumulate" -> Is(Fold(v, a[4], a[3]))
    [] op = "inner" -> LET w == Nums(a[5]) IN Len(w) >= Len(v) /\ Is(Fold([i \in 1..Len(v) |-> T(v[i], w[i])], a[4], a[3]))
    [] op = "partial_sum" -> Out(IF v = <<>> THEN <<>> ELSE <<v[1]>> \o Scan(Tail(v), v[1], a[3]))
    [] op = "difference" -> Out([i \in 1..Len(v) |-> IF i = 1 THEN v[1] ELSE D(v[i], v[i - 1])])
    [] op = "iota" -> Out(Count(a[2], a[1]))
    [] op = "power" -> Is(Pow(x, a[2]))
    \* multiplying modulo a[3]
    [] op = "power_op" -> LessU(x, a[3], W) /\ LessU(One, a[3], W) /\ (IF W = 1 THEN a[3][1] < 16 \div (1 + Signed) ELSE (\A i \in 1..W : 2 * i > W => a[3][i] = 0) /\ a[3][W \div 2] < 256 \div (1 + Signed)) /\ Is(PowMod(x, a[2], a[3]))
    [] op = "minmax" -> Is(IF Less(y, x) THEN y \o x ELSE x \o y)
    [] op = "absv" -> ~Least(x) /\ Is(Abs(x))
    [] op = "sign" -> Is(IF IsZero(x) THEN x ELSE IF Negative(x) THEN Neg(One) ELSE One)
    [] op = "align" -> ~Negative(x) /\ ~Negative(y) /\ Tame(x) /\ Tame(y) /\ ~IsZero(y) /\
                       LET m == DivMod(x, y)[2]  d == Sub(x, m) IN Is(d \o (IF IsZero(m) THEN x ELSE Add(d, y)))
    [] op = "divru" -> Tame(x) /\ Tame(y) /\ ~Negative(y) /\ ~IsZero(y) /\
                       LET q == DivMod(Abs(x), y)  u == IF IsZero(q[2]) THEN q[1] ELSE Add(q[1], One) IN Is(IF Negative(x) THEN Neg(u) ELSE u)
    [] op = "gcd" -> ~Least(x) /\ ~Least(y) /\ Is(Gcd(Abs(x), Abs(y)))
    \* with the sign of the product
    [] op = "lcm" -> ~Least(x) /\ ~Least(y) /\ ~(IsZero(x) /\ IsZero(y)) /\
                     LET l == Mul(DivMod(Abs(x), Gcd(Abs(x), Abs(y)))[1], Abs(y)) IN Is(IF Negative(x) = Negative(y) THEN l ELSE Neg(l))
    [] op = "rotate" -> Signed = 0 /\ a[2] \in 0..((8 * W) - 1) /\ Is(Rotl(x, a[2]) \o Rotl(x, ((8 * W) - a[2]) % (8 * W)))
    \* bswap; then what is little endian and big endian in memory, and back
    [] op = "bytes" -> Is(Rev(x) \o x \o Rev(x) \o x \o x)
    [] op = "mask" -> a[1] \in 1..(8 * W) /\ Is(FromBits(LAMBDA k : B(k < a[1]), W))
    \* copies of a[1] of one byte and of the two of a[2]
    [] op = "pack" -> Is([i \in 1..W |-> a[1]] \o (IF W < 2 THEN <<>> ELSE [i \in 1..W |-> a[2][2 - (i % 2)]]))
    [] op = "bits" -> W >= 4 /\ Is(<<IF IsZero(x) THEN a[2] ELSE TopBit(x), Ones(x)>>)
    \* the least power not below x; nothing fits above 2^31, and 1 counts as 2
    [] op = "pow2" -> W = 4 /\ Signed = 0 /\
                      LET big == LessU(<<0, 0, 0, 128>>, x, 4)  t == IF IsZero(x) \/ x = One THEN 0 ELSE TopBit(Sub(x, One)) + 1 IN
                      Is(IF big \/ IsZero(x) THEN One ELSE IF x = One THEN Small(2, 4) ELSE FromBits(LAMBDA k : B(k = t), W))
    [] op = "constants" -> Is(<<1, 1>>)
    [] op = "fin" -> UNCHANGED st /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

N1 == {Small(x, W) : x \in Vals} \cup {Neg(Small(x, W)) : x \in Vals}
Lists(n) == UNION {[1..x -> N1] : x \in 0..n}
Calls ==
  {<<"accumulate", <<m, Flat(s), c, x>>>> : m \in 0..1, s \in Lists(MaxLen), c \in 0..1, x \in N1}
  \cup {<<"inner", <<m, Flat(s), c, x, Flat(s) \o x>>>> : m \in 0..1, s \in Lists(MaxLen), c \in 0..1, x \in N1}
  \cup {<<o, <<m, Flat(s), c>>>> : o \in {"partial_sum", "difference"}, m \in 0..1, s \in Lists(MaxLen + 1), c \in 0..1}
  \cup {<<"iota", <<n, x>>>> : n \in 0..5, x \in N1} \cup {<<"power", <<x, n>>>> : n \in 0..9, x \in N1} \cup {<<"power_op", <<x, n, y>>>> : n \in 0..9, x \in N1, y \in N1}
  \cup {<<o, <<x, y>>>> : o \in {"minmax", "align", "divru", "gcd", "lcm"}, x \in N1, y \in N1}
  \cup {<<o, <<x, 70>>>> : o \in {"absv", "sign", "bytes", "bits", "pow2"}, x \in N1} \cup {<<"rotate", <<x, n>>>> : x \in N1, n \in 0..63} \cup {<<"mask", <<n>>>> : n \in 1..64}
  \cup {<<"pack", <<x, <<x, y>>>>>> : x \in {0, 1, 200}, y \in {7, 255}} \cup {<<"constants", <<>>>>}
\* the laws the operations on bytes must satisfy
Laws == \A p \in N1, q \in N1 :
  /\ Sub(Add(p, q), q) = p /\ Mul(p, q) = Mul(q, p) /\ Mul(p, Add(q, One)) = Add(Mul(p, q), p) /\ Neg(Neg(p)) = p
  /\ (~IsZero(q) => LET d == DivMod(p, q) IN Add(Mul(d[1], q), d[2]) = p /\ LessU(d[2], q, W))
  /\ (~IsZero(p) \/ ~IsZero(q)) => (LET g == Gcd(p, q) IN IsZero(DivMod(p, g)[2]) /\ IsZero(DivMod(q, g)[2]) /\ Gcd(DivMod(p, g)[1], DivMod(q, g)[1]) = One)
  /\ \A n \in 0..((8 * W) - 1) : Rotl(Rotl(p, n), ((8 * W) - n) % (8 * W)) = p
================================================================================
