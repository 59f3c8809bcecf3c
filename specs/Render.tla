------------------------------- MODULE Render --------------------------------
(* What values look like as text: the renderings used by text streams (T01),  *)
(* buffered files (F02), durations (D01) and exceptions (E01).  Numbers are   *)
(* sequences of 16 bit limbs, least significant first, and floating point     *)
(* values are sign, whole part and 1/256 parts, so that every digit is exact. *)
EXTENDS Integers, Sequences
LOCAL B(c) == IF c THEN 1 ELSE 0
LOCAL Bit(v, i) == (v \div i) % 2
LOCAL Min(a, b) == IF a < b THEN a ELSE b
LOCAL Max(a, b) == IF a > b THEN a ELSE b
LOCAL Rep(n, v) == [i \in 1..n |-> v]
RECURSIVE AllZero(_)
AllZero(q) == q = <<>> \/ (q[1] = 0 /\ AllZero(Tail(q)))

(* ---- integers ---- *)
\* the limbs divided by a small number: quotient limbs and remainder
RECURSIVE DivL(_, _)
DivL(q, d) == IF q = <<>> THEN [q |-> <<>>, r |-> 0]
              ELSE LET h == DivL(Tail(q), d)  x == (h.r * 65536) + q[1] IN [q |-> <<x \div d>> \o h.q, r |-> x % d]
RECURSIVE Digs(_, _)
Digs(q, d) == IF AllZero(q) THEN <<>> ELSE LET x == DivL(q, d) IN Append(Digs(x.q, d), x.r)
Digits(q, d) == LET g == Digs(q, d) IN IF g = <<>> THEN <<0>> ELSE g
Negative(q) == q[Len(q)] >= 32768
RECURSIVE AddOne(_)
AddOne(q) == IF q = <<>> THEN <<>> ELSE IF q[1] = 65535 THEN <<0>> \o AddOne(Tail(q)) ELSE <<q[1] + 1>> \o Tail(q)
Negate(q) == AddOne([i \in 1..Len(q) |-> 65535 - q[i]])
Limbs32(v) == IF v >= 0 THEN <<v % 65536, v \div 65536>> ELSE LET u == -(v + 1) IN <<65535 - (u % 65536), 65535 - (u \div 65536)>>
\* digits as characters
Chars(g, up) == [i \in 1..Len(g) |-> IF g[i] < 10 THEN 48 + g[i] ELSE (IF up THEN 55 ELSE 87) + g[i]]
Dec(n) == Chars(Digits(Limbs32(n), 10), FALSE)
DecS(n) == IF n < 0 THEN <<45>> \o Chars(Digits(Negate(Limbs32(n)), 10), FALSE) ELSE Dec(n)

(* ---- settings ---- *)
ShowBase == 2  ShowPos == 8  Upper == 64  OctF == 256  HexF == 512  SciF == 2048  LeftF == 4096
On(f, b) == Bit(f, b) = 1
\* sign or prefix, digits, in a field of w
Field(f, w, fi, sign, digits) ==
  LET n == Len(sign) + Len(digits)  pad == Max(w - n, 0) IN
  IF On(f, LeftF) THEN sign \o digits \o Rep(pad, 32)
  ELSE IF fi = 48 THEN sign \o Rep(pad, 48) \o digits
  ELSE Rep(pad, 32) \o sign \o digits
\* an integer of the limbs q, signed or not
IntT(f, w, fi, sgn, q) ==
  IF On(f, HexF) THEN Field(f, w, fi, IF On(f, ShowBase) /\ ~AllZero(q) THEN <<48, IF On(f, Upper) THEN 88 ELSE 120>> ELSE <<>>, Chars(Digits(q, 16), On(f, Upper)))
  ELSE IF On(f, OctF) THEN LET g == Chars(Digits(q, 8), FALSE) IN Field(f, w, fi, <<>>, IF On(f, ShowBase) /\ g[1] # 48 THEN <<48>> \o g ELSE g)
  ELSE IF sgn /\ Negative(q) THEN Field(f, w, fi, <<45>>, Chars(Digits(Negate(q), 10), FALSE))
  ELSE Field(f, w, fi, IF sgn /\ On(f, ShowPos) THEN <<43>> ELSE <<>>, Chars(Digits(q, 10), FALSE))

(* ---- floating point: whole + part/256 ---- *)
RECURSIVE FracDigits(_, _)
FracDigits(r, n) == IF n = 0 THEN <<>> ELSE <<(r * 10) \div 256>> \o FracDigits((r * 10) % 256, n - 1)
RECURSIVE Inc(_)
\* one more in the last digit, possibly one digit longer
Inc(g) == IF g = <<>> THEN <<1>> ELSE IF g[Len(g)] < 9 THEN [g EXCEPT ![Len(g)] = @ + 1] ELSE Append(Inc(SubSeq(g, 1, Len(g) - 1)), 0)
\* n digits of g, the rest rounded, ties to even
Rounded(g, n) ==
  IF n >= Len(g) THEN g \o Rep(n - Len(g), 0)
  ELSE LET k == SubSeq(g, 1, n)  d == g[n + 1]  rest == SubSeq(g, n + 2, Len(g))
           odd == n > 0 /\ g[n] % 2 = 1
       IN IF d > 5 \/ (d = 5 /\ ~AllZero(rest)) \/ (d = 5 /\ odd) THEN Inc(k) ELSE k
Fixed(f, w, fi, neg, whole, part, pr) ==
  LET a == Digits(Limbs32(whole), 10)
      r == Rounded(a \o FracDigits(part, 8), Len(a) + pr)
      n == Len(r) - pr
  IN Field(f, w, fi, IF neg = 1 THEN <<45>> ELSE <<>>, Chars(SubSeq(r, 1, n), FALSE) \o (IF pr > 0 THEN <<46>> \o Chars(SubSeq(r, n + 1, Len(r)), FALSE) ELSE <<>>))
RECURSIVE Lead0(_)
Lead0(g) == IF g = <<>> \/ g[1] # 0 THEN 0 ELSE 1 + Lead0(Tail(g))
Sci(f, w, fi, neg, whole, part, pr) ==
  LET a == Digits(Limbs32(whole), 10)
      g == a \o FracDigits(part, 8)
      z == Lead0(g)
      zero == z = Len(g)
      r0 == IF zero THEN Rep(pr + 1, 0) ELSE Rounded(SubSeq(g, z + 1, Len(g)), pr + 1)
      over == Len(r0) > pr + 1
      e == IF zero THEN 0 ELSE (Len(a) - 1 - z) + B(over)
      r == Chars(r0, FALSE)
      ae == Dec(IF e < 0 THEN -e ELSE e)
  IN Field(f, w, fi, IF neg = 1 THEN <<45>> ELSE <<>>,
           <<r[1]>> \o (IF pr > 0 THEN <<46>> \o SubSeq(r, 2, pr + 1) ELSE <<>>) \o <<69, IF e < 0 THEN 45 ELSE 43>> \o (IF Len(ae) < 2 THEN <<48>> ELSE <<>>) \o ae)
Float(f, w, fi, neg, whole, part, pr) == IF On(f, SciF) THEN Sci(f, w, fi, neg, whole, part, pr) ELSE Fixed(f, w, fi, neg, whole, part, pr)

Bool(v) == IF v = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
\* a character as UTF-8
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* a byte as an element of a container
Printable(v) == v >= 32 /\ v < 127
ByteElement(v) == IF Printable(v) THEN <<39, v, 39>> ELSE DecS(v)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
List(q) == <<40>> \o Join(q, <<44>>) \o <<41>>
=============================================================================
