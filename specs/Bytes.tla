--------------------------------- MODULE Bytes ---------------------------------
(* Numbers as their bytes, the least first; arithmetic modulo 256^length.       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Zero(n) == [i \in 1..n |-> 0]
\* a small number in n bytes
Small(x, n) == [i \in 1..n |-> IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256 ELSE IF i = 3 THEN x \div 65536 ELSE 0]
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Sub(a, b) == AddC(a, Not(b), 1, 1)
Neg(a) == Sub(Zero(Len(a)), a)
P2 == [n \in 0..7 |-> CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] OTHER -> 128]
Bit(a, n) == (a[(n \div 8) + 1] \div P2[n % 8]) % 2
RECURSIVE Value(_, _)
Value(b, i) == IF i > 7 THEN 0 ELSE (b[i] * P2[i]) + Value(b, i + 1)
\* the number of which bit n is T(n)
FromBits(T(_), n) == [i \in 1..n |-> Value([k \in 0..7 |-> T((8 * (i - 1)) + k)], 0)]
BitAnd(a, b) == FromBits(LAMBDA n : Bit(a, n) * Bit(b, n), Len(a))
BitOr(a, b) == FromBits(LAMBDA n : (Bit(a, n) + Bit(b, n) + 1) \div 2, Len(a))
BitXor(a, b) == FromBits(LAMBDA n : (Bit(a, n) + Bit(b, n)) % 2, Len(a))
================================================================================
