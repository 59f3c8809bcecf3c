---------------------------------- MODULE Func ---------------------------------
(* Function objects (I01): operators, their bindings, negations and             *)
(* compositions, written as lists, and calls of members of objects.             *)
EXTENDS Integers, Sequences
CONSTANTS W, Signed,    \* the type of the numbers
          Vals, Codes

VARIABLES st,           \* three objects, each with two members
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Init == st = <<<<1, 2>>, <<3, 4>>, <<5, 6>>>> /\ ret = <<"", <<>>>>
Span == CASE W = 1 -> 256 [] OTHER -> 65536
\* x as a number of the type; those of four bytes are kept small
T(x) == IF W > 2 THEN x ELSE LET m == x % Span IN IF Signed = 1 /\ m >= Span \div 2 THEN m - Span ELSE m
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Quot(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE 0 - q
RECURSIVE Bits(_, _, _, _)
\* bit by bit, b telling when a bit is to be set: 1 either, 2 both, 3 one of them
Bits(x, y, n, b) ==
  LET p == x % 2  q == y % 2
      on == CASE b = 1 -> p + q > 0 [] b = 2 -> p + q = 2 [] OTHER -> p + q = 1
  IN IF n = 0 THEN (IF on THEN -1 ELSE 0) ELSE B(on) + (2 * Bits(x \div 2, y \div 2, n - 1, b))
\* 0 plus 1 minus 2 divides 3 modulus 4 multiplies 5 and 6 or 7 bit or 8 bit and 9 bit xor 10 equal 11 not equal 12 greater 13 less
\* 14 not less 15 not greater 16 compare 17 first 18 second 19 a function, 3 x - y
Binary(b, x, y) ==
  CASE b = 0 -> T(x + y) [] b = 1 -> T(x - y) [] b = 2 -> T(Quot(x, y)) [] b = 3 -> T(x - (y * Quot(x, y))) [] b = 4 -> T(x * y)
    [] b = 5 -> B(x # 0 /\ y # 0) [] b = 6 -> B(x # 0 \/ y # 0) [] b \in 7..9 -> T(Bits(x, y, 8 * W, b - 6))
    [] b = 10 -> B(x = y) [] b = 11 -> B(x # y) [] b = 12 -> B(x > y) [] b = 13 -> B(x < y) [] b = 14 -> B(x >= y) [] b = 15 -> B(x <= y)
    [] b = 16 -> (IF x < y THEN -1 ELSE B(x > y)) [] b = 17 -> x [] b = 18 -> y [] OTHER -> T((3 * x) - y)
\* division by zero has no result
Can(b, y) == b \in 0..19 /\ (b \in {2, 3} => y # 0)
Bad == <<0, 0>>
RECURSIVE Eval(_, _, _)
\* the function written from the i-th number of c on, of x: <<result, where the next is written>>
Eval(c, i, x) ==
  IF i > Len(c) THEN Bad ELSE
  CASE c[i] = 0 -> <<B(x = 0), i + 1>>
    [] c[i] = 1 -> <<T(0 - x - 1), i + 1>>
    [] c[i] = 2 -> <<T(0 - x), i + 1>>
    [] c[i] = 3 -> <<x, i + 1>>
    [] c[i] \in {4, 5} ->
         IF i + 2 > Len(c) THEN Bad
         ELSE LET b == c[i + 1]  v == T(c[i + 2])  y == IF c[i] = 4 THEN x ELSE v IN
              IF ~Can(b, y) THEN Bad ELSE <<IF c[i] = 4 THEN Binary(b, v, x) ELSE Binary(b, x, v), i + 3>>
    [] c[i] = 6 -> <<T((5 * x) + 1), i + 1>>
    [] c[i] = 7 -> LET u == Eval(c, i + 1, x) IN IF u = Bad THEN Bad ELSE <<B(u[1] = 0), u[2]>>
    \* f (g (x)): f is written first
    [] c[i] = 8 -> LET f0 == Eval(c, i + 1, 1) IN IF f0 = Bad THEN Bad ELSE
                   LET g == Eval(c, f0[2], x) IN IF g = Bad THEN Bad ELSE
                   LET f == Eval(c, i + 1, T(g[1])) IN IF f = Bad THEN Bad ELSE <<f[1], g[2]>>
    \* b (g (x), h (x))
    [] c[i] = 9 -> IF i + 1 > Len(c) THEN Bad ELSE
                   LET g == Eval(c, i + 2, x) IN IF g = Bad THEN Bad ELSE
                   LET h == Eval(c, g[2], x) IN IF h = Bad THEN Bad ELSE
                   IF ~Can(c[i + 1], T(h[1])) THEN Bad ELSE <<Binary(c[i + 1], T(g[1]), T(h[1])), h[2]>>
    [] OTHER -> Bad
Fits(x) == x = T(x)
IsObj(k) == k \in 1..3
Same(v) == UNCHANGED st /\ ret' = <<"", v>>

Do(op, a) ==
  CASE op = "unary" -> Fits(a[2]) /\ LET u == Eval(a[1], 1, a[2]) IN u # Bad /\ u[2] = Len(a[1]) + 1 /\ Same(<<u[1], u[1]>>)
    [] op = "binary" -> Fits(a[2]) /\ Fits(a[3]) /\ Can(a[1], a[3]) /\ LET v == Binary(a[1], a[2], a[3]) IN Same(<<v, v>>)
    [] op = "project" -> Fits(a[1]) /\ Same(<<a[1], a[2], a[2], a[1]>>)
    [] op = "assign" -> IsObj(a[1]) /\ Fits(a[2]) /\ Fits(a[3]) /\ st' = [st EXCEPT ![a[1]] = <<a[2], a[3]>>] /\ ret' = <<"", <<>>>>
    \* members, through pointer and reference: one more, what was; what it is
    [] op = "bump" -> IsObj(a[1]) /\ st' = [st EXCEPT ![a[1]][1] = T(@ + 1)] /\ ret' = <<"", <<st[a[1]][1]>>>>
    [] op = "get" -> IsObj(a[1]) /\ Same(<<st[a[1]][1]>>)
    \* members with an argument, of a given object
    [] op = "take" -> IsObj(a[1]) /\ Fits(a[2]) /\ LET v == T(st[a[1]][1] + a[2]) IN st' = [st EXCEPT ![a[1]][1] = v] /\ ret' = <<"", <<v>>>>
    [] op = "peek" -> IsObj(a[1]) /\ Fits(a[2]) /\ LET w == T(st[a[1]][2] - a[2])  x == T(st[a[1]][2] - T(0 - a[2])) IN Same(<<w, x>>)
    \* functions of a member variable
    [] op = "var" -> IsObj(a[1]) /\ a[2] \in 1..2 /\ LET u == Eval(a[3], 1, st[a[1]][a[2]]) IN u # Bad /\ u[2] = Len(a[3]) + 1 /\ Same(<<u[1], u[1]>>)
    [] op = "vars" -> IsObj(a[1]) /\ IsObj(a[2]) /\ a[3] \in 1..2 /\ Can(a[4], st[a[2]][a[3]]) /\ LET v == Binary(a[4], st[a[1]][a[3]], st[a[2]][a[3]]) IN Same(<<v, v>>)
    [] op = "varinc" -> IsObj(a[1]) /\ a[2] \in 1..2 /\ LET v == T(st[a[1]][a[2]] + 1) IN st' = [st EXCEPT ![a[1]][a[2]] = v] /\ ret' = <<"", <<v>>>>
    [] op = "compare" -> IsObj(a[1]) /\ IsObj(a[2]) /\ Fits(a[3]) /\
         LET x == st[a[1]]  y == st[a[2]]  c == a[3] IN Same(<<B(x[1] = c), B(x[1] < c), B(x[2] = c), B(x[2] < c), B(x[1] = y[1]), B(x[1] < y[1]), B(x[2] = y[2]), B(x[2] < y[2])>>)
    \* all of them, by algorithms: the first with a member equal, how many have one less
    [] op = "bumpall" -> st' = [k \in 1..3 |-> <<T(st[k][1] + 1), st[k][2]>>] /\ ret' = <<"", <<>>>>
    [] op = "search" -> Fits(a[1]) /\
         Same(<<IF st[1][2] = a[1] THEN 0 ELSE IF st[2][2] = a[1] THEN 1 ELSE IF st[3][2] = a[1] THEN 2 ELSE 3, B(st[1][1] < a[1]) + B(st[2][1] < a[1]) + B(st[3][1] < a[1])>>)
    [] op = "fin" -> UNCHANGED st /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

Code(k) == CASE k = 1 -> <<0>> [] k = 2 -> <<1>> [] k = 3 -> <<2>> [] k = 4 -> <<6>> [] k = 5 -> <<4, 1, 7>> [] k = 6 -> <<5, 1, 7>> [] k = 7 -> <<4, 13, 3>> [] k = 8 -> <<5, 13, 3>>
             [] k = 9 -> <<7, 5, 16, 2>> [] k = 10 -> <<8, 5, 1, 2, 2>> [] k = 11 -> <<8, 2, 4, 1, 5>> [] k = 12 -> <<9, 1, 2, 4, 1, 3>> [] k = 13 -> <<9, 2, 4, 1, 9, 3>>
             [] k = 14 -> <<7, 8, 5, 13, 4, 2>> [] OTHER -> <<8, 8, 2, 4, 1, 2, 9, 0, 3, 2>>
Calls == {<<"unary", <<Code(k), x>>>> : k \in Codes, x \in Vals} \cup {<<"binary", <<b, x, y>>>> : b \in 0..19, x \in Vals, y \in Vals}
         \cup {<<"assign", <<1, x, y>>>> : x \in Vals, y \in Vals} \cup {<<o, <<k, x>>>> : o \in {"bump", "get", "take", "peek", "varinc"}, k \in 1..2, x \in 0..2}
         \cup {<<"var", <<1, m, Code(k)>>>> : m \in 1..2, k \in Codes} \cup {<<"vars", <<1, 2, m, b>>>> : m \in 1..2, b \in 0..18} \cup {<<"compare", <<1, 2, x>>>> : x \in Vals}
         \cup {<<"bumpall", <<>>>>} \cup {<<"search", <<x>>>> : x \in Vals}
\* the model stays near where it began
Near == (\A m \in 1..2 : Abs(st[1][m]) <= 6 \/ st[1][m] \in Vals) /\ (\A k \in 2..3 : \A m \in 1..2 : Abs(st[k][m] - ((2 * k) + m - 2)) <= 1)
Laws == \A x \in Vals : \A y \in Vals :
          /\ Binary(9, x, y) = Binary(1, Binary(7, x, y), Binary(8, x, y))
          /\ Binary(0, Binary(7, x, y), Binary(8, x, y)) = Binary(0, x, y)
          /\ (y # 0) => T((Binary(2, x, y) * y) + Binary(3, x, y)) = x
          /\ Binary(16, x, y) = 0 - Binary(16, y, x)
================================================================================
