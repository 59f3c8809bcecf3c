-------------------------------- MODULE Fixed --------------------------------
(* Fixed-size arrays, tuples, packed operations and matrices (C08).           *)
(* Kind: element type: i8 u8 i16 u16 i32 u32, or f for floating point (whole  *)
(* values only). Unsigned 32 bit elements are written as their signed         *)
(* reinterpretation. A matrix has NX columns and NY rows, NX * NY = N.        *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
CONSTANTS Kind, N, NX, NY, NT, MaxIn
VARIABLES ts, ret
vars == <<ts>>
Bits == CASE Kind \in {"i8", "u8"} -> 8 [] Kind \in {"i16", "u16"} -> 16 [] OTHER -> 32
Unsigned == Kind \in {"u8", "u16", "u32"}

(* ---- arithmetic modulo the width, on 16 bit halves ---- *)
Lo(x) == x % 65536
Hi(x) == (x \div 65536) % 65536
\* the element with these halves
Norm(h, l) ==
  CASE Bits = 32 -> (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + l
    [] Bits = 16 -> IF Unsigned \/ l < 32768 THEN l ELSE l - 65536
    [] OTHER -> LET b == l % 256 IN IF Unsigned \/ b < 128 THEN b ELSE b - 256
AddM(a, b) == LET l == Lo(a) + Lo(b) IN Norm((Hi(a) + Hi(b) + l \div 65536) % 65536, l % 65536)
SubM(a, b) == LET l == Lo(a) - Lo(b) IN Norm((Hi(a) - Hi(b) + l \div 65536) % 65536, l % 65536)
\* 16 x 16 bits: high and low half of the product
P16(a, b) == LET p0 == a * (b % 256) p1 == a * (b \div 256) l == (p0 % 65536) + (p1 % 256) * 256
             IN <<(p0 \div 65536 + p1 \div 256 + l \div 65536) % 65536, l % 65536>>
MulM(a, b) == LET p == P16(Lo(a), Lo(b)) IN Norm((p[1] + P16(Lo(a), Hi(b))[2] + P16(Hi(a), Lo(b))[2]) % 65536, p[2])
Abs(x) == IF x < 0 THEN -x ELSE x
Quo(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
DivM(a, b) == LET q == Quo(a, b) IN Norm(Hi(q), Lo(q))
Lt(a, b) == IF Kind = "u32" /\ (a < 0) # (b < 0) THEN a >= 0 ELSE a < b
F == Kind = "f"
Add(a, b) == IF F THEN a + b ELSE AddM(a, b)
Sub(a, b) == IF F THEN a - b ELSE SubM(a, b)
Mul(a, b) == IF F THEN a * b ELSE MulM(a, b)
Div(a, b) == IF F THEN Quo(a, b) ELSE DivM(a, b)
\* what the element type can divide: 32 bit values TLC has, no trap, whole floats
Divisible(a, b) == b # 0 /\ (Kind = "u32" => a >= 0 /\ b > 0) /\ (Kind = "i32" => a > -2147483647 /\ b > -2147483647) /\ (F => Quo(a, b) * b = a)
Bw(op, a, b) == LET f(x, y) == CASE op = "and" -> x & y [] op = "or" -> x | y [] op = "xor" -> x ^^ y
                IN Norm(f(Hi(a), Hi(b)), f(Lo(a), Lo(b)))
Min(a, b) == IF Lt(b, a) THEN b ELSE a
Max(a, b) == IF Lt(a, b) THEN b ELSE a
Avg(a, b) == Quo(a + b + 1, 2)           \* for elements narrower than 32 bits
Avgable == Bits < 32 /\ ~F
Op(o, a, b) == CASE o = "add" -> Add(a, b) [] o = "sub" -> Sub(a, b) [] o = "mul" -> Mul(a, b) [] o = "div" -> Div(a, b)
                 [] o \in {"and", "or", "xor"} -> Bw(o, a, b)
                 [] o = "min" -> Min(a, b) [] o = "max" -> Max(a, b) [] o = "avg" -> Avg(a, b)
                 [] o = "subs" -> IF Lt(a, b) THEN 0 ELSE Sub(a, b)
                 [] o = "shl" -> Mul(a, 2 ^ b) [] o = "shr" -> a \div 2 ^ b

K == 1..NT
Zero == [i \in 1..N |-> 0]
B(x) == IF x THEN 1 ELSE 0
Init == ts = [k \in K |-> Zero] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Put(k, t) == ts' = [ts EXCEPT ![k] = t] /\ Ret(<<>>)
Same == UNCHANGED ts
Ok(o, s, t) == o = "div" => \A i \in 1..N : Divisible(s[i], t[i])
Zip(o, s, t) == [i \in 1..N |-> Op(o, s[i], t[i])]
Const(v) == [i \in 1..N |-> v]
\* the first values, the last one repeated
Spread(s) == [i \in 1..N |-> IF i <= Len(s) THEN s[i] ELSE s[Len(s)]]
Pad(s) == [i \in 1..N |-> IF i <= Len(s) THEN s[i] ELSE 0]
RECURSIVE LexLess(_, _, _)
LexLess(s, t, i) == i <= N /\ (Lt(s[i], t[i]) \/ (s[i] = t[i] /\ LexLess(s, t, i + 1)))
At(t, y, x) == t[(y - 1) * NX + x]
Mat(f(_, _)) == [i \in 1..N |-> f((i - 1) \div NX + 1, ((i - 1) % NX) + 1)]
RECURSIVE Sum(_, _, _)
Sum(f(_), i, n) == IF i > n THEN 0 ELSE IF i = n THEN f(i) ELSE Add(f(i), Sum(f, i + 1, n))
Dot(s, t, y, x) == LET f(q) == Mul(At(s, y, q), At(t, q, x)) IN Sum(f, 1, NX)
Prod(s, t) == LET f(y, x) == Dot(s, t, y, x) IN Mat(f)
VecMat(v, t) == [x \in 1..NX |-> LET f(q) == Mul(v[q], At(t, q, x)) IN Sum(f, 1, NY)]
Transposed(t) == LET f(y, x) == At(t, x, y) IN Mat(f)
Identity == LET f(y, x) == B(y = x) IN Mat(f)

Arith == {"add", "sub", "mul", "div"}
Do(op, a) ==
  CASE op \in {"set", "from_ptr", "copy_of"} -> Put(a[1], a[2])
    [] op = "init" -> Put(a[1], Pad(a[2]))
    [] op = "spread" -> Put(a[1], Spread(a[2]))
    [] op \in {"zero"} -> Put(a[1], Zero)
    [] op = "fill" -> Put(a[1], Const(a[2]))
    [] op \in {"copy", "new_copy", "convert"} -> Put(a[1], ts[a[2]])
    [] op = "swap" -> ts' = [ts EXCEPT ![a[1]] = ts[a[2]], ![a[2]] = ts[a[1]]] /\ Ret(<<>>)
    [] op = "put" -> Put(a[1], [ts[a[1]] EXCEPT ![a[2]] = a[3]])
    \* t op= t2, t = t1 op t2
    [] op = "to" -> LET o == a[2] IN Put(a[1], ts[a[1]])
    [] op \in {"add_to", "sub_to", "mul_to", "div_to"} ->
         LET o == CASE op = "add_to" -> "add" [] op = "sub_to" -> "sub" [] op = "mul_to" -> "mul" [] OTHER -> "div" IN
         Ok(o, ts[a[1]], ts[a[2]]) /\ Put(a[1], Zip(o, ts[a[1]], ts[a[2]]))
    [] op \in Arith -> Ok(op, ts[a[2]], ts[a[3]]) /\ Put(a[1], Zip(op, ts[a[2]], ts[a[3]]))
    [] op \in {"add_v", "sub_v", "mul_v", "div_v"} ->          \* t = t1 op value
         LET o == CASE op = "add_v" -> "add" [] op = "sub_v" -> "sub" [] op = "mul_v" -> "mul" [] OTHER -> "div" IN
         Ok(o, ts[a[2]], Const(a[3])) /\ Put(a[1], Zip(o, ts[a[2]], Const(a[3])))
    [] op \in {"add_tov", "sub_tov", "mul_tov", "div_tov"} ->  \* t op= value
         LET o == CASE op = "add_tov" -> "add" [] op = "sub_tov" -> "sub" [] op = "mul_tov" -> "mul" [] OTHER -> "div" IN
         Ok(o, ts[a[1]], Const(a[2])) /\ Put(a[1], Zip(o, ts[a[1]], Const(a[2])))
    [] op \in {"add_l", "sub_l", "mul_l", "div_l"} ->          \* t op= list, which may be shorter
         LET o == CASE op = "add_l" -> "add" [] op = "sub_l" -> "sub" [] op = "mul_l" -> "mul" [] OTHER -> "div"
             t == ts[a[1]] IN
         /\ o = "div" => \A i \in 1..Len(a[2]) : Divisible(t[i], a[2][i])
         /\ Put(a[1], [i \in 1..N |-> IF i <= Len(a[2]) THEN Op(o, t[i], a[2][i]) ELSE t[i]])
    \* packed: t = t op t2
    [] op \in {"p_add", "p_sub", "p_mul", "p_div", "p_and", "p_or", "p_xor", "p_min", "p_max", "p_avg", "p_subs", "p_shl", "p_shr"} ->
         LET o == CASE op = "p_add" -> "add" [] op = "p_sub" -> "sub" [] op = "p_mul" -> "mul" [] op = "p_div" -> "div" [] op = "p_and" -> "and" [] op = "p_or" -> "or"
                    [] op = "p_xor" -> "xor" [] op = "p_min" -> "min" [] op = "p_max" -> "max" [] op = "p_avg" -> "avg" [] op = "p_subs" -> "subs" [] op = "p_shl" -> "shl" [] OTHER -> "shr" IN
         /\ Ok(o, ts[a[1]], ts[a[2]])
         /\ o \in {"and", "or", "xor"} => ~F
         /\ o = "avg" => Avgable
         /\ o = "subs" => Unsigned
         /\ o \in {"shl", "shr"} => (~F /\ \A i \in 1..N : ts[a[2]][i] >= 0 /\ ts[a[2]][i] < 8 /\ ts[a[1]][i] >= 0)
         /\ Put(a[1], Zip(o, ts[a[1]], ts[a[2]]))
    [] op = "compare" -> Same /\ LET s == ts[a[1]] t == ts[a[2]] IN Ret(<<B(s = t), B(s # t), B(LexLess(s, t, 1)), B(LexLess(t, s, 1)), B(~LexLess(t, s, 1)), B(~LexLess(s, t, 1))>>)
    [] op = "query" -> Same /\ LET t == ts[a[1]] IN Ret(<<N, B(N = 0)>> \o t)
    \* matrices
    [] op = "row" -> Same /\ Ret([x \in 1..NX |-> At(ts[a[1]], a[2] + 1, x)])
    [] op = "column" -> Same /\ Ret([y \in 1..NY |-> At(ts[a[1]], y, a[2] + 1)])
    [] op = "transpose" -> NX = NY /\ Put(a[1], Transposed(ts[a[1]]))
    [] op = "identity" -> NX = NY /\ Put(a[1], Identity)
    [] op = "matmul" -> NX = NY /\ Put(a[1], Prod(ts[a[2]], ts[a[3]]))
    [] op = "vecmat" -> Same /\ Ret(VecMat(a[2], ts[a[1]]))
    [] op = "fin" -> ts' = [k \in K |-> Zero] /\ Ret(<<0>>)
    [] OTHER -> FALSE
\* last the bytes around the objects that changed
Observe(s) == s = <<ts', 0>>

(* ---- exhaustive model: every operation on every combination of Vals ---- *)
Vals == CASE Kind = "u8" -> {0, 1, 2, 128, 255} [] Kind = "i8" -> {0, 1, -1, 127, -128} [] Kind = "u16" -> {0, 3, 255, 32768, 65535}
          [] Kind = "i16" -> {0, 1, -1, 32767, -32768} [] Kind = "i32" -> {0, 1, -2, 2147483647, -2147483647 - 1} [] Kind = "u32" -> {0, 1, -1, 2147483647, -2147483647 - 1}
          [] OTHER -> {0, 1, -2, 3}
In == [1..N -> Vals]
Shorts == UNION {[1..n -> Vals] : n \in 0..N}
Calls ==
  IF \E k \in K : \E i \in 1..N : ts[k][i] \notin Vals
  THEN {<<"set", <<k, Zero>>>> : k \in {j \in K : \E i \in 1..N : ts[j][i] \notin Vals}}
  ELSE UNION {
    {<<"put", <<k, i, v>>>> : i \in 1..N, v \in Vals}
    \cup {<<o, <<k, t>>>> : o \in {"from_ptr", "set"}, t \in IF MaxIn = 0 THEN {} ELSE In}
    \cup {<<"init", <<k, t>>>> : t \in Shorts} \cup {<<"spread", <<k, t>>>> : t \in Shorts \ {<<>>}}
    \cup {<<"zero", <<k>>>>, <<"query", <<k>>>>} \cup {<<"fill", <<k, v>>>> : v \in Vals}
    \cup {<<o, <<k, v>>>> : o \in {"add_tov", "sub_tov", "mul_tov", "div_tov"}, v \in Vals}
    \cup {<<o, <<k, t>>>> : o \in {"add_l", "sub_l", "mul_l", "div_l"}, t \in {s \in Shorts : Len(s) < 2}}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy", "convert", "swap", "compare", "add_to", "sub_to", "mul_to", "div_to", "p_add", "p_sub", "p_mul", "p_div", "p_and", "p_or", "p_xor", "p_min", "p_max", "p_avg", "p_subs", "p_shl", "p_shr"}}
                \cup {<<o, <<k, j, v>>>> : o \in {"add_v", "sub_v", "mul_v", "div_v"}, v \in Vals}
                \cup {<<o, <<k, j, i>>>> : o \in Arith, i \in K}
                : j \in K}
    \cup (IF NX = 1 THEN {} ELSE
          {<<"row", <<k, y>>>> : y \in 0..(NY - 1)} \cup {<<"column", <<k, x>>>> : x \in 0..(NX - 1)}
          \cup {<<o, <<k>>>> : o \in {"transpose", "identity"}} \cup {<<"matmul", <<k, i, j>>>> : i \in K, j \in K})
    : k \in K}
\* the algebra, checked on the model's states
Typed == \A k \in K, i \in 1..N : F \/ Norm(Hi(ts[k][i]), Lo(ts[k][i])) = ts[k][i]
AddSub == \A s, t \in {ts[k] : k \in K} : \A i \in 1..N : ~F => Sub(Add(s[i], t[i]), t[i]) = s[i] /\ Mul(s[i], t[i]) = Mul(t[i], s[i])
Transposes == NX = NY => \A k \in K : Transposed(Transposed(ts[k])) = ts[k] /\ Prod(ts[k], Identity) = ts[k] /\ Prod(Identity, ts[k]) = ts[k]
=============================================================================
