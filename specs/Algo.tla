--------------------------------- MODULE Algo ---------------------------------
(* The algorithms over ranges (A01, A02, A03).  The state is two arrays of    *)
(* elements; a call names a range of one of them, walked forward or, through  *)
(* a reverse iterator, backward.  Elements have a key, by which they compare, *)
(* and may have more in them that tells equal ones apart.  What is written to *)
(* another place goes to an area of its own, all of which is the result.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tags,         \* 1 when elements are key * 8 + tag, 0 when they are keys
          MaxLen, Vals, Part

VARIABLES st,           \* <<array 1, array 2>>
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Cut(q, b, e) == SubSeq(q, b + 1, e)
Rev(q) == [n \in 1..Len(q) |-> q[Len(q) + 1 - n]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Key(e) == IF Tags = 1 THEN e \div 8 ELSE e
Blank == 125
\* what function objects the calls are given, by number; 0 is the form without one
Eqv(c, x, y) == CASE c = 0 -> Key(x) = Key(y) [] c = 1 -> Key(x) % 2 = Key(y) % 2 [] OTHER -> Key(x) \div 4 = Key(y) \div 4
Less(c, x, y) == CASE c = 0 -> Key(x) < Key(y) [] c = 1 -> Key(y) < Key(x) [] OTHER -> Key(x) \div 4 < Key(y) \div 4
P(c, x) == CASE c = 0 -> Key(x) % 2 = 0 [] c = 1 -> Key(x) > 2 [] OTHER -> Key(x) % 3 = 1
Fn(c, x) == (x + c) % 120
Fn2(c, x, y) == (x + (2 * y) + c) % 120

\* the range [i,j) of array k, as walked
View(k, m, i, j) == LET v == Cut(st[k], i, j) IN IF m = 2 THEN Rev(v) ELSE v
Put(k, m, i, j, w) == [st EXCEPT ![k] = Cut(@, 0, i) \o (IF m = 2 THEN Rev(w) ELSE w) \o Cut(@, j, Len(@))]
Init == st = <<<<>>, <<>>>> /\ ret = <<"", <<>>>>
Ret(l) == ret' = <<"", l>>
Is(l) == UNCHANGED st /\ Ret(l)
\* w written at place d of an area of z blanks, and where it ended
Area(z, d, w) == [n \in 1..z |-> IF n > d /\ n <= d + Len(w) THEN w[n - d] ELSE Blank]
Out(z, d, w) == Is(<<Len(w)>> \o Area(z, d, w))
Fits(z, d, w) == d + Len(w) <= z

(* ---- searching and comparing ---- *)
First(v, T(_)) == LET S == {n \in 0..(Len(v) - 1) : T(v[n + 1])} IN IF S = {} THEN Len(v) ELSE Least(S)
Pick(v, T(_)) == SelectSeq(v, T)
Adjacent(v, c) == LET S == {n \in 0..(Len(v) - 2) : Eqv(c, v[n + 1], v[n + 2])} IN IF S = {} THEN Len(v) ELSE Least(S)
Differ(v, w, c) == LET S == {n \in 0..(Len(v) - 1) : ~Eqv(c, v[n + 1], w[n + 1])} IN IF S = {} THEN Len(v) ELSE Least(S)
Occurs(v, w, c) == {n \in 0..(Len(v) - Len(w)) : \A x \in 1..Len(w) : Eqv(c, v[n + x], w[x])}
Search(v, w, c) == LET S == Occurs(v, w, c) IN IF S = {} THEN Len(v) ELSE Least(S)
FindEnd(v, w, c) == LET S == Occurs(v, w, c) IN IF S = {} THEN Len(v) ELSE Most(S)
SearchN(v, n, x, c) == Search(v, [y \in 1..n |-> x], c)
FirstOf(v, w, c) == First(v, LAMBDA x : \E n \in 1..Len(w) : Eqv(c, x, w[n]))
RECURSIVE LexLess(_, _, _)
LexLess(v, w, c) == IF w = <<>> THEN FALSE ELSE IF v = <<>> THEN TRUE
                    ELSE IF Less(c, v[1], w[1]) THEN TRUE ELSE IF Less(c, w[1], v[1]) THEN FALSE ELSE LexLess(Tail(v), Tail(w), c)
MaxAt(v, c) == {n \in 0..(Len(v) - 1) : \A x \in 1..Len(v) : ~Less(c, v[n + 1], v[x])}
MinAt(v, c) == {n \in 0..(Len(v) - 1) : \A x \in 1..Len(v) : ~Less(c, v[x], v[n + 1])}

(* ---- reordering ---- *)
RECURSIVE Unique(_, _)
Unique(v, c) == IF Len(v) < 2 THEN v ELSE IF Eqv(c, v[1], v[2]) THEN Unique(<<v[1]>> \o Cut(v, 2, Len(v)), c) ELSE <<v[1]>> \o Unique(Tail(v), c)
Swapped(v, x, y) == [v EXCEPT ![x + 1] = v[y + 1], ![y + 1] = v[x + 1]]
Rotated(v, x) == Cut(v, x, Len(v)) \o Cut(v, 0, x)
Count(v, x) == Cardinality({n \in 1..Len(v) : v[n] = x})
Permuted(v, w) == Len(v) = Len(w) /\ \A n \in 1..Len(v) : Count(v, v[n]) = Count(w, v[n])
Parted(v, c) == Pick(v, LAMBDA x : P(c, x)) \o Pick(v, LAMBDA x : ~P(c, x))
Kept(op, v, y) == CASE op = "remove" -> Pick(v, LAMBDA x : Key(x) # Key(y)) [] op = "remove_if" -> Pick(v, LAMBDA x : ~P(y, x)) [] OTHER -> Unique(v, y)
Rest(v, w) == Cut(v, Len(w), Len(v))

(* ---- sorted ranges ---- *)
Sorted(v, c) == \A n \in 1..(Len(v) - 1) : ~Less(c, v[n + 1], v[n])
Lower(v, x, c) == First(v, LAMBDA y : ~Less(c, y, x))
Upper(v, x, c) == First(v, LAMBDA y : Less(c, x, y))
\* x behind everything not greater
Inserted(v, x, c) == LET n == Upper(v, x, c) IN Cut(v, 0, n) \o <<x>> \o Cut(v, n, Len(v))
RECURSIVE StableSort(_, _, _)
StableSort(v, c, w) == IF v = <<>> THEN w ELSE StableSort(Tail(v), c, Inserted(w, v[1], c))
Merged(v, w, c) == StableSort(v \o w, c, <<>>)
Equals(v, x, c) == Pick(v, LAMBDA y : ~Less(c, x, y) /\ ~Less(c, y, x))
\* the set operations, one class of equal elements after the other
Chosen(how, p, q) ==
  CASE how = "union" -> p \o Cut(q, Min(Len(p), Len(q)), Len(q))
    [] how = "intersection" -> Cut(p, 0, Min(Len(p), Len(q)))
    \* which of the equal ones go is not said
    [] how = "difference" -> Cut(p, Min(Len(p), Len(q)), Len(p))
    [] OTHER -> IF Len(p) > Len(q) THEN Cut(p, Len(q), Len(p)) ELSE Cut(q, Len(p), Len(q))
RECURSIVE Classes(_, _, _, _)
Classes(v, w, c, how) ==
  IF v = <<>> /\ w = <<>> THEN <<>>
  ELSE LET x == IF v = <<>> THEN w[1] ELSE IF w = <<>> THEN v[1] ELSE IF Less(c, w[1], v[1]) THEN w[1] ELSE v[1]
           p == Equals(v, x, c)  q == Equals(w, x, c)
       IN Chosen(how, p, q) \o Classes(Cut(v, Len(p), Len(v)), Cut(w, Len(q), Len(w)), c, how)
Union(v, w, c) == Classes(v, w, c, "union")
Intersection(v, w, c) == Classes(v, w, c, "intersection")
Difference(v, w, c) == Classes(v, w, c, "difference")
Symmetric(v, w, c) == Classes(v, w, c, "symmetric")
Combined(op, v, w, c) ==
  CASE op = "merge" -> Merged(v, w, c) [] op = "union" -> Union(v, w, c) [] op = "intersection" -> Intersection(v, w, c)
    [] op = "difference" -> Difference(v, w, c) [] op = "symmetric" -> Symmetric(v, w, c) [] OTHER -> <<>>
Includes(v, w, c) == \A n \in 1..Len(w) : Len(Equals(v, w[n], c)) >= Len(Equals(w, w[n], c))
\* the next arrangement in the order of c, the first one behind the last
NextP(v, c) ==
  LET S == {n \in 1..(Len(v) - 1) : Less(c, v[n], v[n + 1])} IN
  IF S = {} THEN <<0, Rev(v)>>
  ELSE LET n == Most(S)  m == Most({x \in (n + 1)..Len(v) : Less(c, v[n], v[x])})  u == Swapped(v, n - 1, m - 1)
       IN <<1, Cut(u, 0, n) \o Rev(Cut(u, n, Len(u)))>>
Flip(c) == IF c = 0 THEN 1 ELSE 0
\* the first x of w are the first in order of v, all of which are there
PartlySorted(v, x, c, w) == Permuted(v, w) /\ Sorted(Cut(w, 0, x), c) /\ (x > 0 => \A n \in (x + 1)..Len(w) : ~Less(c, w[n], w[x]))

(* A call: <<mode, array, begin, end, ...>>; modes 0 pointers, 1 and 3 the container, 2 reverse iterators *)
Do(op, a) ==
  LET m == a[1]  k == a[2]  i == a[3]  j == a[4]  v == View(k, m, i, j)  o == 3 - k
      Ok == i <= j /\ j <= Len(st[k]) /\ (m % 2 = 1 => i = 0 /\ j = Len(st[k]))
      Set(w) == st' = Put(k, m, i, j, w)
  IN
  CASE op = "set" -> st' = [st EXCEPT ![a[1]] = a[2]] /\ Ret(<<>>)
    [] op = "fin" -> st' = <<<<>>, <<>>>> /\ Ret(<<0>>)
    [] op = "find" -> Ok /\ Is(<<First(v, LAMBDA x : Key(x) = Key(a[5]))>>)
    [] op = "find_if" -> Ok /\ Is(<<First(v, LAMBDA x : P(a[5], x))>>)
    [] op = "count" -> Ok /\ Is(<<Len(Pick(v, LAMBDA x : Key(x) = Key(a[5])))>>)
    [] op = "count_if" -> Ok /\ Is(<<Len(Pick(v, LAMBDA x : P(a[5], x)))>>)
    [] op = "for_each" -> Ok /\ Is(v)
    [] op = "adjacent" -> Ok /\ Is(<<Adjacent(v, a[5])>>)
    \* with the range of the same length of the other array, from a[6]
    [] op \in {"mismatch", "equal"} -> Ok /\ a[6] + j - i <= Len(st[o]) /\
         LET n == Differ(v, View(o, m, a[6], a[6] + j - i), a[5]) IN Is(IF op = "equal" THEN <<B(n = j - i)>> ELSE <<n, n>>)
    \* with the range [a[6],a[7]) of the other array
    [] op \in {"search", "find_end", "first_of", "lexcmp"} -> Ok /\ a[6] <= a[7] /\ a[7] <= Len(st[o]) /\
         LET w == Cut(st[o], a[6], a[7]) IN
         Is(<<CASE op = "search" -> Search(v, w, a[5]) [] op = "find_end" -> FindEnd(v, w, a[5]) [] op = "first_of" -> FirstOf(v, w, a[5])
                [] OTHER -> B(LexLess(v, w, a[5]))>>)
    [] op = "search_n" -> Ok /\ Is(<<SearchN(v, a[6], a[7], a[5])>>)
    \* the first of the greatest, and of the least; which greatest one minmax_element gives is not said
    [] op = "extremes" -> Ok /\ Is(IF v = <<>> THEN <<0, 0>> ELSE <<Least(MinAt(v, a[5])), Least(MaxAt(v, a[5]))>>)
    [] op = "minmax" -> Ok /\ UNCHANGED st /\ (IF v = <<>> THEN Ret(<<0, 0>>) ELSE ret' \in {<<"", <<Least(MinAt(v, a[5])), x>>>> : x \in MaxAt(v, a[5])})
    \* of two values, of a list of them, and one kept within limits; which of two equal ones is the less is not said
    [] op = "values" -> UNCHANGED st /\ ret' \in {<<"", <<Key(p[1]), Key(p[2])>>>> : p \in {q \in {<<a[2], a[3]>>, <<a[3], a[2]>>} : ~Less(a[4], q[2], q[1])}}
    [] op = "listed" -> Ok /\ m # 2 /\ v # <<>> /\ Is(<<Key(v[Least(MinAt(v, a[5])) + 1]), Key(v[Least(MaxAt(v, a[5])) + 1])>>)
    [] op = "clamp" -> ~Less(a[5], a[4], a[3]) /\ Is(<<Key(IF Less(a[5], a[2], a[3]) THEN a[3] ELSE IF Less(a[5], a[4], a[2]) THEN a[4] ELSE a[2])>>)

    \* written at a[6] of an area of a[5]
    [] op = "copy" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], v)
    [] op = "copy_backward" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], v)
    [] op = "copy_if" -> Ok /\ LET w == Pick(v, LAMBDA x : P(a[7], x)) IN Fits(a[5], a[6], w) /\ Out(a[5], a[6], w)
    [] op = "reverse_copy" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], Rev(v))
    [] op = "rotate_copy" -> Ok /\ a[7] <= Len(v) /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], Rotated(v, a[7]))
    [] op = "transform" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], [n \in 1..Len(v) |-> Fn(a[7], v[n])])
    [] op = "transform2" -> Ok /\ a[8] + Len(v) <= Len(st[o]) /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], [n \in 1..Len(v) |-> Fn2(a[7], v[n], st[o][a[8] + n])])
    [] op = "replace_copy" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], [n \in 1..Len(v) |-> IF Key(v[n]) = Key(a[7]) THEN a[8] ELSE v[n]])
    [] op = "replace_copy_if" -> Ok /\ Fits(a[5], a[6], v) /\ Out(a[5], a[6], [n \in 1..Len(v) |-> IF P(a[7], v[n]) THEN a[8] ELSE v[n]])
    [] op = "remove_copy" -> Ok /\ LET w == Pick(v, LAMBDA x : Key(x) # Key(a[7])) IN Fits(a[5], a[6], w) /\ Out(a[5], a[6], w)
    [] op = "remove_copy_if" -> Ok /\ LET w == Pick(v, LAMBDA x : ~P(a[7], x)) IN Fits(a[5], a[6], w) /\ Out(a[5], a[6], w)
    \* all but those at the places a[7]
    [] op = "remove_copy_at" -> Ok /\ Fits(a[5], a[6], v) /\
         LET S == {n \in 1..Len(v) : \A x \in 1..Len(a[7]) : a[7][x] # n - 1}
             w == [n \in 1..Cardinality(S) |-> v[CHOOSE x \in S : Cardinality({y \in S : y <= x}) = n]]
         IN Out(a[5], a[6], w)
    [] op = "unique_copy" -> Ok /\ LET w == Unique(v, a[7]) IN Fits(a[5], a[6], w) /\ Out(a[5], a[6], w)
    [] op = "fill_n" -> a[3] + a[4] <= a[2] /\ Out(a[2], a[3], [n \in 1..a[4] |-> a[5]])
    [] op = "generate_n" -> a[3] + a[4] <= a[2] /\ Out(a[2], a[3], [n \in 1..a[4] |-> (a[5] + n) % 120])
    \* within the array: from [i,j) to a[5] on its left, and to a[5] on its right
    [] op = "shift" -> Ok /\ m # 2 /\ a[5] <= i /\ Ret(<<j - i>>) /\ st' = [st EXCEPT ![k] = Cut(@, 0, a[5]) \o v \o Cut(@, a[5] + j - i, Len(@))]
    [] op = "shift_right" -> Ok /\ m # 2 /\ a[5] >= i /\ a[5] + j - i <= Len(st[k]) /\ Ret(<<a[5]>>) /\ st' = [st EXCEPT ![k] = Cut(@, 0, a[5]) \o v \o Cut(@, a[5] + j - i, Len(@))]
    [] op = "fill" -> Ok /\ Set([n \in 1..Len(v) |-> a[5]]) /\ Ret(<<>>)
    [] op = "generate" -> Ok /\ Set([n \in 1..Len(v) |-> (a[5] + n) % 120]) /\ Ret(<<>>)
    [] op = "transform_in" -> Ok /\ Set([n \in 1..Len(v) |-> Fn(a[5], v[n])]) /\ Ret(<<Len(v)>>)
    [] op = "replace" -> Ok /\ Set([n \in 1..Len(v) |-> IF Key(v[n]) = Key(a[5]) THEN a[6] ELSE v[n]]) /\ Ret(<<>>)
    [] op = "replace_if" -> Ok /\ Set([n \in 1..Len(v) |-> IF P(a[5], v[n]) THEN a[6] ELSE v[n]]) /\ Ret(<<>>)
    \* what is then behind the end is not said, but it comes as a witness; the container is shorter
    [] op \in {"remove", "remove_if", "unique"} -> Ok /\
         LET w == Kept(op, v, a[5]) IN
         Ret(<<Len(w)>>) /\ Len(a[6]) = (IF m = 1 THEN 0 ELSE Len(v) - Len(w)) /\ Set(w \o a[6])
    [] op = "reverse" -> Ok /\ Set(Rev(v)) /\ Ret(<<>>)
    [] op = "rotate" -> Ok /\ a[5] <= Len(v) /\ Set(Rotated(v, a[5])) /\ Ret(<<>>)
    \* the container form: by so many to the right, or to the left
    [] op = "crotate" -> Ok /\ m = 1 /\ (IF a[5] < 0 THEN -a[5] ELSE a[5]) < Len(v) /\ Set(Rotated(v, IF a[5] > 0 THEN Len(v) - a[5] ELSE -a[5])) /\ Ret(<<>>)
    [] op = "stable_partition" -> Ok /\ Set(Parted(v, a[5])) /\ Ret(<<Len(Pick(v, LAMBDA x : P(a[5], x)))>>)
    [] op = "partition" -> Ok /\ Permuted(v, a[6]) /\ LET n == Len(Pick(v, LAMBDA x : P(a[5], x))) IN (\A x \in 1..Len(v) : P(a[5], a[6][x]) = (x <= n)) /\ Set(a[6]) /\ Ret(<<n>>)
    [] op = "shuffle" -> Ok /\ Permuted(v, a[5]) /\ Set(a[5]) /\ Ret(<<>>)
    [] op = "swap_ranges" -> Ok /\ m # 2 /\ a[5] + j - i <= Len(st[o]) /\ Ret(<<a[5] + j - i>>) /\
         st' = [x \in 1..2 |-> IF x = k THEN Cut(st[k], 0, i) \o Cut(st[o], a[5], a[5] + j - i) \o Cut(st[k], j, Len(st[k]))
                               ELSE Cut(st[o], 0, a[5]) \o v \o Cut(st[o], a[5] + j - i, Len(st[o]))]
    [] op = "iter_swap" -> Ok /\ a[5] < Len(v) /\ a[6] < Len(v) /\ Set(Swapped(v, a[5], a[6])) /\ Ret(<<>>)

    \* the ordering a[5]; the arrangement, where more than one is right, as a witness
    [] op = "sort" -> Ok /\ Permuted(v, a[6]) /\ Sorted(a[6], a[5]) /\ Set(a[6]) /\ Ret(<<>>)
    [] op = "stable_sort" -> Ok /\ Set(StableSort(v, a[5], <<>>)) /\ Ret(<<>>)
    [] op = "partial_sort" -> Ok /\ a[6] <= Len(v) /\ PartlySorted(v, a[6], a[5], a[7]) /\ Set(a[7]) /\ Ret(<<>>)
    [] op = "nth" -> Ok /\ a[6] <= Len(v) /\ Permuted(v, a[7]) /\ Set(a[7]) /\ Ret(<<>>) /\
         (a[6] < Len(v) => LET x == a[7][a[6] + 1] IN (\A n \in 1..a[6] : ~Less(a[5], x, a[7][n])) /\ (\A n \in (a[6] + 2)..Len(v) : ~Less(a[5], a[7][n], x)))
    \* the least ones, to a[7] of an area of a[6], at most a[8]
    [] op = "sort_copy" -> Ok /\ a[7] + a[8] <= a[6] /\ UNCHANGED st /\
         LET n == Min(a[8], Len(v))  w == Cut(a[9], a[7], a[7] + n)  u == Cut(StableSort(v, a[5], <<>>), 0, n) IN
         /\ Len(a[9]) = a[6] /\ (\A x \in 1..a[6] : (x > a[7] /\ x <= a[7] + n) \/ a[9][x] = Blank)
         /\ (\A x \in 1..n : ~Less(a[5], u[x], w[x]) /\ ~Less(a[5], w[x], u[x]) /\ Count(w, w[x]) <= Count(v, w[x])) /\ Ret(<<n>>)
    [] op = "is_sorted" -> Ok /\ Is(<<B(Sorted(v, a[5]))>>)
    [] op = "bounds" -> Ok /\ Sorted(v, a[5]) /\ LET l == Lower(v, a[6], a[5])  u == Upper(v, a[6], a[5]) IN Is(<<l, u, l, u, B(l < u)>>)
    \* with the range [a[8],a[9]) of the other array
    [] op \in {"merge", "union", "intersection", "difference", "symmetric", "includes"} ->
         Ok /\ a[8] <= a[9] /\ a[9] <= Len(st[o]) /\
         LET w == Cut(st[o], a[8], a[9])  c == a[5]
             u == Combined(op, v, w, c)
         IN Sorted(v, c) /\ Sorted(w, c) /\ (op = "merge" => c = 0) /\
            (IF op = "includes" THEN Is(<<B(Includes(v, w, c))>>)
             ELSE IF op \in {"difference", "symmetric"} /\ Tags = 1
             THEN UNCHANGED st /\ Fits(a[6], a[7], u) /\ Len(a[10]) = a[6] /\ Ret(<<Len(u)>>)      \* the area as a witness
                  /\ (\A x \in 1..a[6] : IF x > a[7] /\ x <= a[7] + Len(u) THEN Key(a[10][x]) = Key(u[x - a[7]]) /\ Count(a[10], a[10][x]) <= Count(v \o w, a[10][x]) ELSE a[10][x] = Blank)
             ELSE Fits(a[6], a[7], u) /\ Out(a[6], a[7], u))
    [] op = "inplace_merge" -> Ok /\ a[6] <= Len(v) /\ a[5] = 0 /\ Sorted(Cut(v, 0, a[6]), 0) /\ Sorted(Cut(v, a[6], Len(v)), 0)
                               /\ Set(StableSort(v, 0, <<>>)) /\ Ret(<<>>)
    [] op = "next" -> Ok /\ LET r == NextP(v, a[5]) IN Set(r[2]) /\ Ret(<<r[1]>>)
    [] op = "prev" -> Ok /\ a[5] < 2 /\ LET r == NextP(v, Flip(a[5])) IN Set(r[2]) /\ Ret(<<r[1]>>)
    [] OTHER -> FALSE
Observe(s) == s = st'

(* ---- exhaustive model ---- *)
Texts(n) == UNION {[1..x -> Vals] : x \in 0..n}
N1 == Len(st[1])
N2 == Len(st[2])
Fns == 0..2
Ranges == {<<x, 1, 0, N1>> : x \in {0, 2}} \cup (IF N1 > 1 THEN {<<0, 1, 1, N1>>, <<0, 1, 0, N1 - 1>>} ELSE {})
R2 == {<<0, N2>>} \cup (IF N2 > 1 THEN {<<1, N2>>} ELSE {})
Z == MaxLen + 3
All(ops, X) == {<<o, r \o x>> : o \in ops, r \in Ranges, x \in X}
Ones(S) == {<<x>> : x \in S}
Part1 ==
  All({"find", "count"}, Ones(Vals)) \cup All({"find_if", "count_if", "adjacent", "extremes", "minmax", "listed"}, Ones(Fns)) \cup All({"for_each"}, {<<>>})
  \cup All({"mismatch", "equal"}, {<<c, 0>> : c \in Fns}) \cup All({"search", "find_end", "first_of", "lexcmp"}, {<<c>> \o r : c \in Fns, r \in R2})
  \cup All({"search_n"}, {<<c, n, x>> : c \in Fns, n \in 0..3, x \in Vals})
  \cup (IF st = <<<<>>, <<>>>> THEN {<<"values", <<0, x, y, c>>>> : x \in Vals, y \in Vals, c \in Fns} \cup {<<"clamp", <<0, x, y, z, c>>>> : x \in Vals, y \in Vals, z \in Vals, c \in Fns} ELSE {})
Part2 ==
  All({"copy", "copy_backward", "reverse_copy"}, {<<Z, 1>>}) \cup All({"copy_if", "transform", "remove_copy_if", "unique_copy"}, {<<Z, 1, c>> : c \in Fns})
  \cup All({"rotate_copy"}, {<<Z, 1, n>> : n \in 0..MaxLen}) \cup All({"transform2"}, {<<Z, 1, c, 0>> : c \in {1}})
  \cup All({"replace_copy"}, {<<Z, 1, x, y>> : x \in Vals, y \in Vals}) \cup All({"replace_copy_if"}, {<<Z, 1, c, y>> : c \in Fns, y \in Vals})
  \cup All({"remove_copy"}, {<<Z, 1, x>> : x \in Vals})
  \cup {<<"remove_copy_at", <<0, 1, 0, N1, Z, 1, l>>>> : l \in {<<>>, <<0>>, <<1>>, <<0, 1>>, <<0, 2>>}}
  \cup (IF st = <<<<>>, <<>>>> THEN {<<o, <<0, Z, 1, n, x>>>> : o \in {"fill_n", "generate_n"}, n \in 0..MaxLen, x \in Vals} ELSE {})
  \cup All({"shift", "shift_right"}, Ones(0..MaxLen)) \cup All({"fill"}, Ones(Vals)) \cup All({"reverse"}, {<<>>})
  \cup All({"replace"}, {<<x, y>> : x \in Vals, y \in Vals}) \cup All({"replace_if"}, {<<c, y>> : c \in Fns, y \in Vals})
  \cup {<<o, r \o <<x, Rest(View(r[2], r[1], r[3], r[4]), Kept(o, View(r[2], r[1], r[3], r[4]), x))>>>> : o \in {"remove", "remove_if", "unique"}, r \in Ranges, x \in Vals}
  \cup All({"rotate"}, Ones(0..MaxLen)) \cup {<<"crotate", <<1, 1, 0, N1, n>>>> : n \in (0 - MaxLen)..MaxLen}
  \cup All({"stable_partition"}, Ones(Fns)) \cup All({"partition"}, {<<c, Parted(Cut(st[1], 0, N1), c)>> : c \in Fns})
  \cup All({"swap_ranges"}, Ones(0..1)) \cup All({"iter_swap"}, {<<x, y>> : x \in 0..1, y \in 0..2})
Part3 ==
  {<<"sort", r \o <<c, StableSort(View(r[2], r[1], r[3], r[4]), c, <<>>)>>>> : c \in Fns, r \in Ranges} \cup All({"stable_sort", "next"}, Ones(Fns)) \cup All({"prev"}, Ones(0..1))
  \cup {<<o, r \o <<c, n, StableSort(View(r[2], r[1], r[3], r[4]), c, <<>>)>>>> : o \in {"partial_sort", "nth"}, c \in Fns, r \in Ranges, n \in {0, 1, N1}}
  \cup All({"is_sorted"}, Ones(Fns)) \cup All({"bounds"}, {<<c, x>> : c \in Fns, x \in Vals})
  \cup {<<o, r \o <<c, 2 * MaxLen + 1, 1>> \o q \o <<Area(2 * MaxLen + 1, 1, Combined(o, View(1, r[1], r[3], r[4]), Cut(st[2], q[1], q[2]), c))>>>> :
        o \in {"union", "intersection", "difference", "symmetric", "includes", "merge"}, r \in Ranges, c \in Fns, q \in R2}
  \cup All({"inplace_merge"}, {<<0, n>> : n \in 0..MaxLen})
Calls ==
  (IF st[1] = <<>> /\ st[2] = <<>>
   THEN {<<"set", <<1, s>>>> : s \in Texts(MaxLen)}
   ELSE (IF st[2] = <<>> /\ Part # 2 THEN {<<"set", <<2, s>>>> : s \in Texts(MaxLen)} ELSE {}))
  \cup (IF Part = 2 /\ st[2] = <<>> THEN {<<"set", <<2, [n \in 1..N1 |-> 30 + n]>>>>} ELSE {})
  \cup (CASE Part = 1 -> Part1 [] Part = 2 -> Part2 [] OTHER -> Part3)
\* what the definitions must satisfy among each other
V1 == st[1]
SearchOK == Part = 1 => \A c \in Fns : /\ (Search(V1, st[2], c) <= FindEnd(V1, st[2], c)) /\ (Search(V1, st[2], c) < N1 => FindEnd(V1, st[2], c) < N1 \/ N2 = 0)
                                       /\ ~(LexLess(V1, st[2], c) /\ LexLess(st[2], V1, c))
                                       /\ SearchN(V1, 1, 1, c) = FirstOf(V1, <<1>>, c)
ReorderOK == Part = 2 => \A c \in Fns : /\ Permuted(V1, Parted(V1, c)) /\ Adjacent(Unique(V1, c), c) = Len(Unique(V1, c))
                                        /\ \A n \in 0..N1 : Rotated(Rotated(V1, n), N1 - n) = V1
SortOK == Part = 3 => \A c \in Fns : LET s == StableSort(V1, c, <<>>)  t == StableSort(st[2], c, <<>>) IN
            /\ Permuted(V1, s) /\ Sorted(s, c) /\ PartlySorted(V1, N1, c, s)
            /\ Len(Union(s, t, c)) + Len(Intersection(s, t, c)) = N1 + N2 /\ Len(Union(s, t, c)) = Len(Difference(s, t, c)) + N2
            /\ Sorted(Union(s, t, c), c) /\ Sorted(Symmetric(s, t, c), c) /\ Len(Symmetric(s, t, c)) = Len(Difference(s, t, c)) + Len(Difference(t, s, c))
            /\ Includes(s, Intersection(s, t, c), c)
            /\ (c < 2 => LET r == NextP(V1, c) IN (Tags = 0 => NextP(r[2], Flip(c))[2] = V1 /\ NextP(r[2], Flip(c))[1] = r[1]))
=============================================================================
