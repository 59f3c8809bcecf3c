------------------------------- MODULE Sorted -------------------------------
(* Sets and multisets (C03): collections of keys kept in the order of the     *)
(* container's comparison.  Kinds: "s" set, "m" multiset, ascending; "t" set, *)
(* "n" multiset, descending; "c" set, "d" multiset, ordered by the third of    *)
(* the value only, so that different values are equivalent.  Positions are zero based; the end is the size.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conf, MaxLen, Vals
Kinds == CASE Conf = "ss" -> <<"s", "s">> [] Conf = "mm" -> <<"m", "m">> [] Conf = "tt" -> <<"t", "t">> [] Conf = "nn" -> <<"n", "n">>
           [] Conf = "cc" -> <<"c", "c">> [] Conf = "dd" -> <<"d", "d">>
           [] OTHER -> <<"s", "s", "m", "m", "t", "t", "n", "n", "c", "c", "d", "d">>

VARIABLES cs, ret
vars == <<cs>>
K == 1..Len(Kinds)
Uniq(k) == Kinds[k] \in {"s", "t", "c"}
Less(k, a, b) == CASE Kinds[k] \in {"s", "m"} -> a < b [] Kinds[k] \in {"t", "n"} -> b < a [] OTHER -> (a \div 3) < (b \div 3)
Equiv(k, a, b) == ~Less(k, a, b) /\ ~Less(k, b, a)
Lo(k, q, v) == Cardinality({i \in 1..Len(q) : Less(k, q[i], v)})
Hi(k, q, v) == Cardinality({i \in 1..Len(q) : ~Less(k, v, q[i])})
Has(k, q, v) == Hi(k, q, v) > Lo(k, q, v)
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
Add(k, q, v) == IF Uniq(k) /\ Has(k, q, v) THEN q ELSE Ins(q, Hi(k, q, v), <<v>>)
RECURSIVE AddAll(_, _, _)
AddAll(k, q, s) == IF s = <<>> THEN q ELSE AddAll(k, Add(k, q, Head(s)), Tail(s))
B(x) == IF x THEN 1 ELSE 0

Init == cs = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Put(k, q) == cs' = [cs EXCEPT ![k] = q]
Same == UNCHANGED cs
Like(k, j) == Kinds[k] = Kinds[j]
\* the position and, for a set, whether the key was new
Insert(k, v) == /\ Put(k, Add(k, cs[k], v))
                /\ Ret(IF Uniq(k) THEN <<Lo(k, cs[k], v), B(~Has(k, cs[k], v))>> ELSE <<Hi(k, cs[k], v)>>)
\* with a hint only the position is returned
InsertH(k, v) == Put(k, Add(k, cs[k], v)) /\ Ret(<<IF Uniq(k) THEN Lo(k, cs[k], v) ELSE Hi(k, cs[k], v)>>)
InsertAll(k, s) == Put(k, AddAll(k, cs[k], s)) /\ Ret(<<>>)
AssignAll(k, s) == Put(k, AddAll(k, <<>>, s)) /\ Ret(<<>>)
\* a multiset reports the number of keys erased
EraseK(k, v) == /\ Put(k, Del(cs[k], Lo(k, cs[k], v), Hi(k, cs[k], v) - Lo(k, cs[k], v)))
                /\ Ret(IF Uniq(k) THEN <<>> ELSE <<Hi(k, cs[k], v) - Lo(k, cs[k], v)>>)
\* returns the position of what follows
EraseR(k, p, n) == p + n <= Len(cs[k]) /\ Put(k, Del(cs[k], p, n)) /\ Ret(<<p>>)
Clear(k) == Put(k, <<>>) /\ Ret(<<>>)
Copy(k, j) == Like(k, j) /\ Put(k, cs[j]) /\ Ret(<<>>)
NewCopy(k, j) == k # j /\ Copy(k, j)
Swap(k, j) == Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = cs[k]] /\ Ret(<<>>)
Move(k, j) == k # j /\ Swap(k, j)
NewMove(k, j) == k # j /\ Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = <<>>] /\ Ret(<<>>)

\* find, count, lower and upper bound, both ends of the equal range
Look(k, v) == /\ Same
              /\ LET q == cs[k] lo == Lo(k, q, v) hi == Hi(k, q, v) IN
                 Ret(<<IF hi > lo THEN lo ELSE Len(q), hi - lo, lo, hi, lo, hi>>)
\* size, emptiness, the keys forward and backward
Query(k) == /\ Same
            /\ LET q == cs[k] n == Len(q) IN Ret(<<n, B(n = 0)>> \o q \o [i \in 1..n |-> q[n + 1 - i]])
Equal(k, j) == Like(k, j) /\ Same /\ Ret(<<B(cs[k] = cs[j])>>)

Do(op, a) ==
  CASE op \in {"insert", "insert_move", "emplace", "emplace_back"} -> Insert(a[1], a[2])
    [] op \in {"insert_hint", "insert_hint_move", "emplace_hint"} -> InsertH(a[1], a[2])
    [] op = "push_back" -> InsertAll(a[1], <<a[2]>>)
    [] op \in {"insert_r", "insert_l"} -> InsertAll(a[1], a[2])
    [] op = "insert_from" -> InsertAll(a[1], SubSeq(cs[a[2]], a[3] + 1, a[4])) /\ a[1] # a[2] /\ a[3] <= a[4] /\ a[4] <= Len(cs[a[2]])
    [] op \in {"assign", "new_r", "new_l"} -> AssignAll(a[1], a[2])
    [] op = "erase_k" -> EraseK(a[1], a[2])
    [] op = "erase" -> EraseR(a[1], a[2], 1)
    [] op = "erase_r" -> EraseR(a[1], a[2], a[3] - a[2]) /\ a[2] <= a[3]
    [] op \in {"clear", "new"} -> Clear(a[1])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op = "swap" -> Swap(a[1], a[2])
    [] op = "move" -> Move(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "look" -> Look(a[1], a[2])
    [] op = "query" -> Query(a[1])
    [] op = "equal" -> Equal(a[1], a[2])
    [] op = "fin" -> cs' = [k \in K |-> <<>>] /\ Ret(<<0>>)
    [] OTHER -> FALSE
Observe(s) == s = cs'

(* ---- exhaustive model ---- *)
L(k) == Len(cs[k])
Lists == {<<>>, <<1>>, <<2, 1>>, <<1, 1>>, <<3, 2>>}
Calls ==
  UNION {
    (IF L(k) < MaxLen THEN {<<o, <<k, v>>>> : o \in {"insert", "insert_move", "emplace", "emplace_back", "insert_hint", "insert_hint_move", "emplace_hint", "push_back"}, v \in Vals} ELSE {})
    \cup {<<o, <<k, s>>>> : o \in {"insert_r", "insert_l"}, s \in {t \in Lists : L(k) + Len(t) <= MaxLen}}
    \cup {<<o, <<k, s>>>> : o \in {"assign", "new_r", "new_l"}, s \in Lists}
    \cup {<<"erase_k", <<k, v>>>> : v \in Vals} \cup {<<"look", <<k, v>>>> : v \in Vals \cup {0, 9}}
    \cup {<<"erase", <<k, p>>>> : p \in 0..(L(k) - 1)}
    \cup {<<"erase_r", <<k, p, q>>>> : p \in 0..L(k), q \in 0..L(k)}
    \cup {<<o, <<k>>>> : o \in {"clear", "new", "query"}}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy", "swap", "move", "new_move", "equal"}} : j \in K}
    \cup UNION {{<<"insert_from", <<k, j, 0, q>>>> : q \in {x \in 0..L(j) : L(k) + x <= MaxLen}} : j \in K}
    : k \in K}
InOrder == \A k \in K : \A i, j \in 1..L(k) : i < j => IF Uniq(k) THEN Less(k, cs[k][i], cs[k][j]) ELSE ~Less(k, cs[k][j], cs[k][i])
\* a key is found exactly when it is there
Bounds == \A k \in K, v \in Vals : LET q == cs[k] IN
            Hi(k, q, v) - Lo(k, q, v) = Cardinality({i \in 1..Len(q) : Equiv(k, q[i], v)})
=============================================================================
