--------------------------------- MODULE Map ---------------------------------
(* Maps and multimaps (C04): pairs kept in key order.  Kinds: "p" map,        *)
(* "n" multimap; "r" map in descending order; "q" map, "u" multimap, ordered  *)
(* by the third of the key only.  A new subscripted key is bound              *)
(* to the default value 0.  Positions are zero based; the end is the size.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conf, MaxLen, Vals
Kinds == CASE Conf = "pp" -> <<"p", "p">> [] Conf = "nn" -> <<"n", "n">> [] Conf = "rr" -> <<"r", "r">>
           [] Conf = "qq" -> <<"q", "q">> [] Conf = "uu" -> <<"u", "u">>
           [] OTHER -> <<"p", "p", "n", "n", "r", "r", "q", "q", "u", "u">>

VARIABLES cs,      \* cs[k]: sequence of <<key, value>>
          ret
vars == <<cs>>
K == 1..Len(Kinds)
Uniq(k) == Kinds[k] \notin {"n", "u"}
Less(k, a, b) == CASE Kinds[k] = "r" -> b < a [] Kinds[k] \in {"q", "u"} -> (a \div 3) < (b \div 3) [] OTHER -> a < b
Lo(k, q, v) == Cardinality({i \in 1..Len(q) : Less(k, q[i][1], v)})
Hi(k, q, v) == Cardinality({i \in 1..Len(q) : ~Less(k, v, q[i][1])})
Has(k, q, v) == Hi(k, q, v) > Lo(k, q, v)
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
\* an existing key of a map keeps its value
Add(k, q, e) == IF Uniq(k) /\ Has(k, q, e[1]) THEN q ELSE Ins(q, Hi(k, q, e[1]), <<e>>)
RECURSIVE AddAll(_, _, _)
AddAll(k, q, s) == IF s = <<>> THEN q ELSE AddAll(k, Add(k, q, Head(s)), Tail(s))
\* a list of alternating keys and values as pairs, and back
Pairs(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Flat(q) == [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2][1] ELSE q[i \div 2][2]]
B(x) == IF x THEN 1 ELSE 0

Init == cs = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Put(k, q) == cs' = [cs EXCEPT ![k] = q]
Same == UNCHANGED cs
Like(k, j) == Kinds[k] = Kinds[j]
\* the position and, for a map, whether the key was new
Insert(k, e) == /\ Put(k, Add(k, cs[k], e))
                /\ Ret(IF Uniq(k) THEN <<Lo(k, cs[k], e[1]), B(~Has(k, cs[k], e[1]))>> ELSE <<Hi(k, cs[k], e[1])>>)
InsertH(k, e) == Put(k, Add(k, cs[k], e)) /\ Ret(<<IF Uniq(k) THEN Lo(k, cs[k], e[1]) ELSE Hi(k, cs[k], e[1])>>)
InsertAll(k, s) == Put(k, AddAll(k, cs[k], s)) /\ Ret(<<>>)
AssignAll(k, s) == Put(k, AddAll(k, <<>>, s)) /\ Ret(<<>>)
\* m[key] = v
SubSet(k, x, v) == /\ Uniq(k) /\ Ret(<<>>)
                   /\ Put(k, IF Has(k, cs[k], x) THEN [cs[k] EXCEPT ![Hi(k, cs[k], x)][2] = v] ELSE Add(k, cs[k], <<x, v>>))
\* the value of m[key], entered if it was not there
SubGet(k, x) == /\ Uniq(k)
                /\ Put(k, Add(k, cs[k], <<x, 0>>))
                /\ Ret(<<IF Has(k, cs[k], x) THEN cs[k][Hi(k, cs[k], x)][2] ELSE 0>>)
\* checked access needs the key to be there
AtGet(k, x) == Uniq(k) /\ Has(k, cs[k], x) /\ Same /\ Ret(<<cs[k][Hi(k, cs[k], x)][2]>>)
AtSet(k, x, v) == Uniq(k) /\ Has(k, cs[k], x) /\ Put(k, [cs[k] EXCEPT ![Hi(k, cs[k], x)][2] = v]) /\ Ret(<<>>)
\* writing through an iterator
Write(k, p, v) == p < Len(cs[k]) /\ Put(k, [cs[k] EXCEPT ![p + 1][2] = v]) /\ Ret(<<>>)
EraseK(k, x) == Put(k, Del(cs[k], Lo(k, cs[k], x), Hi(k, cs[k], x) - Lo(k, cs[k], x))) /\ Ret(<<>>)
EraseR(k, p, n) == p + n <= Len(cs[k]) /\ Put(k, Del(cs[k], p, n)) /\ Ret(<<p>>)
Clear(k) == Put(k, <<>>) /\ Ret(<<>>)
Copy(k, j) == Like(k, j) /\ Put(k, cs[j]) /\ Ret(<<>>)
NewCopy(k, j) == k # j /\ Copy(k, j)
Swap(k, j) == Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = cs[k]] /\ Ret(<<>>)
Move(k, j) == k # j /\ Swap(k, j)
NewMove(k, j) == k # j /\ Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = <<>>] /\ Ret(<<>>)
Look(k, x) == /\ Same
              /\ LET q == cs[k] lo == Lo(k, q, x) hi == Hi(k, q, x) IN
                 Ret(<<IF hi > lo THEN lo ELSE Len(q), hi - lo, lo, hi, lo, hi>>)
\* first position from p on whose value is v
FindData(k, v, p) == /\ Uniq(k) /\ p <= Len(cs[k]) /\ Same
                     /\ LET S == {i \in (p + 1)..Len(cs[k]) : cs[k][i][2] = v} IN
                        Ret(<<IF S = {} THEN Len(cs[k]) ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1>>)
Query(k) == Same /\ Ret(<<Len(cs[k]), B(cs[k] = <<>>)>> \o Flat(cs[k]))

Do(op, a) ==
  CASE op \in {"insert", "insert_move", "emplace", "emplace_back"} -> Insert(a[1], <<a[2], a[3]>>)
    [] op \in {"insert_hint", "insert_hint_move", "emplace_hint"} -> InsertH(a[1], <<a[2], a[3]>>)
    [] op = "push_back" -> InsertAll(a[1], <<<<a[2], a[3]>>>>)
    [] op \in {"insert_r", "insert_l"} -> InsertAll(a[1], Pairs(a[2]))
    [] op = "insert_from" -> a[1] # a[2] /\ a[3] <= a[4] /\ a[4] <= Len(cs[a[2]]) /\ InsertAll(a[1], SubSeq(cs[a[2]], a[3] + 1, a[4]))
    [] op \in {"assign", "new_r", "new_l"} -> AssignAll(a[1], Pairs(a[2]))
    [] op = "sub_set" -> SubSet(a[1], a[2], a[3])
    [] op = "sub_get" -> SubGet(a[1], a[2])
    [] op \in {"at_get", "csub_get"} -> AtGet(a[1], a[2])
    [] op = "at_set" -> AtSet(a[1], a[2], a[3])
    [] op = "write" -> Write(a[1], a[2], a[3])
    [] op = "erase_k" -> EraseK(a[1], a[2])
    [] op = "erase" -> EraseR(a[1], a[2], 1)
    [] op = "erase_r" -> a[2] <= a[3] /\ EraseR(a[1], a[2], a[3] - a[2])
    [] op \in {"clear", "new"} -> Clear(a[1])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op = "swap" -> Swap(a[1], a[2])
    [] op = "move" -> Move(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "look" -> Look(a[1], a[2])
    [] op = "find_data" -> FindData(a[1], a[2], a[3])
    [] op = "query" -> Query(a[1])
    [] op = "fin" -> cs' = [k \in K |-> <<>>] /\ Ret(<<0>>)
    [] OTHER -> FALSE
Observe(s) == s = [k \in K |-> Flat(cs'[k])]

(* ---- exhaustive model ---- *)
L(k) == Len(cs[k])
Lists == {<<>>, <<1, 2>>, <<2, 1, 1, 1>>, <<1, 1, 1, 2>>}
Calls ==
  UNION {
    (IF L(k) < MaxLen THEN {<<o, <<k, x, v>>>> : o \in {"insert", "insert_move", "emplace", "emplace_back", "insert_hint", "insert_hint_move", "emplace_hint", "push_back", "sub_set"}, x \in Vals, v \in {1, 2}}
                           \cup {<<"sub_get", <<k, x>>>> : x \in Vals} ELSE {})
    \cup {<<o, <<k, s>>>> : o \in {"insert_r", "insert_l"}, s \in {t \in Lists : L(k) + Len(t) \div 2 <= MaxLen}}
    \cup {<<o, <<k, s>>>> : o \in {"assign", "new_r", "new_l"}, s \in Lists}
    \cup {<<o, <<k, x>>>> : o \in {"at_get", "csub_get", "erase_k"}, x \in Vals} \cup {<<"look", <<k, x>>>> : x \in Vals \cup {0, 9}}
    \cup {<<"at_set", <<k, x, 2>>>> : x \in Vals}
    \cup {<<"find_data", <<k, v, p>>>> : v \in 0..2, p \in 0..L(k)}
    \cup {<<"erase", <<k, p>>>> : p \in 0..(L(k) - 1)} \cup {<<"write", <<k, p, 2>>>> : p \in 0..(L(k) - 1)}
    \cup {<<"erase_r", <<k, p, q>>>> : p \in 0..L(k), q \in 0..L(k)}
    \cup {<<o, <<k>>>> : o \in {"clear", "new", "query"}}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy", "swap", "move", "new_move"}} : j \in K}
    \cup UNION {{<<"insert_from", <<k, j, 0, q>>>> : q \in {x \in 0..L(j) : L(k) + x <= MaxLen}} : j \in K}
    : k \in K}
InOrder == \A k \in K : \A i, j \in 1..L(k) : i < j => IF Uniq(k) THEN Less(k, cs[k][i][1], cs[k][j][1]) ELSE ~Less(k, cs[k][j][1], cs[k][i][1])
=============================================================================
