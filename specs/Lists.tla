-------------------------------- MODULE Lists --------------------------------
(* Lists and deques, queues and stacks (C05).  Kinds: "l" list, "d" deque,    *)
(* "q" queue, "k" stack.  Positions are zero based.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conf, MaxLen, Vals
Kinds == CASE Conf = "ll" -> <<"l", "l">> [] Conf = "qq" -> <<"q", "q">> [] Conf = "kk" -> <<"k", "k">>
           [] OTHER -> <<"l", "l", "d", "d", "q", "q", "k", "k">>

VARIABLES cs, ret
vars == <<cs>>
K == 1..Len(Kinds)
Lst(k) == Kinds[k] \in {"l", "d"}
Rep(n, v) == [i \in 1..n |-> v]
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RECURSIVE Without(_, _)     \* q without the elements of S
Without(q, S) == IF q = <<>> THEN <<>> ELSE (IF Head(q) \in S THEN <<>> ELSE <<Head(q)>>) \o Without(Tail(q), S)
RECURSIVE Uniq(_)           \* of equal neighbours the first
Uniq(q) == IF Len(q) < 2 THEN q ELSE IF q[1] = q[2] THEN Uniq(<<q[1]>> \o SubSeq(q, 3, Len(q))) ELSE <<q[1]>> \o Uniq(Tail(q))
RECURSIVE Sort(_)
Sort(q) == IF q = <<>> THEN <<>> ELSE
           LET s == Sort(Tail(q)) p == Cardinality({i \in 1..Len(s) : s[i] < Head(q)}) IN Ins(s, p, <<Head(q)>>)
RECURSIVE SortBy(_, _)      \* by the quotient alone; equivalents stay in order
SortBy(q, m) == IF q = <<>> THEN <<>> ELSE
           LET s == SortBy(Tail(q), m) p == Cardinality({i \in 1..Len(s) : (s[i] \div m) < (Head(q) \div m)}) IN Ins(s, p, <<Head(q)>>)
AscendingBy(q, m) == \A i \in 1..(Len(q) - 1) : (q[i] \div m) <= (q[i + 1] \div m)
Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
B(x) == IF x THEN 1 ELSE 0

Init == cs = [k \in K |-> <<>>] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Put(k, q) == cs' = [cs EXCEPT ![k] = q]
Void(k, q) == Put(k, q) /\ Ret(<<>>)
Same == UNCHANGED cs
Like(k, j) == Kinds[k] = Kinds[j]

Push(k, v)       == Void(k, Append(cs[k], v))
Pop(k)           == cs[k] # <<>> /\ Void(k, IF Kinds[k] = "q" THEN Tail(cs[k]) ELSE SubSeq(cs[k], 1, Len(cs[k]) - 1))
PushFront(k, v)  == Lst(k) /\ Void(k, <<v>> \o cs[k])
PopFront(k)      == Lst(k) /\ cs[k] # <<>> /\ Void(k, Tail(cs[k]))
Insert(k, p, s)  == Lst(k) /\ p <= Len(cs[k]) /\ Put(k, Ins(cs[k], p, s)) /\ Ret(<<p>>)
Erase(k, p, n)   == Lst(k) /\ p + n <= Len(cs[k]) /\ Put(k, Del(cs[k], p, n)) /\ Ret(<<p>>)
Resize(k, n, v)  == Lst(k) /\ Void(k, IF n <= Len(cs[k]) THEN SubSeq(cs[k], 1, n) ELSE cs[k] \o Rep(n - Len(cs[k]), v))
Assign(k, s)     == Lst(k) /\ Void(k, s)
Clear(k)         == Lst(k) /\ Void(k, <<>>)
\* [b, e) of list j moves to position p of list k
Splice(k, p, j, b, e) == /\ Lst(k) /\ Like(k, j) /\ j # k /\ p <= Len(cs[k]) /\ b <= e /\ e <= Len(cs[j])
                         /\ cs' = [cs EXCEPT ![k] = Ins(@, p, SubSeq(cs[j], b + 1, e)), ![j] = Del(@, b, e - b)]
                         /\ Ret(<<>>)
\* the source of a merge keeps its elements
Merge(k, j)      == /\ Lst(k) /\ Like(k, j) /\ j # k /\ Ascending(cs[k]) /\ Ascending(cs[j])
                    /\ Void(k, Sort(cs[k] \o cs[j]))
\* elements ordered by their tens only: among equivalents those of k come first
Merge10(k, j)    == /\ Lst(k) /\ Like(k, j) /\ j # k /\ AscendingBy(cs[k], 10) /\ AscendingBy(cs[j], 10)
                    /\ Void(k, SortBy(cs[k] \o cs[j], 10))
Remove(k, S)     == Lst(k) /\ Void(k, Without(cs[k], S))
Reverse(k)       == Lst(k) /\ Void(k, Rev(cs[k]))
Unique(k)        == Lst(k) /\ Void(k, Uniq(cs[k]))
SortL(k)         == Lst(k) /\ Void(k, Sort(cs[k]))
\* writing to the front and the back
SetFront(k, v)   == Kinds[k] # "k" /\ cs[k] # <<>> /\ Void(k, [cs[k] EXCEPT ![1] = v])
SetBack(k, v)    == cs[k] # <<>> /\ Void(k, [cs[k] EXCEPT ![Len(cs[k])] = v])
\* from the elements of a vector
New(k, s)        == Void(k, s)
Copy(k, j)       == Like(k, j) /\ Void(k, cs[j])
NewCopy(k, j)    == k # j /\ Copy(k, j)
Swap(k, j)       == Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = cs[k]] /\ Ret(<<>>)
Move(k, j)       == k # j /\ Swap(k, j)
NewMove(k, j)    == k # j /\ Like(k, j) /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = <<>>] /\ Ret(<<>>)
\* size, emptiness, front and back
Query(k)         == /\ Same
                    /\ LET q == cs[k] n == Len(q) IN
                       Ret(<<n, B(n = 0)>> \o (IF n = 0 THEN <<>> ELSE IF Kinds[k] = "k" THEN <<q[n]>> ELSE <<q[1], q[n]>>))
Equal(k, j)      == Like(k, j) /\ Same /\ Ret(<<B(cs[k] = cs[j])>>)
\* everything taken out, in order
Drain(k)         == /\ Put(k, <<>>) /\ ~Lst(k)
                    /\ Ret(IF Kinds[k] = "k" THEN Rev(cs[k]) ELSE cs[k])

Do(op, a) ==
  CASE op \in {"push", "push_move", "emplace"} -> Push(a[1], a[2])
    [] op = "pop" -> Pop(a[1])
    [] op \in {"push_front", "push_front_move", "emplace_front"} -> PushFront(a[1], a[2])
    [] op = "pop_front" -> PopFront(a[1])
    [] op = "insert" -> Insert(a[1], a[2], <<a[3]>>)
    [] op = "insert_n" -> Insert(a[1], a[2], Rep(a[3], a[4]))
    [] op = "insert_l" -> Insert(a[1], a[2], a[3])
    [] op = "erase" -> Erase(a[1], a[2], 1)
    [] op = "erase_r" -> a[2] <= a[3] /\ Erase(a[1], a[2], a[3] - a[2])
    [] op = "resize" -> Resize(a[1], a[2], a[3])
    [] op = "assign" -> Assign(a[1], a[2])
    [] op = "clear" -> Clear(a[1])
    [] op = "splice" -> Splice(a[1], a[2], a[3], a[4], a[5])
    [] op = "splice_all" -> Splice(a[1], a[2], a[3], 0, Len(cs[a[3]]))
    [] op = "splice_from" -> Splice(a[1], a[2], a[3], a[4], Len(cs[a[3]]))
    [] op = "merge" -> Merge(a[1], a[2])
    [] op = "merge10" -> Merge10(a[1], a[2])
    [] op = "remove" -> Remove(a[1], {a[2]})
    [] op = "remove_odd" -> Remove(a[1], {v \in {cs[a[1]][i] : i \in 1..Len(cs[a[1]])} : v % 2 = 1})
    [] op = "reverse" -> Reverse(a[1])
    [] op = "unique" -> Unique(a[1])
    [] op = "sort" -> SortL(a[1])
    [] op = "set_front" -> SetFront(a[1], a[2])
    [] op = "set_back" -> SetBack(a[1], a[2])
    [] op \in {"new", "new_m"} -> New(a[1], a[2])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op = "swap" -> Swap(a[1], a[2])
    [] op = "move" -> Move(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "query" -> Query(a[1])
    [] op = "equal" -> Equal(a[1], a[2])
    [] op = "drain" -> Drain(a[1])
    [] op = "fin" -> cs' = [k \in K |-> <<>>] /\ Ret(<<0>>)
    [] OTHER -> FALSE
\* lists show their elements; of queues and stacks only the size is visible
Observe(s) == s = [k \in K |-> IF Lst(k) THEN cs'[k] ELSE <<Len(cs'[k])>>]

(* ---- exhaustive model ---- *)
L(k) == Len(cs[k])
Calls ==
  UNION {
    (IF L(k) < MaxLen THEN {<<o, <<k, v>>>> : o \in {"push", "push_move", "emplace", "push_front", "push_front_move", "emplace_front"}, v \in Vals}
                           \cup {<<"insert", <<k, p, 2>>>> : p \in 0..L(k)} ELSE {})
    \cup {<<"insert_n", <<k, p, n, 1>>>> : p \in 0..L(k), n \in 0..(MaxLen - L(k))}
    \cup (IF L(k) + 2 <= MaxLen THEN {<<"insert_l", <<k, p, <<1, 2>>>>>> : p \in 0..L(k)} ELSE {})
    \cup {<<"erase", <<k, p>>>> : p \in 0..(L(k) - 1)} \cup {<<"erase_r", <<k, p, q>>>> : p \in 0..L(k), q \in 0..L(k)}
    \cup {<<o, <<k>>>> : o \in {"pop", "pop_front", "clear", "reverse", "unique", "sort", "query", "drain", "remove_odd"}}
    \cup {<<"resize", <<k, n, 1>>>> : n \in 0..MaxLen} \cup {<<"remove", <<k, v>>>> : v \in Vals}
    \cup {<<o, <<k, v>>>> : o \in {"set_front", "set_back"}, v \in Vals}
    \cup {<<o, <<k, s>>>> : o \in {"assign", "new", "new_m"}, s \in {<<>>, <<1>>, <<2, 1>>}}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy", "swap", "move", "new_move", "equal"} \cup (IF L(k) + L(j) <= MaxLen THEN {"merge"} ELSE {})} : j \in K}
    \cup UNION {{<<"splice", <<k, p, j, b, e>>>> : p \in 0..L(k), b \in 0..L(j), e \in {x \in 0..L(j) : L(k) + x <= MaxLen}} : j \in K}
    \cup UNION {(IF L(k) + L(j) <= MaxLen THEN {<<"splice_all", <<k, p, j>>>> : p \in 0..L(k)} \cup {<<"splice_from", <<k, p, j, b>>>> : p \in 0..L(k), b \in 0..L(j)} ELSE {}) : j \in K}
    : k \in K}
Bag(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
\* splicing neither loses nor duplicates: the two lists together keep what they had
SpliceKeeps == [][\A k, j \in K : k # j /\ Len(cs'[k]) > Len(cs[k]) /\ Len(cs'[j]) < Len(cs[j])
                    => \A v \in Vals : Bag(cs'[k], v) + Bag(cs'[j], v) = Bag(cs[k], v) + Bag(cs[j], v) \/ cs'[k] = cs[j]]_cs
=============================================================================
