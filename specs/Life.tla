-------------------------------- MODULE Life --------------------------------
(* Lifetimes of container elements (C02).  Each container holds a sequence of *)
(* values; every element is an object with an identity of its own.  A call is *)
(* explained only if the constructions, copies, assignments, reads and        *)
(* destructions it performed are legal one after the other, and if afterwards *)
(* the objects alive are exactly the elements held.                           *)
(* Kinds: "v" vector, "l" list, "s" set, "m" multiset, "p" map (key, value),  *)
(* "n" multimap, "u" vector of unique_ptr, "k" stack.                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Conf, MaxLen, Vals
Kinds == CASE Conf = "vv" -> <<"v", "v">> [] Conf = "ll" -> <<"l", "l">> [] Conf = "ss" -> <<"s", "s">>
           [] Conf = "mm" -> <<"m", "m">> [] Conf = "pn" -> <<"p", "n">> [] Conf = "uk" -> <<"u", "k">>
           [] OTHER -> <<"v", "v", "l", "l", "s", "s", "m", "m", "p", "p", "n", "n", "u", "u", "k", "k">>

VARIABLES cs,      \* cs[k]: the values held, in order; for "p" and "n" key, value, key, value...
          alive,   \* identities of the objects alive
          ret
vars == <<cs>>
tvars == <<cs, alive>>

K == 1..Len(Kinds)
Rep(n, v) == [i \in 1..n |-> v]
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
Seqs == {"v", "l", "u"}
Pairs == {"p", "n"}
W(k) == IF Kinds[k] \in Pairs THEN 2 ELSE 1       \* objects per element
N(k) == Len(cs[k]) \div W(k)
Key(k, i) == cs[k][W(k) * (i - 1) + 1]
\* number of elements with key below v (at most v)
Lo(k, v) == Cardinality({i \in 1..N(k) : Key(k, i) < v})
Hi(k, v) == Cardinality({i \in 1..N(k) : Key(k, i) <= v})

Init == cs = [k \in K |-> <<>>] /\ alive = {} /\ ret = <<"", <<>>>>
Void == ret' = <<"", <<>>>>
Put(k, q) == cs' = [cs EXCEPT ![k] = q] /\ Void
Is(k, S) == Kinds[k] \in S
Like(k, j) == Kinds[k] = Kinds[j]

(* sequences *)
Push(k, v)       == Is(k, Seqs \cup {"k"}) /\ Put(k, Append(cs[k], v))
Pop(k)           == /\ Is(k, Seqs \cup {"k"}) /\ cs[k] # <<>>
                    /\ Put(k, SubSeq(cs[k], 1, Len(cs[k]) - 1))
PushFront(k, v)  == Is(k, {"l"}) /\ Put(k, <<v>> \o cs[k])
PopFront(k)      == Is(k, {"l"}) /\ cs[k] # <<>> /\ Put(k, Tail(cs[k]))
InsertS(k, p, s) == Is(k, Seqs) /\ p <= N(k) /\ Put(k, Ins(cs[k], p, s))
EraseN(k, p, n)  == ~Is(k, {"k"}) /\ p + n <= N(k) /\ Put(k, Del(cs[k], W(k) * p, W(k) * n))
Resize(k, n, v)  == /\ Is(k, {"v", "l"})
                    /\ Put(k, IF n <= N(k) THEN SubSeq(cs[k], 1, n) ELSE cs[k] \o Rep(n - N(k), v))
Assign(k, s)     == Is(k, {"v", "l"}) /\ Put(k, s)
Write(k, i, v)   == Is(k, Seqs) /\ i < N(k) /\ Put(k, [cs[k] EXCEPT ![i + 1] = v])

(* sorted containers *)
Ordered(k, i, v) == Ins(cs[k], i, <<v>>)
InsertK(k, v)    == /\ Is(k, {"s", "m"})
                    /\ Put(k, IF Kinds[k] = "s" /\ Hi(k, v) > Lo(k, v) THEN cs[k] ELSE Ordered(k, Hi(k, v), v))
InsertP(k, v, w) == /\ Is(k, Pairs)
                    /\ Put(k, IF Kinds[k] = "p" /\ Hi(k, v) > Lo(k, v) THEN cs[k] ELSE Ins(cs[k], 2 * Hi(k, v), <<v, w>>))
Subscript(k, v, w) == /\ Is(k, {"p"})
                    /\ Put(k, IF Hi(k, v) > Lo(k, v) THEN [cs[k] EXCEPT ![2 * Hi(k, v)] = w]
                              ELSE Ins(cs[k], 2 * Lo(k, v), <<v, w>>))
EraseK(k, v)     == Is(k, {"s", "m", "p", "n"}) /\ Put(k, Del(cs[k], W(k) * Lo(k, v), W(k) * (Hi(k, v) - Lo(k, v))))
\* every element of s inserted in turn
RECURSIVE All(_, _, _)
All(uniq, q, s) == IF s = <<>> THEN q ELSE
                   LET v == Head(s)
                       lo == Cardinality({i \in 1..Len(q) : q[i] < v})
                       hi == Cardinality({i \in 1..Len(q) : q[i] <= v})
                   IN All(uniq, IF uniq /\ hi > lo THEN q ELSE Ins(q, hi, <<v>>), Tail(s))
InsertAll(k, s)  == Is(k, {"s", "m"}) /\ Put(k, All(Kinds[k] = "s", cs[k], s))

(* any container *)
Clear(k)         == ~Is(k, {"k"}) /\ Put(k, <<>>)
New(k)           == Put(k, <<>>)
Dealloc(k)       == Is(k, {"v", "l", "u"}) /\ Put(k, <<>>)
Keep(k)          == Is(k, {"v", "l", "u"}) /\ Put(k, cs[k])      \* reserve, shrink_to_fit
Copy(k, j)       == Like(k, j) /\ ~Is(k, {"u"}) /\ Put(k, cs[j])
NewCopy(k, j)    == Like(k, j) /\ ~Is(k, {"u"}) /\ k # j /\ Put(k, cs[j])
Swap(k, j)       == Like(k, j) /\ k # j /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = cs[k]] /\ Void
NewMove(k, j)    == Like(k, j) /\ k # j /\ cs' = [cs EXCEPT ![k] = cs[j], ![j] = <<>>] /\ Void

\* the element events of the call are its last argument, in traces only
Do(op, a) ==
  CASE op \in {"push", "push_move", "emplace_back"} -> Push(a[1], a[2])
    [] op = "pop" -> Pop(a[1])
    [] op = "push_front" -> PushFront(a[1], a[2])
    [] op = "pop_front" -> PopFront(a[1])
    [] op \in {"insert", "insert_move", "emplace"} -> InsertS(a[1], a[2], <<a[3]>>)
    [] op = "insert_n" -> Kinds[a[1]] # "u" /\ InsertS(a[1], a[2], Rep(a[3], a[4]))
    [] op = "insert_l" -> Kinds[a[1]] # "u" /\ InsertS(a[1], a[2], a[3])
    [] op = "erase_n" -> EraseN(a[1], a[2], a[3])
    [] op = "resize" -> Resize(a[1], a[2], 0)
    [] op = "resize_v" -> Resize(a[1], a[2], a[3])
    [] op = "assign_n" -> Assign(a[1], Rep(a[2], a[3]))
    [] op = "assign_l" -> Assign(a[1], a[2])
    [] op = "write" -> Write(a[1], a[2], a[3])
    [] op \in {"put", "put_move"} -> InsertK(a[1], a[2])
    [] op \in {"putp", "putp_move"} -> InsertP(a[1], a[2], a[3])
    [] op = "sub" -> Subscript(a[1], a[2], a[3])
    [] op = "erase_k" -> EraseK(a[1], a[2])
    [] op = "put_l" -> InsertAll(a[1], a[2])
    [] op = "clear" -> Clear(a[1])
    [] op = "new" -> New(a[1])
    [] op = "dealloc" -> Dealloc(a[1])
    [] op \in {"reserve", "shrink"} -> Keep(a[1])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op \in {"swap", "move"} -> Swap(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "fin" -> cs' = [k \in K |-> <<>>] /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE

(* ---- the life of an element ---- *)
\* e = kind, object, source: 1 constructed from a value, 2 copied or moved from
\* the source, 3 assigned from the source, 4 destroyed, 5 read
Step(A, e) == CASE e[1] = 1 -> IF e[2] \in A THEN {-1} ELSE A \cup {e[2]}
                [] e[1] = 2 -> IF e[2] \in A \/ e[3] \notin A THEN {-1} ELSE A \cup {e[2]}
                [] e[1] = 3 -> IF e[2] \in A /\ e[3] \in A THEN A ELSE {-1}
                [] e[1] = 4 -> IF e[2] \in A THEN A \ {e[2]} ELSE {-1}
                [] OTHER    -> IF e[2] \in A THEN A ELSE {-1}
RECURSIVE Run(_, _, _)
Run(A, ev, i) == IF A = {-1} \/ i > Len(ev) THEN A ELSE Run(Step(A, ev[i]), ev, i + 1)

Observe(s) == /\ s.c = cs'
              /\ alive' = Run(alive, s.ev, 1)
              /\ alive' # {-1}
              /\ Len(s.held) = Cardinality(alive')
              /\ {s.held[i] : i \in 1..Len(s.held)} = alive'

(* ---- exhaustive model ---- *)
Room(k, n) == N(k) + n <= MaxLen
Calls ==
  UNION {
    {<<o, <<k>>>> : o \in {"pop", "pop_front", "clear", "new", "dealloc", "shrink"}}
    \cup (IF Room(k, 1) THEN {<<o, <<k, v>>>> : o \in {"push", "push_move", "emplace_back", "push_front", "put", "put_move"}, v \in Vals} ELSE {})
    \cup (IF Room(k, 1) THEN {<<o, <<k, p, 3>>>> : o \in {"insert", "insert_move", "emplace"}, p \in 0..N(k)} ELSE {})
    \cup (IF Room(k, 1) THEN {<<o, <<k, p, q>>>> : o \in {"putp", "putp_move", "sub"}, p \in Vals, q \in Vals} ELSE {})
    \cup {<<"insert_n", <<k, p, n, 1>>>> : p \in 0..N(k), n \in 0..(MaxLen - N(k))}
    \cup (IF Room(k, 2) THEN {<<"insert_l", <<k, p, <<1, 2>>>>>> : p \in 0..N(k)} \cup {<<"put_l", <<k, <<2, 1>>>>>>, <<"put_l", <<k, <<1, 1>>>>>>} ELSE {})
    \cup {<<"erase_n", <<k, p, n>>>> : p \in 0..N(k), n \in 0..N(k)}
    \cup {<<"erase_k", <<k, v>>>> : v \in Vals}
    \cup {<<o, <<k, n, 2>>>> : o \in {"resize_v", "assign_n"}, n \in 0..MaxLen} \cup {<<"resize", <<k, n>>>> : n \in 0..MaxLen}
    \cup {<<"assign_l", <<k, s>>>> : s \in {<<>>, <<1>>, <<2, 1>>}}
    \cup {<<"reserve", <<k, n>>>> : n \in {0, MaxLen + 2}}
    \cup {<<"write", <<k, i, v>>>> : i \in 0..(N(k) - 1), v \in Vals}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy", "swap", "move", "new_move"}} : j \in K}
    : k \in K}
Sorted == \A k \in K : /\ Is(k, {"s", "p"}) => \A i, j \in 1..N(k) : i < j => Key(k, i) < Key(k, j)
                       /\ Is(k, {"m", "n"}) => \A i, j \in 1..N(k) : i < j => Key(k, i) <= Key(k, j)
=============================================================================
