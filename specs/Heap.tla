-------------------------------- MODULE Heap --------------------------------
(* Heap algorithms on ranges, and priority queues (C06).  Orderings: 0 less,  *)
(* 1 greater, 2 less by tens (so that different elements are equivalent).     *)
(* The order inside a heap is not determined: a call's last argument is the   *)
(* range it left, and the action says which ranges are allowed.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NR, NQ, Vals, MaxLen, Modes

VARIABLES rs, ps, ret       \* ranges; queues [m, b (ascending), t (top, <<>> when empty)]
vars == <<rs, ps>>
Less(m, a, b) == IF m = 0 THEN a < b ELSE IF m = 1 THEN a > b ELSE a \div 10 < b \div 10
RECURSIVE Sort(_)
Ins(s, v) == LET p == Cardinality({i \in 1..Len(s) : s[i] < v}) IN SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Sort(q) == IF q = <<>> THEN <<>> ELSE Ins(Sort(Tail(q)), Head(q))
Del(s, v) == LET p == CHOOSE i \in 1..Len(s) : s[i] = v IN SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Perm(s, t) == Len(s) = Len(t) /\ Sort(s) = Sort(t)
IsHeap(m, s) == \A i \in 2..Len(s) : ~Less(m, s[i \div 2], s[i])
Ascending(m, s) == \A i \in 1..(Len(s) - 1) : ~Less(m, s[i + 1], s[i])
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Range(s) == {s[i] : i \in 1..Len(s)}
Greatest(m, s) == {v \in Range(s) : \A w \in Range(s) : ~Less(m, v, w)}
B(x) == IF x THEN 1 ELSE 0

Empty == [m |-> 0, b |-> <<>>, t |-> <<>>]
Init == rs = [k \in 1..NR |-> <<>>] /\ ps = [k \in 1..NQ |-> Empty] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
R(k, w) == rs' = [rs EXCEPT ![k] = w] /\ UNCHANGED ps /\ Ret(<<>>)

Load(k, s)       == R(k, s)
Make(k, m, w)    == Perm(rs[k], w) /\ IsHeap(m, w) /\ R(k, w)
\* the new element stands behind a heap
Push(k, m, v, w) == IsHeap(m, rs[k]) /\ Perm(Append(rs[k], v), w) /\ IsHeap(m, w) /\ R(k, w)
Pop(k, m, w)     == /\ rs[k] # <<>> /\ IsHeap(m, rs[k]) /\ Perm(rs[k], w)
                    /\ Last(w) = rs[k][1] /\ IsHeap(m, Front(w)) /\ R(k, w)
PopBack(k)       == rs[k] # <<>> /\ R(k, Front(rs[k]))
SortH(k, m, w)   == IsHeap(m, rs[k]) /\ Perm(rs[k], w) /\ Ascending(m, w) /\ R(k, w)
Is(k, m)         == UNCHANGED vars /\ Ret(<<B(IsHeap(m, rs[k]))>>)

\* queue k becomes b under ordering m, with one of the greatest on top
Q(k, m, b) == \E t \in (IF b = <<>> THEN {<<>>} ELSE {<<v>> : v \in Greatest(m, b)}) : ps' = [ps EXCEPT ![k] = [m |-> m, b |-> b, t |-> t]]
QNew(k, m, s) == Q(k, m, Sort(s)) /\ UNCHANGED rs /\ Ret(<<>>)
QPush(k, v)   == Q(k, ps[k].m, Ins(ps[k].b, v)) /\ UNCHANGED rs /\ Ret(<<>>)
QPop(k)       == /\ ps[k].b # <<>> /\ Q(k, ps[k].m, Del(ps[k].b, ps[k].t[1])) /\ UNCHANGED rs /\ Ret(<<>>)
QSwap(k, j)   == ps' = [ps EXCEPT ![k] = ps[j], ![j] = ps[k]] /\ UNCHANGED rs /\ Ret(<<>>)
QNewMove(k, j) == k # j /\ ps' = [ps EXCEPT ![k] = ps[j], ![j] = [m |-> ps[j].m, b |-> <<>>, t |-> <<>>]] /\ UNCHANGED rs /\ Ret(<<>>)
\* everything taken out: the result is a descending permutation
QDrain(k, w)  == /\ ps' = [ps EXCEPT ![k] = [m |-> ps[k].m, b |-> <<>>, t |-> <<>>]] /\ UNCHANGED rs
                 /\ Perm(ps[k].b, w) /\ (w # <<>> => w[1] = ps[k].t[1])
                 /\ \A i \in 1..(Len(w) - 1) : ~Less(ps[k].m, w[i], w[i + 1])
                 /\ Ret(<<>>)

Do(op, a) ==
  CASE op = "load" -> Load(a[1], a[2])
    [] op = "make" -> Make(a[1], a[2], a[3])
    [] op = "push" -> Push(a[1], a[2], a[3], a[4])
    [] op = "pop" -> Pop(a[1], a[2], a[3])
    [] op = "pop_back" -> PopBack(a[1])
    [] op = "sort" -> SortH(a[1], a[2], a[3])
    [] op = "is" -> Is(a[1], a[2])
    [] op \in {"qnew", "qnew_c", "qnew_m", "qnew_cm"} -> QNew(a[1], a[2], a[3])
    [] op \in {"qpush", "qemplace"} -> QPush(a[1], a[2])
    [] op = "qpop" -> QPop(a[1])
    [] op = "qswap" -> QSwap(a[1], a[2])
    [] op = "qmove" -> a[1] # a[2] /\ QSwap(a[1], a[2])
    [] op = "qnew_move" -> QNewMove(a[1], a[2])
    [] op = "qdrain" -> QDrain(a[1], a[2])
    [] op = "fin" -> rs' = [k \in 1..NR |-> <<>>] /\ ps' = [k \in 1..NQ |-> Empty] /\ Ret(<<0>>)
    [] OTHER -> FALSE
Observe(s) == s = <<rs', [k \in 1..NQ |-> <<Len(ps'[k].b)>> \o ps'[k].t]>>

(* ---- exhaustive model ---- *)
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
Perms(s) == {w \in [1..Len(s) -> Range(s)] : Perm(s, w)}
Calls ==
  UNION {
    (IF rs[k] = <<>> THEN {<<"load", <<k, s>>>> : s \in Seqs} ELSE {<<"load", <<k, <<>>>>>>})
    \cup UNION {{<<"is", <<k, m>>>>, <<"pop_back", <<k>>>>} \cup {<<o, <<k, m, w>>>> : o \in {"make", "pop", "sort"}, w \in Perms(rs[k])}
                \cup (IF Len(rs[k]) < MaxLen THEN UNION {{<<"push", <<k, m, v, w>>>> : w \in Perms(Append(rs[k], v))} : v \in Vals} ELSE {})
                : m \in Modes}
    : k \in 1..NR}
  \cup UNION {
    (IF ps[k].b = <<>> THEN {<<o, <<k, m, s>>>> : o \in {"qnew", "qnew_c", "qnew_m", "qnew_cm"}, m \in Modes, s \in Seqs} ELSE {})
    \cup (IF Len(ps[k].b) < MaxLen THEN {<<o, <<k, v>>>> : o \in {"qpush", "qemplace"}, v \in Vals} ELSE {})
    \cup {<<"qpop", <<k>>>>}
    \cup {<<"qdrain", <<k, w>>>> : w \in Perms(ps[k].b)}
    \cup {<<o, <<k, j>>>> : o \in {"qswap", "qmove", "qnew_move"}, j \in 1..NQ}
    : k \in 1..NQ}
TopIsGreatest == \A k \in 1..NQ : ps[k].b # <<>> => ps[k].t[1] \in Greatest(ps[k].m, ps[k].b)
\* the root of a heap is one of its greatest elements
RootIsGreatest == \A k \in 1..NR, m \in Modes : rs[k] # <<>> /\ IsHeap(m, rs[k]) => rs[k][1] \in Greatest(m, rs[k])
=============================================================================
