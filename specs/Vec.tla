-------------------------------- MODULE Vec --------------------------------
(* Sequences with value semantics (C01).  Several vector objects hold         *)
(* sequences; a vector may also be linked to part of the caller's array mem,  *)
(* sharing it until an operation that grows, inserts into, erases from or     *)
(* assigns to the vector makes it a copy of its own.                          *)
(* Positions and counts are zero based, as in the interface.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NV,           \* number of vector objects
          MemLen,       \* length of the caller's array
          MaxLen, Vals  \* bounds for the exhaustive model only

VARIABLES vs,           \* vs[k] = [lk |-> linked?, q |-> own contents, off, n |-> linked part]
          mem,          \* the caller's array
          ret           \* result of the last call: <<exception, values>>
vars == <<vs, mem>>

K == 1..NV
Own(q) == [lk |-> 0, q |-> q, off |-> 0, n |-> 0]
Empty  == [lk |-> 1, q |-> <<>>, off |-> 0, n |-> 0]     \* owns nothing
Link(off, n) == [lk |-> 1, q |-> <<>>, off |-> off, n |-> n]
C(k)   == IF vs[k].lk = 1 THEN SubSeq(mem, vs[k].off + 1, vs[k].off + vs[k].n) ELSE vs[k].q
Len0(k) == Len(C(k))
Rep(n, v) == [i \in 1..n |-> v]
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
Sub(q, i, j) == SubSeq(q, i + 1, j)                       \* [i, j)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

Init == vs = [k \in K |-> Empty] /\ mem = [i \in 1..MemLen |-> 0] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Void == Ret(<<>>)
\* a vector that has never had anything allocated still owns nothing when empty
Set(k, q) == /\ vs' = [vs EXCEPT ![k] = IF q = <<>> /\ vs[k].lk = 1 THEN Empty ELSE Own(q)]
             /\ UNCHANGED mem
Fresh(k, q) == vs' = [vs EXCEPT ![k] = IF q = <<>> THEN Empty ELSE Own(q)] /\ UNCHANGED mem
Put(k, v) == vs' = [vs EXCEPT ![k] = v] /\ UNCHANGED mem
Same == UNCHANGED vars

(* construction of vector k anew (the old one is destroyed first) *)
NewN(k, n)        == Fresh(k, Rep(n, 0)) /\ Void
NewNV(k, n, v)    == Fresh(k, Rep(n, v)) /\ Void
NewRange(k, j, a, b) == j # k /\ a <= b /\ b <= Len0(j) /\ Fresh(k, Sub(C(j), a, b)) /\ Void
NewCopy(k, j)     == j # k /\ Fresh(k, C(j)) /\ Void
NewList(k, s)     == Fresh(k, s) /\ Void
NewMove(k, j)     == j # k /\ vs' = [vs EXCEPT ![k] = vs[j], ![j] = Empty] /\ UNCHANGED mem /\ Void

(* whole-vector operations *)
\* assigning nothing to a linked vector shortens the link without copying
Assign(k, q) == IF q = <<>> /\ vs[k].lk = 1
                THEN Put(k, Link(vs[k].off, 0)) ELSE Put(k, Own(q))
Copy(k, j)        == Assign(k, C(j)) /\ Void
AssignR(k, j, a, b) == j # k /\ a <= b /\ b <= Len0(j) /\ Assign(k, Sub(C(j), a, b)) /\ Void
AssignN(k, n, v)  == Assign(k, Rep(n, v)) /\ Void
MoveTo(k, j)      == j # k /\ vs' = [vs EXCEPT ![k] = vs[j], ![j] = vs[k]] /\ UNCHANGED mem /\ Void
Swap(k, j)        == vs' = [vs EXCEPT ![k] = vs[j], ![j] = vs[k]] /\ UNCHANGED mem /\ Void
Resize(k, n, v)   == Assign(k, IF n <= Len0(k) THEN Sub(C(k), 0, n) ELSE C(k) \o Rep(n - Len0(k), v)) /\ Void
Clear(k)          == /\ Put(k, IF vs[k].lk = 1 THEN Link(vs[k].off, 0) ELSE Own(<<>>)) /\ Void
Dealloc(k)        == Put(k, Empty) /\ Void
\* returns whether the capacity is at least what was asked for
Reserve(k, n)     == Put(k, IF n = 0 THEN vs[k] ELSE Own(C(k))) /\ Ret(<<1>>)
Shrink(k)         == Put(k, IF vs[k].lk = 0 /\ vs[k].q = <<>> THEN Empty ELSE vs[k]) /\ Void
CopyLink(k)       == Put(k, IF vs[k].lk = 1 /\ vs[k].n = 0 THEN vs[k] ELSE Own(C(k))) /\ Void
LinkTo(k, off, n) == off + n <= MemLen /\ Put(k, Link(off, n)) /\ Void
Unlink(k)         == vs[k].lk = 1 /\ Put(k, Empty) /\ Void
\* the caller gives vector k ownership of an allocated array holding s
Manage(k, s)      == s # <<>> /\ Put(k, Own(s)) /\ Void

(* elements *)
Push(k, v)        == Put(k, Own(Append(C(k), v))) /\ Void
Pop(k)            == /\ Len0(k) > 0
                     /\ Put(k, IF vs[k].lk = 1 THEN Link(vs[k].off, vs[k].n - 1) ELSE Own(Sub(C(k), 0, Len0(k) - 1)))
                     /\ Void
\* inserting nothing into a vector without storage leaves it without storage
Insert(k, p, s)   == /\ p <= Len0(k)
                     /\ Put(k, IF vs[k].lk = 1 /\ C(k) = <<>> /\ s = <<>> THEN vs[k] ELSE Own(Ins(C(k), p, s)))
                     /\ Ret(<<p>>)
InsertR(k, p, j, a, b) == j # k /\ a <= b /\ b <= Len0(j) /\ Insert(k, p, Sub(C(j), a, b))
Erase(k, p, n)    == /\ p + n <= Len0(k)
                     /\ Put(k, IF vs[k].lk = 1 /\ C(k) = <<>> THEN vs[k] ELSE Own(Del(C(k), p, n)))
                     /\ Ret(<<p>>)
Write(k, i, v)    == /\ i < Len0(k)
                     /\ IF vs[k].lk = 1
                        THEN mem' = [mem EXCEPT ![vs[k].off + i + 1] = v] /\ UNCHANGED vs
                        ELSE Put(k, Own([C(k) EXCEPT ![i + 1] = v]))
                     /\ Void
MemSet(i, v)      == i < MemLen /\ mem' = [mem EXCEPT ![i + 1] = v] /\ UNCHANGED vs /\ Void

(* queries *)
Query(k)          == /\ Same
                     /\ LET q == C(k) n == Len(q) IN
                        Ret(<<n, IF n = 0 THEN 1 ELSE 0>> \o q \o Rev(q) \o (IF n = 0 THEN <<>> ELSE <<q[1], q[n]>>))
Equal(k, j)       == Same /\ Ret(<<IF C(k) = C(j) THEN 1 ELSE 0>>)

Do(op, a) ==
  CASE op = "new_n" -> NewN(a[1], a[2])
    [] op = "new_nv" -> NewNV(a[1], a[2], a[3])
    [] op = "new_range" -> NewRange(a[1], a[2], a[3], a[4])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op = "new_list" -> NewList(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "assign_r" -> AssignR(a[1], a[2], a[3], a[4])
    [] op = "assign_n" -> AssignN(a[1], a[2], a[3])
    [] op = "move" -> MoveTo(a[1], a[2])
    [] op = "swap" -> Swap(a[1], a[2])
    [] op = "resize" -> Resize(a[1], a[2], 0)
    [] op = "resize_v" -> Resize(a[1], a[2], a[3])
    [] op = "clear" -> Clear(a[1])
    [] op = "dealloc" -> Dealloc(a[1])
    [] op = "reserve" -> Reserve(a[1], a[2])
    [] op = "shrink" -> Shrink(a[1])
    [] op = "copy_link" -> CopyLink(a[1])
    [] op = "link" -> LinkTo(a[1], a[2], a[3])
    [] op = "unlink" -> Unlink(a[1])
    [] op = "manage" -> Manage(a[1], a[2])
    [] op \in {"push", "push_move", "emplace_back"} -> Push(a[1], a[2])
    [] op = "pop" -> Pop(a[1])
    [] op \in {"insert", "insert_move", "emplace"} -> Insert(a[1], a[2], <<a[3]>>)
    [] op = "insert_n" -> Insert(a[1], a[2], Rep(a[3], a[4]))
    [] op = "insert_l" -> Insert(a[1], a[2], a[3])
    [] op = "insert_r" -> InsertR(a[1], a[2], a[3], a[4], a[5])
    [] op = "erase" -> Erase(a[1], a[2], 1)
    [] op = "erase_n" -> Erase(a[1], a[2], a[3])
    [] op = "erase_r" -> a[2] <= a[3] /\ Erase(a[1], a[2], a[3] - a[2])
    [] op = "write" -> Write(a[1], a[2], a[3])
    [] op = "mem_set" -> MemSet(a[1], a[2])
    [] op = "query" -> Query(a[1])
    [] op = "equal" -> Equal(a[1], a[2])
    \* all vectors destroyed: no heap byte left
    [] op = "fin" -> vs' = [k \in K |-> Empty] /\ UNCHANGED mem /\ Ret(<<0>>)
    [] OTHER -> FALSE

\* what the driver reports after each call: contents and is_linked of each
\* vector, capacity not below size, and the caller's array
Observe(s) == s = [v |-> [k \in K |-> C(k)'], lk |-> [k \in K |-> vs'[k].lk], cap |-> 1, mem |-> mem']

(* ---- exhaustive model ---- *)
N(k) == Len0(k)
Room(k, n) == N(k) + n <= MaxLen
Lists == {<<>>} \cup {<<v>> : v \in Vals} \cup {<<1, 2>>}
Calls ==
  UNION {
    {<<"new_n", <<k, n>>>> : n \in 0..1} \cup {<<"new_nv", <<k, n, 1>>>> : n \in 0..MaxLen}
    \cup {<<"new_list", <<k, s>>>> : s \in Lists} \cup {<<"manage", <<k, s>>>> : s \in Lists}
    \cup UNION {UNION {{<<o, <<k, j, a, b>>>> : o \in {"new_range", "assign_r"}} : a \in 0..N(j), b \in 0..N(j)} : j \in K}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"new_copy", "new_move", "copy", "move", "swap", "equal"}} : j \in K}
    \cup {<<"assign_n", <<k, n, 2>>>> : n \in 0..MaxLen}
    \cup {<<"resize", <<k, n>>>> : n \in 0..MaxLen} \cup {<<"resize_v", <<k, n, 2>>>> : n \in 0..MaxLen}
    \cup {<<o, <<k>>>> : o \in {"clear", "dealloc", "shrink", "copy_link", "unlink", "pop", "query"}}
    \cup {<<"reserve", <<k, n>>>> : n \in {0, N(k), 3}}
    \cup {<<"link", <<k, o, n>>>> : o \in 0..MemLen, n \in 0..MemLen}
    \cup (IF Room(k, 1) THEN {<<o, <<k, v>>>> : o \in {"push", "push_move", "emplace_back"}, v \in Vals} ELSE {})
    \cup (IF Room(k, 1) THEN {<<o, <<k, p, 2>>>> : o \in {"insert", "insert_move", "emplace"}, p \in 0..N(k)} ELSE {})
    \cup {<<"insert_n", <<k, p, n, 1>>>> : p \in 0..N(k), n \in 0..(MaxLen - N(k))}
    \cup {<<"insert_l", <<k, p, s>>>> : p \in 0..N(k), s \in {t \in Lists : Room(k, Len(t))}}
    \cup UNION {UNION {{<<"insert_r", <<k, p, j, a, b>>>> : p \in 0..N(k), a \in 0..N(j), b \in {x \in 0..N(j) : Room(k, x)}} : i \in {0}} : j \in K}
    \cup (IF N(k) > 0 THEN {<<"erase", <<k, p>>>> : p \in 0..(N(k) - 1)} ELSE {})
    \cup {<<o, <<k, p, n>>>> : o \in {"erase_n", "erase_r"}, p \in 0..N(k), n \in 0..N(k)}
    \cup (IF N(k) > 0 THEN {<<"write", <<k, i, v>>>> : i \in 0..(N(k) - 1), v \in Vals} ELSE {})
    : k \in K}
  \cup {<<"mem_set", <<i, 1>>>> : i \in 0..(MemLen - 1)}

TypeOK == /\ \A k \in K : /\ vs[k].lk \in {0, 1}
                          /\ vs[k].lk = 1 => vs[k].q = <<>> /\ vs[k].off + vs[k].n <= MemLen
                          /\ vs[k].lk = 0 => vs[k].off = 0 /\ vs[k].n = 0
          /\ Len(mem) = MemLen
\* an operation that gives k storage of its own leaves the caller's array alone
MemOnlyByWrite == [][mem' # mem => vs' = vs]_<<vs, mem>>
=============================================================================
