-------------------------------- MODULE Mem --------------------------------
(* Memory blocks and views (M01).  Objects 1..NB are blocks, which may own   *)
(* storage or be linked; the next NL are writable views, the last NR are     *)
(* read-only views.  Linked objects refer to the caller's array mem or to    *)
(* the storage of an owning block.  A view into a block's storage is only    *)
(* good until that storage can move: the discipline of the caller, modelled  *)
(* by Drop, is to unlink such views before any call that may move it.        *)
(* Bytes uncovered by a growing or inserting call are indeterminate; the     *)
(* caller fills them at once with the value f given with the call.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NB, NL, NR, MemLen, MaxLen, Bytes

VARIABLES ob,    \* ob[k] = [own, d: own bytes, tgt: 0 nothing, -1 mem, j>0 block j; off, n]
          mem, ret
vars == <<ob, mem>>

B == 1..NB
VW == (NB + 1)..(NB + NL)
K == 1..(NB + NL + NR)
Own(d)        == [own |-> 1, d |-> d, tgt |-> 0, off |-> 0, n |-> 0]
Null          == [own |-> 0, d |-> <<>>, tgt |-> 0, off |-> 0, n |-> 0]
Link(t, o, n) == [own |-> 0, d |-> <<>>, tgt |-> t, off |-> o, n |-> n]
Rep(n, v) == [i \in 1..n |-> v]
C(o, m, k) == IF o[k].own = 1 THEN o[k].d
              ELSE IF o[k].tgt = -1 THEN SubSeq(m, o[k].off + 1, o[k].off + o[k].n)
              ELSE IF o[k].tgt > 0 THEN SubSeq(o[o[k].tgt].d, o[k].off + 1, o[k].off + o[k].n)
              ELSE <<>>
Con(k) == C(ob, mem, k)
Sz(k) == Len(Con(k))
Ins(q, p, s) == SubSeq(q, 1, p) \o s \o SubSeq(q, p + 1, Len(q))
Del(q, p, n) == SubSeq(q, 1, p) \o SubSeq(q, p + n + 1, Len(q))
\* q with s written over it from offset p
Over(q, p, s) == [i \in 1..Len(q) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE q[i]]
\* views into block k let go
Drop(o, k) == [j \in K |-> IF j # k /\ o[j].tgt = k THEN Null ELSE o[j]]
Drop2(o, k, j) == Drop(Drop(o, k), j)

Init == ob = [k \in K |-> Null] /\ mem = Rep(MemLen, 0) /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Void == Ret(<<>>)
SetB(k, v) == ob' = [Drop(ob, k) EXCEPT ![k] = v] /\ UNCHANGED mem

(* ---- blocks ---- *)
\* the content becomes q; a linked block without anything to hold stays linked
Become(k, q, keep) == SetB(k, IF keep /\ ob[k].own = 0 /\ q = <<>> THEN [ob[k] EXCEPT !.n = 0] ELSE Own(q))
Resize(k, n, f)  == LET q == Con(k) IN
                    Become(k, IF n <= Len(q) THEN SubSeq(q, 1, n) ELSE q \o Rep(n - Len(q), f), TRUE) /\ Void
Clear(k)         == Become(k, <<>>, TRUE) /\ Void
Assign(k, s)     == Become(k, s, TRUE) /\ Void
\* the source as it is once the views into block k have let go
After(k, j)      == C(Drop(ob, k), mem, j)
Copy(k, j)       == (IF j = k THEN Become(k, Con(k), TRUE) ELSE Become(k, After(k, j), TRUE)) /\ Void
Move(k, j)       == /\ j # k /\ UNCHANGED mem /\ Void
                    /\ LET o == Drop2(ob, k, j) IN ob' = [o EXCEPT ![k] = o[j], ![j] = o[k]]
SwapB(k, j)      == /\ UNCHANGED mem /\ Void
                    /\ LET o == Drop2(ob, k, j) IN ob' = [o EXCEPT ![k] = o[j], ![j] = o[k]]
Dealloc(k)       == SetB(k, Null) /\ Void
NewN(k, n, f)    == SetB(k, IF n = 0 THEN Null ELSE Own(Rep(n, f))) /\ Void
NewPN(k, s)      == SetB(k, IF s = <<>> THEN Null ELSE Own(s)) /\ Void
NewCopy(k, j)    == j # k /\ NewPN(k, After(k, j))
NewMove(k, j)    == /\ j # k /\ UNCHANGED mem /\ Void
                    /\ LET o == Drop2(ob, k, j) IN ob' = [o EXCEPT ![k] = o[j], ![j] = Null]
Reserve(k, n)    == SetB(k, IF n = 0 \/ ob[k].own = 1 THEN ob[k] ELSE Own(Con(k))) /\ Ret(<<1>>)
Shrink(k)        == SetB(k, IF ob[k].own = 1 /\ ob[k].d = <<>> THEN Null ELSE ob[k]) /\ Void
CopyLink(k)      == SetB(k, IF Con(k) = <<>> THEN ob[k] ELSE Own(Con(k))) /\ Void
Insert(k, p, n, f) == /\ p <= Sz(k)
                    /\ Become(k, Ins(Con(k), p, Rep(n, f)), TRUE) /\ Ret(<<p>>)
Erase(k, p, n)   == /\ p + n <= Sz(k)
                    /\ SetB(k, IF Sz(k) = 0 THEN ob[k] ELSE Own(Del(Con(k), p, n))) /\ Ret(<<p>>)
\* ownership of the storage passes to the caller, who finds the content in it and frees it
Release(k)       == SetB(k, Null) /\ Ret(IF ob[k].own = 1 THEN Con(k) ELSE <<>>)
Manage(k, s)     == s # <<>> /\ ob[k].own = 0 /\ SetB(k, Own(s)) /\ Void

(* ---- linking: blocks (any storage owned before is the caller's to free) and views ---- *)
LinkMem(k, o, n) == o + n <= MemLen /\ SetB(k, Link(-1, o, n)) /\ Void
\* linking to nothing of non-zero size is refused
LinkNull(k, n)   == /\ UNCHANGED vars
                    /\ IF n > 0 THEN ret' = <<"alloc", <<>>>> ELSE FALSE
\* k refers to what j holds: to j's storage, or to what j is linked to
LinkObj(k, j)    == /\ j # k /\ Void
                    /\ LET o == Drop(ob, k) IN
                       SetB(k, IF o[j].own = 1 THEN Link(j, 0, Len(o[j].d))
                               ELSE [o[j] EXCEPT !.d = <<>>])
Unlink(k)        == ob[k].own = 0 /\ SetB(k, Null) /\ Void
VResize(k, n)    == k \notin B /\ n <= Sz(k) /\ ob' = [ob EXCEPT ![k].n = n] /\ UNCHANGED mem /\ Void
VSwap(k, j)      == k \notin B /\ j \notin B /\ ob' = [ob EXCEPT ![k] = ob[j], ![j] = ob[k]] /\ UNCHANGED mem /\ Void

(* ---- writing through an object, into whatever it refers to ---- *)
WriteAt(k, p, s) ==
  /\ p + Len(s) <= Sz(k)
  /\ IF ob[k].own = 1 THEN ob' = [ob EXCEPT ![k].d = Over(@, p, s)] /\ UNCHANGED mem
     ELSE IF ob[k].tgt = -1 THEN mem' = Over(mem, ob[k].off + p, s) /\ UNCHANGED ob
     ELSE IF ob[k].tgt > 0 THEN ob' = [ob EXCEPT ![ob[k].tgt].d = Over(@, ob[k].off + p, s)] /\ UNCHANGED mem
     ELSE UNCHANGED vars
  /\ Void
RECURSIVE Times(_, _)
Times(s, c) == IF c = 0 THEN <<>> ELSE s \o Times(s, c - 1)
Fill(k, p, s, c) == (k \in B \/ k \in VW) /\ WriteAt(k, p, Times(s, c))
\* in a view insertion and erasure shift bytes within the fixed size
VInsert(k, p, n, f) == /\ k \in VW /\ p + n <= Sz(k)
                       /\ LET q == Con(k) IN WriteAt(k, 0, SubSeq(Ins(q, p, Rep(n, f)), 1, Len(q)))
VErase(k, p, n, f)  == /\ k \in VW /\ p + n <= Sz(k)
                       /\ WriteAt(k, 0, Del(Con(k), p, n) \o Rep(n, f))
MemSet(i, v)     == i < MemLen /\ mem' = Over(mem, i, <<v>>) /\ UNCHANGED ob /\ Void

Equal(k, j)      == UNCHANGED vars /\ Ret(<<IF Con(k) = Con(j) THEN 1 ELSE 0>>)
\* size, readable size, empty
Sizes(k)         == UNCHANGED vars /\ Ret(<<Sz(k), Sz(k), IF Sz(k) = 0 THEN 1 ELSE 0>>)

Do(op, a) ==
  CASE op = "resize" -> Resize(a[1], a[2], a[3])
    [] op = "clear" -> Clear(a[1])
    [] op = "assign" -> Assign(a[1], a[2])
    [] op = "copy" -> Copy(a[1], a[2])
    [] op = "move" -> Move(a[1], a[2])
    [] op = "swap" -> SwapB(a[1], a[2])
    [] op = "dealloc" -> Dealloc(a[1])
    [] op = "new_n" -> NewN(a[1], a[2], a[3])
    [] op = "new_pn" -> NewPN(a[1], a[2])
    [] op = "new_copy" -> NewCopy(a[1], a[2])
    [] op = "new_move" -> NewMove(a[1], a[2])
    [] op = "reserve" -> Reserve(a[1], a[2])
    [] op = "reserve_g" -> Reserve(a[1], 1)
    [] op = "shrink" -> Shrink(a[1])
    [] op = "copy_link" -> CopyLink(a[1])
    [] op = "insert" -> Insert(a[1], a[2], a[3], a[4])
    [] op = "erase" -> Erase(a[1], a[2], a[3])
    [] op = "release" -> Release(a[1])
    [] op = "manage" -> Manage(a[1], a[2])
    [] op = "link" -> LinkMem(a[1], a[2], a[3])
    [] op = "link_null" -> LinkNull(a[1], a[2])
    [] op = "link_obj" -> LinkObj(a[1], a[2])
    [] op = "unlink" -> Unlink(a[1])
    [] op = "vresize" -> VResize(a[1], a[2])
    [] op = "vswap" -> VSwap(a[1], a[2])
    [] op = "write" -> (a[1] \in B \/ a[1] \in VW) /\ WriteAt(a[1], a[2], <<a[3]>>)
    [] op = "fill" -> Fill(a[1], a[2], a[3], a[4])
    [] op = "vinsert" -> VInsert(a[1], a[2], a[3], a[4])
    [] op = "verase" -> VErase(a[1], a[2], a[3], a[4])
    [] op = "mem_set" -> MemSet(a[1], a[2])
    [] op = "equal" -> Equal(a[1], a[2])
    [] op = "sizes" -> Sizes(a[1])
    [] op = "fin" -> ob' = [k \in K |-> Null] /\ UNCHANGED mem /\ Ret(<<0>>)
    [] OTHER -> FALSE

\* where an object points, as the driver reports it: -1 to storage nobody else
\* has, -2 nowhere, 0..MemLen into mem, 1000 j + off into the storage of block j
At(o, k) == IF o[k].own = 1 THEN -1 ELSE IF o[k].tgt = 0 THEN -2
            ELSE IF o[k].tgt = -1 THEN o[k].off ELSE 1000 * o[k].tgt + o[k].off
Observe(s) == s = [c |-> [k \in K |-> C(ob', mem', k)], at |-> [k \in K |-> At(ob', k)], cap |-> 1, mem |-> mem']

(* ---- exhaustive model ---- *)
Lists == {<<>>} \cup {<<v>> : v \in Bytes} \cup {<<1, 2>>}
Calls ==
  UNION {
    {<<"resize", <<k, n, 1>>>> : n \in 0..MaxLen} \cup {<<"assign", <<k, s>>>> : s \in Lists}
    \cup {<<o, <<k>>>> : o \in {"clear", "dealloc", "shrink", "copy_link", "release"}}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"move", "swap", "new_move"}} : j \in B}
    \cup UNION {{<<o, <<k, j>>>> : o \in {"copy", "new_copy"}} : j \in K}
    \cup {<<"new_n", <<k, n, 2>>>> : n \in 0..1} \cup {<<"new_pn", <<k, s>>>> : s \in Lists}
    \cup {<<"reserve", <<k, n>>>> : n \in 0..(MaxLen + 1)} \cup {<<"manage", <<k, s>>>> : s \in Lists}
    \cup {<<"insert", <<k, p, n, 2>>>> : p \in 0..Sz(k), n \in 0..(MaxLen - Sz(k))}
    \cup {<<"erase", <<k, p, n>>>> : p \in 0..Sz(k), n \in 0..Sz(k)}
    : k \in B}
  \cup UNION {
    {<<"link", <<k, o, n>>>> : o \in 0..MemLen, n \in 0..MemLen} \cup {<<"link_null", <<k, 1>>>>}
    \cup {<<"link_obj", <<k, j>>>> : j \in K} \cup {<<"unlink", <<k>>>>, <<"sizes", <<k>>>>}
    \cup {<<"equal", <<k, j>>>> : j \in K}
    \cup {<<"vresize", <<k, n>>>> : n \in 0..Sz(k)} \cup {<<"vswap", <<k, j>>>> : j \in K}
    \cup {<<"write", <<k, i, v>>>> : i \in 0..(Sz(k) - 1), v \in Bytes}
    \cup {<<"fill", <<k, p, s, c>>>> : p \in 0..Sz(k), s \in {<<2>>, <<1, 2>>}, c \in 0..2}
    \cup {<<o, <<k, p, n, 1>>>> : o \in {"vinsert", "verase"}, p \in 0..Sz(k), n \in 0..Sz(k)}
    : k \in K}
  \cup {<<"mem_set", <<i, 1>>>> : i \in 0..(MemLen - 1)}

TypeOK == \A k \in K :
            /\ ob[k].own = 1 => k \in B /\ ob[k].tgt = 0
            /\ ob[k].tgt > 0 => /\ ob[k].tgt \in B /\ ob[ob[k].tgt].own = 1
                                /\ ob[k].off + ob[k].n <= Len(ob[ob[k].tgt].d)
            /\ ob[k].tgt = -1 => ob[k].off + ob[k].n <= MemLen
            /\ ob[k].tgt = 0 => ob[k].n = 0
\* only writing through an object changes the caller's memory, and then no object's own storage
MemOnlyByWrite == [][mem' # mem => ob' = ob]_<<ob, mem>>
\* what a block owns is its own: whoever does not own does not change it except by writing through a link to it
Private == [][\A k \in B : ob[k].own = 1 /\ ob'[k].own = 1 /\ ob'[k].d # ob[k].d /\ Len(ob'[k].d) = Len(ob[k].d)
                 => \A j \in B \ {k} : ob'[j].own = 1 /\ ob[j].own = 1 => ob'[j].d = ob[j].d \/ (ob'[j].d = ob[k].d /\ ob'[k].d = ob[j].d)]_vars
=============================================================================
