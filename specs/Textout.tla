------------------------------ MODULE Textout --------------------------------
(* Text output streams (T01): what is written is the concatenation of the     *)
(* renderings under the settings in force.  A stream is the text known to be  *)
(* in its buffer, the position, the settings, and the state bits as for       *)
(* binary streams.  It may start in a caller's block of a given size and      *)
(* leaves that for memory of its own only when the text does not fit.  Only a *)
(* stream that has failed already may take less than it is given, a prefix,   *)
(* and then says so.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, Render
CONSTANTS NS, MaxLen, Vals

VARIABLES st,   \* st[k] = [b: text, p: position, f: flags, w: width, pr: precision, fi: fill, s: state, x: requested, cap: size of the caller's block or -1, own: has left it]
          ret
vars == <<st>>
K == 1..NS
B(c) == IF c THEN 1 ELSE 0
Bit(v, i) == (v \div i) % 2
Min(a, b) == IF a < b THEN a ELSE b
BOr(a, b) == B(Bit(a, 1) + Bit(b, 1) > 0) + (2 * B(Bit(a, 2) + Bit(b, 2) > 0)) + (4 * B(Bit(a, 4) + Bit(b, 4) > 0))
BAny(a, b) == \E i \in {1, 2, 4} : Bit(a, i) = 1 /\ Bit(b, i) = 1
Cut(q, b, e) == SubSeq(q, b + 1, e)
Rep(n, v) == [i \in 1..n |-> v]
RECURSIVE OrF(_, _), AndNotF(_, _)
OrF(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE B(a % 2 = 1 \/ b % 2 = 1) + (2 * OrF(a \div 2, b \div 2))
AndNotF(a, b) == IF a = 0 THEN 0 ELSE B(a % 2 = 1 /\ b % 2 = 0) + (2 * AndNotF(a \div 2, b \div 2))
BaseField == 896  FloatField == 3072  AdjustField == 28672
FieldOf(f) == IF f \in {128, 256, 512} THEN BaseField ELSE IF f \in {1024, 2048} THEN FloatField ELSE IF f \in {4096, 8192, 16384} THEN AdjustField ELSE 0

New(b, cap) == [b |-> b, p |-> 0, f |-> 0, w |-> 0, pr |-> 2, fi |-> 0, s |-> 0, x |-> 0, cap |-> cap, own |-> B(cap < 0)]
Init == st = [k \in K |-> New(<<>>, -1)] /\ ret = <<"", <<>>>>
Set(k, t) == st' = [st EXCEPT ![k] = t]
Ret(e, l) == ret' = <<e, l>>
Void == Ret("", <<>>)
Same == UNCHANGED vars
\* t written at the position; raw text leaves what lies behind it, numbers do not
Put(o, t, raw) == [o EXCEPT !.b = Cut(@, 0, o.p) \o t \o (IF raw THEN Cut(@, o.p + Len(t), Len(@)) ELSE <<>>), !.p = @ + Len(t)]
\* leaving the caller's block: only when the text needs it; numbers may need one byte more
Owns(o, n, raw) == IF o.own = 1 THEN {1} ELSE IF o.p + n > o.cap THEN {1} ELSE IF raw \/ o.p + n < o.cap THEN {0} ELSE {0, 1}
Lost == {4, 6}
\* n results of a call that writes the text t
Write(k, t, raw, r) ==
  LET o == st[k] IN
  IF o.s = 0 THEN \E w \in Owns(o, Len(t), raw) : Set(k, [Put(o, t, raw) EXCEPT !.own = w]) /\ Ret("", r)
  ELSE \/ \E w \in 0..1 : w >= o.own /\ (w = 0 => o.p + Len(t) <= o.cap) /\ Set(k, [Put(o, t, raw) EXCEPT !.own = w]) /\ Ret("", r)
       \* a failed stream: a prefix (numbers may miss room for one byte more), and another failure
       \/ \E m \in 0..(IF raw THEN Len(t) - 1 ELSE Len(t)) : \E l \in Lost : \E w \in 0..1 :
            /\ w >= o.own /\ (w = 0 => o.p + m <= o.cap)
            /\ Set(k, [Put(o, Cut(t, 0, m), FALSE) EXCEPT !.own = w, !.s = BOr(o.s, l)])
            /\ Ret(IF BAny(o.x, l) THEN "bounds" ELSE "", IF BAny(o.x, l) THEN <<>> ELSE r)
Raw(k, t) == Write(k, t, TRUE, <<>>)
Fmt(k, t) == Write(k, t, FALSE, <<>>)
\* flushing and telling the text end it at the position
Trunc(o) == [o EXCEPT !.b = Cut(@, 0, o.p)]
Flags(k, f, r) == Set(k, [st[k] EXCEPT !.f = f]) /\ Ret("", <<r>>)
Seek(k, p) == p \in 0..Len(st[k].b) /\ Set(k, [st[k] EXCEPT !.p = p]) /\ Void

(* ---- containers of the driver ---- *)
I(o, v) == IntT(o.f, o.w, o.fi, TRUE, Limbs32(v))
Ints(o, q) == [i \in 1..Len(q) |-> I(o, q[i])]
PairT(a, b) == <<40>> \o a \o <<44>> \o b \o <<41>>
\* strings given as length and characters
RECURSIVE Strs(_)
Strs(q) == IF q = <<>> THEN <<>> ELSE <<SubSeq(q, 2, 1 + q[1])>> \o Strs(SubSeq(q, 2 + q[1], Len(q)))
RECURSIVE Runs(_)
Runs(q) == Strs(q)
Shape(o, c, q) ==
  CASE c \in {1, 9, 10, 12} -> List(Ints(o, q))                               \* vector, tuple, array, set of int
    [] c = 2 -> List([i \in 1..Len(q) |-> ByteElement(q[i])])                \* of unsigned bytes
    [] c = 3 -> List([i \in 1..Len(q) |-> ByteElement(q[i])])                \* of signed bytes
    [] c = 4 -> List(Strs(q))                                               \* of strings
    [] c = 5 -> PairT(I(o, q[1]), I(o, q[2]))
    [] c = 6 -> List([i \in 1..(Len(q) \div 2) |-> PairT(I(o, q[(2 * i) - 1]), I(o, q[2 * i]))])   \* map
    [] c = 7 -> List([i \in 1..Len(Runs(q)) |-> List(Ints(o, Runs(q)[i]))])  \* of vectors
    [] c = 8 -> <<40>> \o List(Ints(o, SubSeq(q, 1, 2))) \o List(Ints(o, SubSeq(q, 3, 4))) \o <<41>>  \* two by two matrix
    [] c = 11 -> [i \in 1..Len(q) |-> 48 + q[Len(q) + 1 - i]]                \* bitset
    [] c = 13 -> List([i \in 1..Len(q) |-> Bool(q[i])])
    [] c = 14 -> List([i \in 1..Len(q) |-> <<q[i]>>])                        \* of char
    [] c = 15 -> PairT(SubSeq(q, 2, 1 + q[1]), List(Ints(o, SubSeq(q, 2 + q[1], Len(q)))))  \* string and vector
    [] c = 16 -> q                                                        \* a block of memory
    [] c = 17 -> Join(Ints(o, q), <<>>)                                      \* through an iterator
Msg(c, n, q) ==
  CASE c = 0 -> q
    [] c = 1 -> <<91>> \o DecS(n) \o <<58>> \o q \o <<93>>
    [] c = 2 -> <<37>> \o DecS(n)
    [] c = 3 -> LET d == Chars(Digits(Limbs32(n), 16), FALSE) IN Rep(IF Len(d) < 10 THEN 10 - Len(d) ELSE 0, 32) \o d
    [] c = 4 -> SubSeq(q, 1, Min(3, Len(q))) \o q

Do(op, a) ==
  CASE op = "new" -> Set(a[1], New(a[2], -1)) /\ Void
    [] op = "fixed" -> Set(a[1], New(<<>>, a[2])) /\ Void
    [] op = "link" -> Set(a[1], [st[a[1]] EXCEPT !.b = <<>>, !.p = 0, !.cap = a[2], !.own = 0]) /\ Void
    [] op = "setstr" -> Set(a[1], [st[a[1]] EXCEPT !.b = a[2], !.p = Len(a[2]), !.cap = -1, !.own = 1]) /\ Void
    [] op = "str" -> Set(a[1], Trunc(st[a[1]])) /\ Ret("", Cut(st[a[1]].b, 0, st[a[1]].p))
    [] op \in {"flush", "mflush"} -> Set(a[1], Trunc(st[a[1]])) /\ Void
    [] op = "endl" -> LET o == st[a[1]] IN
         \/ o.s = 0 /\ (\E w \in Owns(o, 1, TRUE) : Set(a[1], Trunc([Put(o, <<10>>, TRUE) EXCEPT !.own = w])) /\ Void)
         \/ o.s # 0 /\ (\E m \in 0..1 : \E l \in Lost : \E w \in 0..1 : w >= o.own /\ (w = 0 => o.p + m <= o.cap)
              /\ Set(a[1], Trunc([Put(o, Cut(<<10>>, 0, m), TRUE) EXCEPT !.own = w, !.s = IF m = 1 THEN @ ELSE BOr(@, l)]))
              /\ Ret(IF m = 0 /\ BAny(o.x, l) THEN "bounds" ELSE "", <<>>))
    [] op = "clear" -> Set(a[1], [st[a[1]] EXCEPT !.s = a[2]]) /\ Void
    [] op = "setstate" -> Set(a[1], [st[a[1]] EXCEPT !.s = BOr(@, a[2])]) /\ Void
    [] op = "exceptions" -> Set(a[1], [st[a[1]] EXCEPT !.x = a[2]]) /\ Void
    [] op = "flags" -> Flags(a[1], a[2], st[a[1]].f)
    [] op = "setf" -> Flags(a[1], OrF(st[a[1]].f, a[2]), st[a[1]].f)
    [] op = "unsetf" -> Flags(a[1], AndNotF(st[a[1]].f, a[2]), st[a[1]].f)
    [] op = "setfm" -> Flags(a[1], OrF(AndNotF(st[a[1]].f, a[3]), a[2]), st[a[1]].f)
    [] op = "manip" -> Set(a[1], [st[a[1]] EXCEPT !.f = OrF(AndNotF(@, FieldOf(a[2])), a[2])]) /\ Void
    [] op = "base" -> Set(a[1], [st[a[1]] EXCEPT !.f = OrF(AndNotF(@, BaseField), IF a[2] = 16 THEN HexF ELSE IF a[2] = 8 THEN OctF ELSE 128)]) /\ Void
    [] op = "setiosflags" -> Set(a[1], [st[a[1]] EXCEPT !.f = OrF(@, a[2])]) /\ Void
    [] op = "resetiosflags" -> Set(a[1], [st[a[1]] EXCEPT !.f = AndNotF(@, a[2])]) /\ Void
    [] op \in {"width", "setw", "iosw"} -> Set(a[1], [st[a[1]] EXCEPT !.w = a[2]]) /\ Void
    [] op \in {"precision", "setp"} -> Set(a[1], [st[a[1]] EXCEPT !.pr = a[2]]) /\ Void
    [] op \in {"fill", "setfill"} -> Set(a[1], [st[a[1]] EXCEPT !.fi = a[2]]) /\ Void
    [] op = "seek" -> Seek(a[1], a[2])
    [] op = "seekp" -> Seek(a[1], IF a[3] = 0 THEN a[2] ELSE st[a[1]].p + a[2])
    [] op = "chr" -> Raw(a[1], <<a[3]>>)
    [] op = "wchr" -> Raw(a[1], Utf8(a[2]))
    [] op = "bool" -> Raw(a[1], Bool(a[2]))
    [] op = "enum" -> Raw(a[1], <<110, 97, 109, 101, 48 + (IF a[2] < 0 \/ a[2] > 2 THEN 2 ELSE a[2])>>)
    [] op = "text" -> Raw(a[1], a[3])
    [] op = "int" -> Fmt(a[1], IntT(st[a[1]].f, st[a[1]].w, st[a[1]].fi, a[3] = 1, a[4]))
    [] op = "float" -> Fmt(a[1], Float(st[a[1]].f, st[a[1]].w, st[a[1]].fi, a[3], a[4], a[5], st[a[1]].pr))
    [] op = "cont" -> st[a[1]].s = 0 /\ Write(a[1], Shape(st[a[1]], a[2], a[3]), FALSE, <<>>)
    [] op = "format" -> LET t == Msg(a[2], a[3], a[4]) IN Write(a[1], t, FALSE, <<Len(t)>>)
    [] op = "written" -> a[1] # a[2] /\ Raw(a[1], Cut(st[a[2]].b, 0, st[a[2]].p))
    [] op = "fin" -> st' = [k \in K |-> New(<<>>, -1)] /\ Void
    [] OTHER -> FALSE

\* the bytes around a caller's block are as they were
Seen(o) == <<Cut(o.b, 0, o.p), o.p, o.f, o.w, o.pr, o.fi, o.s, o.x, o.own, 1>>
Observe(s) == \A k \in K : s[k] = Seen(st'[k])

(* ---- the bounded model ---- *)
Texts == { <<>>, <<97>>, <<97, 97>> }
Calls ==
  {<<"new", <<k, s>>>> : k \in K, s \in {<<>>, <<97>>}}
  \cup {<<"fixed", <<k, n>>>> : k \in K, n \in {0, 2}}
  \cup {<<"setstr", <<k, s>>>> : k \in K, s \in {<<97>>}}
  \cup {<<o, <<k>>>> : o \in {"str", "endl"}, k \in K}
  \cup {<<o, <<k, v>>>> : o \in {"clear", "setstate"}, k \in K, v \in {0, 4}}
  \cup {<<"manip", <<k, v>>>> : k \in K, v \in {4096, 8192}}
  \cup {<<"width", <<k, v>>>> : k \in K, v \in {0, 3}}
  \cup {<<"seek", <<k, v>>>> : k \in K, v \in {0, 1}}
  \cup {<<"text", <<k, 0, s>>>> : k \in K, s \in Texts}
  \cup {<<"int", <<k, 2, 1, Limbs32(v)>>>> : k \in K, v \in Vals}
Short == \A k \in K : Len(st[k].b) <= MaxLen
\* the renderings read back: the value of the digits is the number
RECURSIVE Value(_)
Value(t) == IF t = <<>> THEN 0 ELSE (10 * Value(SubSeq(t, 1, Len(t) - 1))) + (t[Len(t)] - 48)
ReadsBack == /\ \A v \in {0, 1, 9, 10, 99, 100, 65535, 65536, 999999999, 2147483647} : Value(Dec(v)) = v /\ DecS(-v) = (IF v = 0 THEN Dec(0) ELSE <<45>> \o Dec(v))
             /\ \A w \in 0..5, f \in {0, 512, 4096}, fi \in {0, 48} : Len(IntT(f, w, fi, TRUE, Limbs32(-42))) >= w
Position == \A k \in K : st[k].p \in 0..Len(st[k].b)
=============================================================================
