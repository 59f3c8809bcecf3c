------------------------------ MODULE Bstream --------------------------------
(* Binary input and output streams over a block of memory (B01).  A stream is *)
(* the block, the position in it, the state bits (1 bad, 2 end, 4 failed) and *)
(* the bits for which exceptions were requested.  An operation that would     *)
(* pass the end changes the state bits only, and throws when one of the bits  *)
(* it sets was requested.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, MaxLen, Bytes,
  Part        \* of the calls, in the bounded models: 1 input, 2 output

VARIABLES is, os,   \* is[k], os[k] = [b: block, p: position, s: state, x: requested]
          ret
vars == <<is, os>>
K == 1..NS
B(c) == IF c THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Bit(v, i) == (v \div i) % 2
BOr(a, b) == B(Bit(a, 1) + Bit(b, 1) > 0) + (2 * B(Bit(a, 2) + Bit(b, 2) > 0)) + (4 * B(Bit(a, 4) + Bit(b, 4) > 0))
BAny(a, b) == \E i \in {1, 2, 4} : Bit(a, i) = 1 /\ Bit(b, i) = 1
Rep(n, v) == [i \in 1..n |-> v]
Cut(q, b, e) == SubSeq(q, b + 1, e)
Put(q, p, s) == [i \in 1..Len(q) |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE q[i]]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
RoundUp(p, g) == ((p + g - 1) \div g) * g

New(b) == [b |-> b, p |-> 0, s |-> 0, x |-> 7]
Init == is = [k \in K |-> New(<<>>)] /\ os = [k \in K |-> New(<<>>)] /\ ret = <<"", <<>>>>
Rem(t) == Len(t.b) - t.p
\* the shortfall: rem is what there was
Bits(rem) == IF rem = 0 THEN 6 ELSE 4
Short(t, rem) == [t EXCEPT !.s = BOr(@, Bits(rem))]
Exc(t, rem) == IF BAny(t.x, Bits(rem)) THEN "bounds" ELSE ""
Read(t, n) == Cut(t.b, t.p, t.p + n)
Adv(t, n) == [t EXCEPT !.p = @ + n]
\* writing s, or reporting that it does not fit
Wr(t, s) == IF Len(s) <= Rem(t) THEN [t EXCEPT !.b = Put(@, t.p, s), !.p = @ + Len(s)] ELSE Short(t, Rem(t))
WrExc(t, s) == IF Len(s) <= Rem(t) THEN "" ELSE Exc(t, Rem(t))
\* moving to p, a position or anything outside
Seek(t, p) == IF p \in 0..Len(t.b) THEN [t EXCEPT !.p = p] ELSE Short(t, Len(t.b))
SeekExc(t, p) == IF p \in 0..Len(t.b) THEN "" ELSE Exc(t, Len(t.b))
SetI(k, t) == is' = [is EXCEPT ![k] = t] /\ UNCHANGED os
SetO(k, t) == os' = [os EXCEPT ![k] = t] /\ UNCHANGED is
Ret(e, l) == ret' = <<e, l>>
Void == Ret("", <<>>)
Same == UNCHANGED vars

(* ---- both kinds: the state bits, and positions ---- *)
Flags(t) == LET f == B(BAny(t.s, 5)) IN <<B(t.s = 0), Bit(t.s, 1), f, Bit(t.s, 2), f, 1 - f>>
Aligns(t, g) == <<B(t.p % g = 0), RoundUp(t.p, g) - t.p, Rem(t)>>
From(t, p, d) == CASE d = 0 -> p [] d = 1 -> t.p + p [] d = 2 -> Len(t.b) + p
MoveI(k, p) == SetI(k, Seek(is[k], p)) /\ Ret(SeekExc(is[k], p), <<>>)
MoveO(k, p) == SetO(k, Seek(os[k], p)) /\ Ret(SeekExc(os[k], p), <<>>)

(* ---- input ---- *)
\* n bytes, all or none; a buffer not read into keeps its mark
Get(k, n) == LET t == is[k] IN
  IF n <= Rem(t) THEN SetI(k, Adv(t, n)) /\ Ret("", Read(t, n))
  ELSE SetI(k, Short(t, Rem(t))) /\ Ret(Exc(t, Rem(t)), Rep(n, 170))
GetWord(k, w) == is[k].p % w = 0 /\ Get(k, w)
\* as many as there are, the shortfall reported
Some(k, n) == LET t == is[k]  m == Min(n, Rem(t)) IN
  IF n <= Rem(t) THEN SetI(k, Adv(t, n)) /\ Ret("", <<n>> \o Read(t, n))
  ELSE IF Exc(t, Rem(t)) # "" THEN SetI(k, Short(t, Rem(t))) /\ Ret("bounds", <<>>)
  ELSE SetI(k, Adv(Short(t, Rem(t)), m)) /\ Ret("", <<m>> \o Read(t, m))
\* up to a zero, which is skipped; none is a shortfall
Strz(k) == LET t == is[k]  z == {i \in 0..(Rem(t) - 1) : t.b[t.p + i + 1] = 0} IN
  IF z = {} THEN SetI(k, Short(t, Rem(t))) /\ Ret(Exc(t, Rem(t)), <<170>>)
  ELSE LET n == CHOOSE i \in z : \A j \in z : i <= j IN SetI(k, Adv(t, n + 1)) /\ Ret("", Read(t, n))
Verify(k, n) == LET t == is[k] IN
  IF n <= Rem(t) THEN Same /\ Ret("", <<1>>)
  ELSE SetI(k, Short(t, Rem(t))) /\ Ret(Exc(t, Rem(t)), IF Exc(t, Rem(t)) = "" THEN <<0>> ELSE <<>>)
VerifyO(k, n) == LET t == os[k] IN
  IF n <= Rem(t) THEN Same /\ Ret("", <<1>>)
  ELSE SetO(k, Short(t, Rem(t))) /\ Ret(Exc(t, Rem(t)), IF Exc(t, Rem(t)) = "" THEN <<0>> ELSE <<>>)
\* words of w bytes by an iterator, until there is less than one left
Words(k, w) == LET t == is[k]  n == (Rem(t) \div w) * w  r == Rem(t) - n IN
  /\ t.p % w = 0
  /\ SetI(k, Short(Adv(t, n), r)) /\ Ret(Exc(t, r), Read(t, n))
\* one word by an iterator, n words further, m back
Walk(k, w, n, m) == LET t == is[k] IN
  /\ t.p % w = 0 /\ m <= n /\ (n + 1) * w <= Rem(t)
  /\ SetI(k, Adv(t, (n - m + 1) * w)) /\ Ret("", Cut(t.b, t.p + ((n - m) * w), t.p + ((n - m + 1) * w)))
\* exchanges what is read, not the state
SwapI(k, j) == is' = [is EXCEPT ![k].b = is[j].b, ![k].p = is[j].p, ![j].b = is[k].b, ![j].p = is[k].p] /\ UNCHANGED os /\ Void
SwapO(k, j) == os' = [os EXCEPT ![k].b = os[j].b, ![k].p = os[j].p, ![j].b = os[k].b, ![j].p = os[k].p] /\ UNCHANGED is /\ Void

(* ---- output ---- *)
Write(k, s) == SetO(k, Wr(os[k], s)) /\ Ret(WrExc(os[k], s), <<>>)
WriteWord(k, s) == os[k].p % Len(s) = 0 /\ Write(k, s)
\* words by an output iterator: each by itself, up to an exception
RECURSIVE WordsO(_, _)
WordsO(t, q) == IF q = <<>> THEN <<t, "">>
                ELSE LET e == WrExc(t, q[1]) IN IF e # "" THEN <<Wr(t, q[1]), e>> ELSE WordsO(Wr(t, q[1]), Tail(q))
Chunks(s, w) == [i \in 1..(Len(s) \div w) |-> Cut(s, (i - 1) * w, i * w)]
CopyOut(k, w, s) == /\ os[k].p % w = 0
                    /\ LET r == WordsO(os[k], Chunks(s, w)) IN SetO(k, r[1]) /\ Ret(r[2], <<>>)
AlignO(k, g) == Write(k, Rep(RoundUp(os[k].p, g) - os[k].p, 0))
\* a gap of n bytes at p within what was written, filled by the caller with f
InsO(k, p, n, f) == LET t == os[k]  e == Exc(t, Rem(t)) IN
  /\ p <= t.p
  /\ IF n <= Rem(t) THEN SetO(k, [t EXCEPT !.b = Cut(@, 0, p) \o Rep(n, f) \o Cut(@, p, Len(@) - n), !.p = @ + n]) /\ Void
     ELSE SetO(k, Short(t, Rem(t))) /\ Ret(e, <<>>)
DelO(k, p, n, f) == LET t == os[k] IN
  /\ p + n <= t.p
  /\ SetO(k, [t EXCEPT !.b = Cut(@, 0, p) \o Cut(@, p + n, Len(@)) \o Rep(n, f), !.p = @ - n]) /\ Void
\* everything unread into an output stream; the source is consumed only if it fitted
Drain(k, j) == LET s == Read(is[j], Rem(is[j]))  t == os[k] IN
  /\ os' = [os EXCEPT ![k] = Wr(t, s)]
  /\ is' = [is EXCEPT ![j].p = IF Len(s) <= Rem(t) THEN Len(is[j].b) ELSE @]
  /\ Ret(WrExc(t, s), <<>>)
Unread(k, j) == Write(k, Read(is[j], Rem(is[j])))
Written(k, j) == k # j /\ Write(k, Cut(os[j].b, 0, os[j].p))
View(k) == Same /\ Ret("", Cut(os[k].b, 0, os[k].p))

Do(op, a) ==
  CASE op = "link" -> SetI(a[1], [is[a[1]] EXCEPT !.b = a[2], !.p = 0]) /\ Void
    [] op = "unlink" -> SetI(a[1], [is[a[1]] EXCEPT !.b = <<>>, !.p = 0]) /\ Void
    [] op = "clear" -> SetI(a[1], [is[a[1]] EXCEPT !.s = a[2]]) /\ Void
    [] op = "setstate" -> SetI(a[1], [is[a[1]] EXCEPT !.s = BOr(@, a[2])]) /\ Void
    [] op = "exceptions" -> SetI(a[1], [is[a[1]] EXCEPT !.x = a[2]]) /\ Ret("", <<a[2]>>)
    [] op = "flags" -> Same /\ Ret("", Flags(is[a[1]]))
    [] op = "aligned" -> Same /\ Ret("", Aligns(is[a[1]], a[2]))
    [] op \in {"seek", "iseek"} -> MoveI(a[1], a[2])
    [] op = "seekg" -> MoveI(a[1], From(is[a[1]], a[2], a[3]))
    [] op = "skip" -> MoveI(a[1], is[a[1]].p + a[2])
    [] op = "ungetc" -> MoveI(a[1], is[a[1]].p - 1)
    [] op = "align" -> MoveI(a[1], RoundUp(is[a[1]].p, a[2]))
    [] op \in {"read", "readl"} -> Get(a[1], a[2])
    [] op \in {"get", "getop"} -> GetWord(a[1], a[2])
    [] op = "readsome" -> Some(a[1], a[2])
    [] op = "strz" -> Strz(a[1])
    [] op = "verify" -> Verify(a[1], a[2])
    [] op = "words" -> Words(a[1], a[2])
    [] op = "walk" -> Walk(a[1], a[2], a[3], a[4])
    [] op = "swap" -> SwapI(a[1], a[2])
    [] op = "olink" -> SetO(a[1], [os[a[1]] EXCEPT !.b = Rep(a[2], a[3]), !.p = 0]) /\ Void
    [] op = "ounlink" -> SetO(a[1], [os[a[1]] EXCEPT !.b = <<>>, !.p = 0]) /\ Void
    [] op = "oclear" -> SetO(a[1], [os[a[1]] EXCEPT !.s = a[2]]) /\ Void
    [] op = "osetstate" -> SetO(a[1], [os[a[1]] EXCEPT !.s = BOr(@, a[2])]) /\ Void
    [] op = "oexceptions" -> SetO(a[1], [os[a[1]] EXCEPT !.x = a[2]]) /\ Ret("", <<a[2]>>)
    [] op = "oflags" -> Same /\ Ret("", Flags(os[a[1]]))
    [] op = "oaligned" -> Same /\ Ret("", Aligns(os[a[1]], a[2]))
    [] op \in {"oseek", "oiseek"} -> MoveO(a[1], a[2])
    [] op = "seekp" -> MoveO(a[1], From(os[a[1]], a[2], a[3]))
    [] op = "oskip" -> MoveO(a[1], os[a[1]].p + a[2])
    [] op = "oalign" -> AlignO(a[1], a[2])
    [] op \in {"write", "writel"} -> Write(a[1], a[2])
    [] op \in {"put", "putop"} -> WriteWord(a[1], a[2])
    [] op = "wstrz" -> Write(a[1], Append(a[2], 0))
    [] op = "wordso" -> CopyOut(a[1], a[2], a[3])
    [] op = "overify" -> VerifyO(a[1], a[2])
    [] op = "insert" -> InsO(a[1], a[2], a[3], a[4])
    [] op = "erase" -> DelO(a[1], a[2], a[3], a[4])
    [] op \in {"drain", "drainop"} -> Drain(a[1], a[2])
    [] op \in {"unread", "unreadop"} -> Unread(a[1], a[2])
    [] op \in {"written", "writtenop"} -> Written(a[1], a[2])
    [] op = "view" -> View(a[1])
    [] op = "oswap" -> SwapO(a[1], a[2])
    [] op = "fin" -> is' = [k \in K |-> New(<<>>)] /\ os' = [k \in K |-> New(<<>>)] /\ Void
    [] OTHER -> FALSE

Seen(t) == <<t.b, t.p, Rem(t), t.s, t.x>>
Observe(s) == \A k \in K : s[1][k] = Seen(is'[k]) /\ s[2][k] = Seen(os'[k])

(* ---- the bounded model ---- *)
Small == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
N == 0..(MaxLen + 1)
InCalls ==
  {<<"link", <<k, s>>>> : k \in K, s \in Small}
  \cup {<<o, <<k>>>> : o \in {"unlink", "ungetc", "strz", "flags"}, k \in K}
  \cup {<<"clear", <<k, v>>>> : k \in K, v \in {0}}
  \cup {<<"exceptions", <<k, v>>>> : k \in K, v \in {0, 2, 7}}
  \cup {<<o, <<k, n>>>> : o \in {"seek", "skip", "read", "readsome", "verify"}, k \in K, n \in N}
  \cup {<<"seekg", <<k, p, d>>>> : k \in K, p \in {-1, 1}, d \in {1, 2}}
  \cup {<<o, <<k, g>>>> : o \in {"align", "words", "aligned"}, k \in K, g \in {1, 2}}
OutCalls ==
  {<<o, <<k, s>>>> : o \in {"write", "wstrz"}, k \in K, s \in Small}
  \cup {<<"link", <<k, s>>>> : k \in K, s \in {t \in Small : Len(t) < 2}}
  \cup {<<o, <<k>>>> : o \in {"view", "ounlink", "oflags"}, k \in K}
  \cup {<<"oclear", <<k, v>>>> : k \in K, v \in {0}}
  \cup {<<"oexceptions", <<k, v>>>> : k \in K, v \in {2, 7}}
  \cup {<<o, <<k, n>>>> : o \in {"oseek", "oskip", "overify"}, k \in K, n \in N}
  \cup {<<"seekp", <<k, p, d>>>> : k \in K, p \in {-1, 1}, d \in {1, 2}}
  \cup {<<"oalign", <<k, g>>>> : k \in K, g \in {1, 2}}
  \cup {<<"olink", <<k, n, 1>>>> : k \in K, n \in 0..MaxLen}
  \cup {<<"insert", <<k, p, n, 0>>>> : k \in K, p \in 0..1, n \in N}
  \cup {<<"erase", <<k, p, n, 1>>>> : k \in K, p \in 0..1, n \in N}
  \cup {<<o, <<k, j>>>> : o \in {"drain", "unread"}, k \in K, j \in K}
Calls == IF Part = 1 THEN InCalls ELSE OutCalls
\* the property itself: positions stay inside, whatever is done
InBounds == \A k \in K : is[k].p \in 0..Len(is[k].b) /\ os[k].p \in 0..Len(os[k].b) /\ is[k].s \in 0..7 /\ os[k].s \in 0..7
\* a step that sets a state bit anew, other than by request, moves nothing
Quiet == [][\A k \in K : (is'[k].b = is[k].b /\ is'[k].s # is[k].s /\ is'[k].s # 0 /\ ret'[1] # "") => is'[k].p >= is[k].p]_vars
OutKeeps == [][\A k \in K : (Len(os'[k].b) = Len(os[k].b) /\ ret'[1] # "" /\ os'[k].s # os[k].s) => os'[k].b = os[k].b /\ os'[k].p = os[k].p]_vars
=============================================================================
