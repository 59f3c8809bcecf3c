------------------------------- MODULE Textin --------------------------------
(* Text input streams (T02): what an extraction takes from the text and what  *)
(* it yields.  A stream is a text, the position, the delimiters, the base     *)
(* settings, the state bits and the count of the last unformatted read.  All  *)
(* extractions are functions of the text from the position on; one that needs *)
(* more than there is takes what there is and fails, as an exception when     *)
(* those were asked for, with the position at the end.                        *)
EXTENDS Integers, Sequences, FiniteSets, Render
CONSTANTS NS

VARIABLES st,   \* st[k] = [b: text, p: position, f: flags, d: delimiters, s: state, x: requested, g: count,
        \*  more: text that is there only after the error er, which comes first]
          ret
vars == <<st>>
K == 1..NS
B(c) == IF c THEN 1 ELSE 0
Bit(v, i) == (v \div i) % 2
Min(a, b) == IF a < b THEN a ELSE b
BOr(a, b) == B(Bit(a, 1) + Bit(b, 1) > 0) + (2 * B(Bit(a, 2) + Bit(b, 2) > 0)) + (4 * B(Bit(a, 4) + Bit(b, 4) > 0))
BAny(a, b) == \E i \in {1, 2, 4} : Bit(a, i) = 1 /\ Bit(b, i) = 1
RECURSIVE OrF(_, _), AndNotF(_, _)
OrF(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE B(a % 2 = 1 \/ b % 2 = 1) + (2 * OrF(a \div 2, b \div 2))
AndNotF(a, b) == IF a = 0 THEN 0 ELSE B(a % 2 = 1 /\ b % 2 = 0) + (2 * AndNotF(a \div 2, b \div 2))
FieldOf(f) == IF f \in {128, 256, 512} THEN 896 ELSE IF f \in {1024, 2048} THEN 3072 ELSE IF f \in {4096, 8192, 16384} THEN 28672 ELSE 0

Default == <<32, 9, 10, 13, 59, 58, 44, 46, 63>>
New(b) == [b |-> b, p |-> 0, f |-> 0, d |-> Default, s |-> 0, x |-> 0, g |-> 0, more |-> <<>>, er |-> 0]
Init == st = [k \in K |-> New(<<>>)] /\ ret = <<"", <<>>>>
Set(k, t) == st' = [st EXCEPT ![k] = t]
Ret(e, l) == ret' = <<e, l>>
Void == Ret("", <<>>)
\* the stream o having done its work, with the failure l (0 for none) and the result r
Done(k, o, l, r) == Set(k, [o EXCEPT !.s = BOr(@, l)])
  /\ (IF ~BAny(o.x, l) THEN Ret("", r) ELSE IF o.er = 0 THEN Ret("bounds", <<>>) ELSE Ret("file", <<o.er>>))
\* what it is to need more than there is, none being left or some
AtEnd(o) == IF o.er = 0 THEN 6 ELSE 4
Lacking(o) == IF o.er = 0 /\ o.p = Len(o.b) THEN 6 ELSE 4
\* the error having come, what is behind it
Revealed(o, there) == IF there = 1 THEN [o EXCEPT !.b = @ \o o.more, !.more = <<>>, !.er = 0] ELSE o
End(o) == [o EXCEPT !.p = Len(o.b)]
Cut(q, b, e) == SubSeq(q, b + 1, e)
\* the character at offset i of the text
At(b, i) == IF i < Len(b) THEN b[i + 1] ELSE -1
\* the zero that ends a short list of delimiters is one too
Delim(o, c) == (Len(o.d) < 15 /\ c = 0) \/ \E i \in 1..Min(15, Len(o.d)) : o.d[i] = c
\* first offset from i on whose character is in S(c), or the length
RECURSIVE Token(_, _)
Token(o, i) == IF i >= Len(o.b) THEN i ELSE IF Delim(o, o.b[i + 1]) THEN Token(o, i + 1) ELSE i
RECURSIVE Next_(_, _, _)
Next_(b, i, c) == IF i >= Len(b) THEN i ELSE IF b[i + 1] = c THEN i ELSE Next_(b, i + 1, c)
SChar(c) == IF c > 127 THEN c - 256 ELSE c
Max(a, b) == IF a > b THEN a ELSE b

(* ---- numbers ---- *)
Space(c) == c = 32 \/ c \in 9..13
RECURSIVE Spaces(_, _)
Spaces(b, i) == IF Space(At(b, i)) THEN Spaces(b, i + 1) ELSE i
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
RECURSIVE RunOf(_, _, _)
RunOf(b, i, base) == IF DigitOf(At(b, i)) < base THEN RunOf(b, i + 1, base) ELSE i
\* limbs times d plus c
RECURSIVE MulAdd(_, _, _)
MulAdd(q, d, c) == IF q = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET x == (q[1] * d) + c IN <<x % 65536>> \o MulAdd(Tail(q), d, x \div 65536)
RECURSIVE LimbsOf(_, _, _, _)
LimbsOf(b, i, e, base) == IF e <= i THEN <<>> ELSE MulAdd(LimbsOf(b, i, e - 1, base), base, DigitOf(b[e]))
RECURSIVE AllNone(_)
AllNone(q) == IF q = <<>> THEN TRUE ELSE q[1] = 0 /\ AllNone(Tail(q))
Zeros(n) == [i \in 1..n |-> 0]
Trim(q, n) == IF Len(q) >= n THEN SubSeq(q, 1, n) ELSE q \o Zeros(n - Len(q))
\* the integer at offset i: where it ends (i when there is none), its sign and magnitude
IntAt(b, i, fl) ==
  LET j == Spaces(b, i)
      ng == At(b, j) = 45
      k == IF At(b, j) \in {43, 45} THEN j + 1 ELSE j
      want == IF Bit(fl, HexF) = 1 THEN 16 ELSE IF Bit(fl, OctF) = 1 THEN 8 ELSE 0
      hex == want \in {0, 16} /\ At(b, k) = 48 /\ At(b, k + 1) \in {88, 120} /\ DigitOf(At(b, k + 2)) < 16
      base == IF hex THEN 16 ELSE IF want # 0 THEN want ELSE IF At(b, k) = 48 THEN 8 ELSE 10
      from == IF hex THEN k + 2 ELSE k
      e == RunOf(b, from, base)
  IN IF e = from THEN [e |-> i, ng |-> FALSE, m |-> <<>>] ELSE [e |-> e, ng |-> ng, m |-> LimbsOf(b, from, e, base)]
\* is q, n limbs, the value of that integer, if it fits the type?
IsValue(a, sgn, q) ==
  LET n == Len(q)
      fits == AllNone(SubSeq(a.m, n + 1, Len(a.m)))
      m == Trim(a.m, n)
      half == IF n = 0 THEN 0 ELSE m[n]
      small == IF sgn THEN half < 32768 \/ (a.ng /\ m = Zeros(n - 1) \o <<32768>>) ELSE ~a.ng \/ AllNone(a.m)
  IN (fits /\ small) => q = (IF a.ng /\ ~AllNone(a.m) THEN Negate(m) ELSE m)
\* a floating point number at offset i
FloatAt(b, i) ==
  LET j == Spaces(b, i)
      ng == At(b, j) = 45
      k == IF At(b, j) \in {43, 45} THEN j + 1 ELSE j
      w == RunOf(b, k, 10)
      pt == At(b, w) = 46
      fr == IF pt THEN RunOf(b, w + 1, 10) ELSE w
      some == w > k \/ (pt /\ fr > w + 1)
      en == IF pt THEN fr ELSE w
      es == IF At(b, en + 1) \in {43, 45} THEN en + 2 ELSE en + 1
      ee == RunOf(b, es, 10)
      ex == At(b, en) \in {69, 101} /\ ee > es
      xv == IF ~ex THEN 0 ELSE IF ee - es > 2 THEN 99 ELSE LET v == IF ee - es = 1 THEN b[es + 1] - 48 ELSE (10 * (b[es + 1] - 48)) + b[es + 2] - 48 IN IF At(b, en + 1) = 45 THEN -v ELSE v
  IN IF ~some THEN [e |-> i, ng |-> FALSE, w |-> <<>>, f |-> <<>>, x |-> 0]
     ELSE [e |-> IF ex THEN ee ELSE en, ng |-> ng, w |-> [n \in 1..(w - k) |-> b[k + n] - 48], f |-> IF pt THEN [n \in 1..(fr - w - 1) |-> b[w + 1 + n] - 48] ELSE <<>>, x |-> xv]
RECURSIVE Strip(_), DecVal(_), Part256(_)
Strip(g) == IF g # <<>> /\ g[1] = 0 THEN Strip(Tail(g)) ELSE g
DecVal(g) == IF g = <<>> THEN 0 ELSE (10 * DecVal(SubSeq(g, 1, Len(g) - 1))) + g[Len(g)]
\* the whole part of 256 times 0.g
Part256(g) == IF g = <<>> THEN 0 ELSE ((256 * g[1]) + Part256(Tail(g))) \div 10
IsFloat(a, ty, sg, w, part) ==
  LET all == a.w \o a.f
      pt == Len(a.w) + a.x
      pre == IF pt < 0 THEN Zeros(-pt) \o all ELSE all
      p2 == Max(pt, 0)
      wh == Strip(IF p2 <= Len(pre) THEN SubSeq(pre, 1, p2) ELSE pre \o Zeros(p2 - Len(pre)))
      fr == SubSeq(pre, p2 + 1, Len(pre))
      v == DecVal(wh)
      t == Part256(fr)
  IN (a.x \in -30..30 /\ Len(wh) <= 9 /\ Len(Strip(all)) <= 14) =>
       /\ AllNone(all) \/ sg = B(a.ng)
       /\ CASE ty = 0 -> v < 8192 => (w * 256) + part \in {(v * 256) + t, (v * 256) + t + 1}
            [] OTHER -> w = v /\ part = t

(* ---- words ---- *)
Escaped(c) == CASE c = 116 -> 9 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 98 -> 8 [] c = 69 -> 27 [] OTHER -> c
\* the word v read so far, its last character as it counts for escapes, the quote or 0
RECURSIVE Word(_, _, _, _, _)
Word(o, i, v, pc, qt) ==
  IF i >= Len(o.b) THEN [e |-> i, v |-> v, l |-> AtEnd(o)]
  ELSE LET c == o.b[i + 1] IN
       IF qt = 0 /\ Delim(o, c) THEN [e |-> i + 1, v |-> v, l |-> 0]
       ELSE IF pc = 92 THEN Word(o, i + 1, Append(SubSeq(v, 1, Len(v) - 1), Escaped(c)), IF c = 92 THEN 0 ELSE Escaped(c), qt)
       ELSE IF c = qt THEN    \* a zero ends any word without quotes
            [e |-> i + 1, v |-> v, l |-> 0]
       ELSE Word(o, i + 1, Append(v, c), c, qt)
WordAt(o, i) == LET c == At(o.b, i)  q == c \in {34, 39} IN Word(o, i + 1, IF q THEN <<>> ELSE <<c>>, c, IF q THEN c ELSE 0)
RECURSIVE Common(_, _, _)
Common(b, i, t) == IF t # <<>> /\ At(b, i) = t[1] THEN Common(b, i + 1, Tail(t)) ELSE i
TrueT == <<116, 114, 117, 101>>  FalseT == <<102, 97, 108, 115, 101>>
\* characters as written by programs: the length by the first byte, and its value
SeqLen(c) == IF c < 192 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE IF c < 248 THEN 4 ELSE IF c < 252 THEN 5 ELSE IF c < 254 THEN 6 ELSE 7
RECURSIVE Tailed(_, _)
Tailed(v, q) == IF q = <<>> THEN v ELSE Tailed((64 * v) + (q[1] % 64), Tail(q))
Decoded(q) == LET c == q[1]  n == Len(q) IN IF n = 1 THEN c ELSE Tailed(c % (CASE n = 2 -> 32 [] n = 3 -> 16 [] OTHER -> 8), Tail(q))

(* ---- unformatted ---- *)
\* characters up to the delimiter, at most n; the failure when the text ends first
Until(o, n, c) == LET e == Min(o.p + n, Next_(o.b, o.p, c)) IN [e |-> e, v |-> Cut(o.b, o.p, e), l |-> IF e = Len(o.b) /\ e - o.p < n THEN AtEnd(o) ELSE 0]
Big == 1000000
Take(k, o, u, r) == Done(k, [o EXCEPT !.p = u.e, !.g = Len(u.v)], u.l, r)
\* and then the delimiter itself, unless the text failed with an exception before
Line(k, o, u, r) == LET d == At(o.b, u.e) = u.d IN
  IF BAny(o.x, u.l) THEN Take(k, o, u, r) ELSE Done(k, [o EXCEPT !.p = u.e + B(d), !.g = Len(u.v) + B(d)], u.l, r)
Lined(u, d) == [e |-> u.e, v |-> u.v, l |-> u.l, d |-> d]
\* n characters, or what there is of text, terminated
Read(k, o, n) ==
  IF n <= Len(o.b) - o.p THEN Done(k, [o EXCEPT !.p = @ + n, !.g = n], 0, Cut(o.b, o.p, o.p + n))
  ELSE LET l1 == Lacking(o)  u == Until(o, n - 1, 0) IN
       IF BAny(o.x, l1) THEN Done(k, o, l1, <<>>) ELSE Take(k, o, [u EXCEPT !.l = BOr(l1, u.l)], Append(u.v, 0))
RECURSIVE Bits(_, _, _)
\* n bits more, each a character of the text
Bits(o, n, v) ==
  IF n = 0 THEN [o |-> o, v |-> v, l |-> 0]
  ELSE LET i == Token(o, o.p)  c == At(o.b, i) IN
       IF i >= Len(o.b) THEN [o |-> End(o), v |-> v \o Zeros(n), l |-> AtEnd(o)]
       ELSE LET o2 == [o EXCEPT !.p = i + 1] IN IF o.s # 0 THEN [o |-> o2, v |-> v \o Zeros(n), l |-> 0] ELSE Bits(o2, n - 1, Append(v, B(c = 49)))
Seek(k, p) == p \in 0..Len(st[k].b) /\ Set(k, [st[k] EXCEPT !.p = p]) /\ Void
Flags(k, f, r) == Set(k, [st[k] EXCEPT !.f = f]) /\ Ret("", <<r>>)
\* an extraction by token: F has the stream at the token
Missing(o) == Token(o, o.p) >= Len(o.b)

Do(op, a) ==
  LET k == a[1]  o == st[k]  i == Token(o, o.p)  c == At(o.b, i) IN
  CASE op = "new" -> Set(k, New(a[3])) /\ Void
    [] op = "settext" -> Set(k, [o EXCEPT !.b = a[2], !.p = 0]) /\ Void
    [] op = "delims" -> Set(k, [o EXCEPT !.d = a[2]]) /\ Void
    [] op = "newfault" -> Set(k, [New(Cut(a[3], 0, a[4])) EXCEPT !.more = Cut(a[3], a[4], Len(a[3])), !.er = a[5]]) /\ a[4] \in 0..Len(a[3]) /\ Void
    [] op = "reopen" -> Set(k, [o EXCEPT !.b = a[2], !.p = 0, !.s = 0, !.more = <<>>, !.er = 0]) /\ Void
    [] op = "clear" -> Set(k, [(IF Len(a) > 2 THEN Revealed(o, a[3]) ELSE o) EXCEPT !.s = a[2]]) /\ Void
    [] op = "setstate" -> Set(k, [o EXCEPT !.s = BOr(@, a[2])]) /\ Void
    [] op = "exceptions" -> Set(k, [o EXCEPT !.x = a[2]]) /\ Void
    [] op = "flags" -> Flags(k, a[2], o.f)
    [] op = "setf" -> Flags(k, OrF(o.f, a[2]), o.f)
    [] op = "unsetf" -> Flags(k, AndNotF(o.f, a[2]), o.f)
    [] op = "setfm" -> Flags(k, OrF(AndNotF(o.f, a[3]), a[2]), o.f)
    [] op = "manip" -> Set(k, [o EXCEPT !.f = OrF(AndNotF(@, FieldOf(a[2])), a[2])]) /\ Void
    [] op = "seek" -> Seek(k, a[2])
    [] op = "fseekg" -> LET t == Revealed(o, a[4])
                            p == CASE a[3] = 0 -> a[2] [] a[3] = 1 -> o.p + a[2] [] OTHER -> Len(o.b) + Len(o.more) + a[2]
                        IN p \in 0..Len(t.b) /\ Set(k, [t EXCEPT !.p = p]) /\ Ret("", <<p>>)
    [] op = "tellg" -> Ret("", <<o.p>>) /\ Set(k, o)
    [] op = "fsync" -> a[2] \in o.p..Len(o.b) /\ Set(k, [o EXCEPT !.p = a[2], !.s = a[3]]) /\ Void  \* what then, it says
    [] op = "seekg" -> Seek(k, CASE a[3] = 0 -> a[2] [] a[3] = 1 -> o.p + a[2] [] OTHER -> Len(o.b) + a[2])
    [] op = "skip" -> Seek(k, o.p + a[2])
    [] op = "unget" -> Seek(k, o.p - 1)
    [] op = "sync" -> Seek(k, Len(o.b))
    [] op = "char" -> IF Missing(o) THEN Done(k, End(o), AtEnd(o), <<0>>) ELSE Done(k, [o EXCEPT !.p = i + 1], 0, <<c>>)
    [] op = "word" -> IF Missing(o) THEN Done(k, End(o), AtEnd(o), <<>>)
                      ELSE IF c = 0 THEN Done(k, [o EXCEPT !.p = i + 1], 0, <<>>)
                      ELSE LET w == WordAt(o, i) IN Done(k, [o EXCEPT !.p = w.e], w.l, w.v)
    [] op = "bool" -> IF Missing(o) THEN Done(k, End(o), AtEnd(o), <<0>>)
                      ELSE IF c \notin {102, 116} THEN Done(k, [o EXCEPT !.p = i + 1], 0, <<B(c = 49)>>)
                      ELSE LET t == IF c = 116 THEN TrueT ELSE FalseT  e == Common(o.b, i, t) IN
                           Done(k, [o EXCEPT !.p = e], IF e = Len(o.b) /\ e - i < Len(t) THEN AtEnd(o) ELSE 0, <<B(c = 116)>>)
    [] op = "wchr" -> IF Missing(o) THEN Done(k, End(o), AtEnd(o), <<0>>)
                      ELSE IF c = 0 THEN Done(k, [o EXCEPT !.p = i + 1], 0, <<0>>)
                      ELSE LET n == SeqLen(c)  at == [o EXCEPT !.p = i] IN
                           IF i + n > Len(o.b) THEN Done(k, at, 4, <<SChar(c)>>) ELSE Done(k, [o EXCEPT !.p = i + n], 0, <<Decoded(Cut(o.b, i, i + n))>>)
    [] op = "int" -> \* the value read comes as a witness
         LET z == \A n \in 1..Len(a[4]) : a[4][n] = 0 IN
         IF Missing(o) THEN (z \/ BAny(o.x, AtEnd(o))) /\ Done(k, End(o), AtEnd(o), <<>>)
         ELSE IF c = 0 THEN z /\ Done(k, [o EXCEPT !.p = i + 1], 0, <<>>)
         ELSE LET v == IntAt(o.b, i, o.f)  l == IF v.e = Len(o.b) THEN AtEnd(o) ELSE 0 IN
              (BAny(o.x, l) \/ (IsValue(v, a[3] = 1, a[4]) = TRUE)) /\ Done(k, [o EXCEPT !.p = v.e], l, <<>>)
    [] op = "float" ->
         LET z == a[4] = 0 /\ a[5] = 0 IN
         IF Missing(o) THEN (z \/ BAny(o.x, AtEnd(o))) /\ Done(k, End(o), AtEnd(o), <<>>)
         ELSE IF c = 0 THEN z /\ Done(k, [o EXCEPT !.p = i + 1], 0, <<>>)
         ELSE LET v == FloatAt(o.b, i)  l == IF v.e = Len(o.b) THEN AtEnd(o) ELSE 0 IN
              (BAny(o.x, l) \/ (IsFloat(v, a[2], a[3], a[4], a[5]) = TRUE)) /\ Done(k, [o EXCEPT !.p = v.e], l, <<>>)
    [] op = "bits" -> LET w == Bits(o, 8, <<>>) IN Done(k, w.o, w.l, w.v)
    [] op = "get1" -> IF o.p < Len(o.b) THEN Done(k, [o EXCEPT !.p = @ + 1, !.g = 1], 0, <<SChar(o.b[o.p + 1])>>)
                      ELSE Done(k, IF BAny(o.x, AtEnd(o)) THEN o ELSE [o EXCEPT !.g = 0], AtEnd(o), <<-1>>)
    [] op = "getc" -> IF o.p < Len(o.b) THEN Done(k, [o EXCEPT !.p = @ + 1, !.g = 1], 0, <<SChar(o.b[o.p + 1])>>)
                      ELSE Done(k, IF BAny(o.x, AtEnd(o)) THEN o ELSE [o EXCEPT !.g = 0], AtEnd(o), <<0>>)
    [] op = "peek" -> IF o.p < Len(o.b) THEN Done(k, [o EXCEPT !.g = 1], 0, <<SChar(o.b[o.p + 1])>>)
                      ELSE Done(k, IF BAny(o.x, AtEnd(o)) THEN o ELSE [o EXCEPT !.g = 0], AtEnd(o), <<-1>>)
    [] op = "get" -> IF a[2] = 0 THEN Done(k, [o EXCEPT !.g = 0], 0, <<>>) ELSE LET u == Until(o, a[2] - 1, a[3]) IN Take(k, o, u, Append(u.v, 0))
    [] op = "getline" -> IF a[2] = 0 THEN (LET d == At(o.b, o.p) = a[3] IN Done(k, [o EXCEPT !.p = @ + B(d), !.g = B(d)], 0, <<>>))
                         ELSE LET u == Until(o, a[2] - 1, a[3]) IN Line(k, o, Lined(u, a[3]), Append(u.v, 0))
    [] op = "gets" -> LET u == Until(o, Big, a[2]) IN Take(k, o, u, u.v)
    [] op \in {"getlines", "fgetline"} -> LET u == Until(o, Big, a[2]) IN Line(k, o, Lined(u, a[2]), u.v)
    [] op = "ignore" -> LET n == Next_(o.b, o.p, a[3]) - o.p + 1  \* up to and with the delimiter
                            e == Min(Len(o.b), o.p + Min(a[2], n))
                            l == IF e - o.p < Min(a[2], n) THEN AtEnd(o) ELSE 0
                        IN Done(k, [o EXCEPT !.p = e, !.g = e - o.p], l, <<>>)
    [] op = "read" -> Read(k, o, a[2])
    [] op = "readsome" -> LET n == Min(a[2], Len(o.b) - o.p)  l == IF a[2] <= Len(o.b) - o.p THEN 0 ELSE Lacking(o) IN
         IF BAny(o.x, l) THEN Done(k, o, l, <<>>) ELSE Done(k, [o EXCEPT !.p = @ + n], l, Cut(o.b, o.p, o.p + n))
    [] op = "str" -> Done(k, o, 0, o.b)
    [] op = "rest" -> Done(k, o, 0, Cut(o.b, o.p, Len(o.b)))
    [] op = "fin" -> st' = [j \in K |-> New(<<>>)] /\ Void
    [] OTHER -> FALSE

Seen(o) == <<Len(o.b), o.p, o.f, o.s, o.x, o.g>>
Observe(s) == \A k \in K : s[k] = Seen(st'[k])

(* ---- the bounded model ---- *)
Texts == { <<>>, <<97>>, <<32, 97>>, <<97, 32, 98>>, <<49, 50>>, <<45, 55, 32>>, <<116>>, <<116, 114, 117, 101>>, <<102, 97, 120>>,
           <<34, 97, 92, 34, 98, 34>>, <<10>>, <<120, 10, 121>>, <<39, 97, 32, 39>>, <<48, 120, 49, 102>>, <<195, 169>>, <<48, 55, 46, 53>>, <<92, 92, 110>> }
Plain ==
  {<<"new", <<k, 0, s>>>> : k \in K, s \in Texts}
  \cup {<<o, <<k>>>> : o \in {"word", "bool", "wchr", "get1", "peek", "unget", "sync", "bits", "rest"}, k \in K}
  \cup {<<"char", <<k, 0>>>> : k \in K}
  \cup {<<o, <<k, v>>>> : o \in {"clear", "exceptions"}, k \in K, v \in {0, 4}}
  \cup {<<"manip", <<k, v>>>> : k \in K, v \in {512}}
  \cup {<<"seek", <<k, v>>>> : k \in K, v \in {0, 1}}
  \cup {<<o, <<k, n, 10>>>> : o \in {"get", "getline", "ignore"}, k \in K, n \in {0, 1, 3}}
  \cup {<<o, <<k, 10>>>> : o \in {"gets", "getlines"}, k \in K}
  \cup {<<o, <<k, n>>>> : o \in {"read", "readsome"}, k \in K, n \in {0, 2}}
\* numbers: with the value that is read
Numbers == {<<"int", <<k, 2, 1, Trim(LET v == IntAt(st[k].b, Token(st[k], st[k].p), st[k].f) IN IF v.ng THEN Negate(Trim(v.m, 2)) ELSE v.m, 2)>>>> : k \in K}Calls == Plain \cup Numbers
Position == \A k \in K : st[k].p \in 0..Len(st[k].b)
\* what text output writes, text input reads
ReadsBack ==
  /\ \A v \in {0, 1, -1, 9, 10, 255, 65535, 65536, -65536, 999999999, 2147483647} : \A f \in {0, HexF, OctF} :
       LET t == IntT(f, 0, 0, TRUE, Limbs32(v))  a == IntAt(t, 0, f) IN a.e = Len(t) /\ (v >= 0 => IsValue(a, TRUE, Limbs32(v)) /\ Trim(a.m, 2) = Limbs32(v))
  /\ \A v \in {0, 1, 12, 999} : \A q \in {0, 64, 128, 192} :
       LET t == Float(0, 0, 0, 1, v, q, 2)  a == FloatAt(t, 0) IN a.e = Len(t) /\ IsFloat(a, 1, 1, v, q)
=============================================================================
