-------------------------------- MODULE Files --------------------------------
(* Files and descriptors (F01).  The system is modelled as files and open     *)
(* descriptors, numbered from 1 in the order the system gives them out, and   *)
(* every call that may enter the system takes the sequence q of what the      *)
(* system does to its successive entries: 0 or nothing for the full service,  *)
(* n > 0 for a transfer of at most n bytes, -4 for an interruption, -11 for   *)
(* no data now, -1000 for nothing taken, and any other -e for the error e,    *)
(* after which the descriptor of a close is gone all the same.  A stream has  *)
(* at most one descriptor, its own.                                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, NF, MaxLen, Small

VARIABLES os,   \* [fl: files [ex, c: content, m: permissions], ds: descriptors [f, p, acc, app, nb]]
          fs,   \* fs[k] = [fd: descriptor or 0, nm: file, s: state, x: requested]
          ret
vars == <<os, fs, ret>>
K == 1..NS
F == 1..NF
B(c) == IF c THEN 1 ELSE 0
Bit(v, i) == (v \div i) % 2
On(v, i) == Bit(v, i) = 1
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
BOr(a, b) == B(Bit(a, 1) + Bit(b, 1) > 0) + (2 * B(Bit(a, 2) + Bit(b, 2) > 0)) + (4 * B(Bit(a, 4) + Bit(b, 4) > 0))
BAny(a, b) == \E i \in {1, 2, 4} : On(a, i) /\ On(b, i)
RECURSIVE AndNot(_, _)
AndNot(a, b) == IF a = 0 THEN 0 ELSE B(a % 2 = 1 /\ b % 2 = 0) + (2 * AndNot(a \div 2, b \div 2))
Cut(q, b, e) == SubSeq(q, b + 1, e)
Zeros(n) == [i \in 1..n |-> 0]
Hd(q) == IF q = <<>> THEN 0 ELSE q[1]
Tl(q) == IF q = <<>> THEN <<>> ELSE Tail(q)
\* state bits, errors and the calls they are reported for
Bad == 1  Eof == 2  Fail == 4
EBadf == 9  ENoent == 2  EInval == 22  EAcces == 13
COpen == 1  CClose == 2  CSeek == 3  CRead == 4  CWrite == 5  CSync == 6  CStat == 7  CMap == 8  CUnmap == 9  CMsync == 10  CFcntl == 11

NoFile == [ex |-> FALSE, c |-> <<>>, m |-> 0]
NoFs == [fd |-> 0, nm |-> 0, s |-> 0, x |-> 0]
Init == os = [fl |-> [f \in F |-> NoFile], ds |-> <<>>] /\ fs = [k \in K |-> NoFs] /\ ret = <<"", <<>>>>
Ret(e, l) == ret' = <<e, l>>
Void == Ret("", <<>>)
Isnt(o) == o.fd = 0

(* ---- the system: results [os, n: value or -1, e: error] ---- *)
\* descriptors are a function whose closed entries at the end are cut off
Closed == [f |-> 0, p |-> 0, acc |-> 0, app |-> FALSE, nb |-> FALSE]
IsOpen(s, d) == d \in 1..Len(s.ds) /\ s.ds[d].f # 0
Low(s) == CHOOSE n \in 1..(Len(s.ds) + 1) : ~IsOpen(s, n) /\ \A i \in 1..(n - 1) : IsOpen(s, i)
RECURSIVE CutClosed(_)
CutClosed(ds) == IF ds # <<>> /\ ds[Len(ds)].f = 0 THEN CutClosed(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
SysClose(s, d) == [s EXCEPT !.ds = CutClosed([@ EXCEPT ![d] = Closed])]
PutDs(s, d, v) == [s EXCEPT !.ds = IF d <= Len(@) THEN [@ EXCEPT ![d] = v] ELSE Append(@, v)]
Acc(m) == m % 4     \* 1 to read, 2 to write, 3 both
Creates(m) == On(m, 2) /\ ~On(m, 128)
SysOpen(s, f, m, perm, e) ==
  IF e < 0 THEN [os |-> s, n |-> 0, e |-> -e]
  ELSE IF ~s.fl[f].ex /\ ~Creates(m) THEN [os |-> s, n |-> 0, e |-> ENoent]
  ELSE LET was == s.fl[f]
           nf == IF ~was.ex THEN [ex |-> TRUE, c |-> <<>>, m |-> AndNot(perm, 18)] ELSE IF On(m, 32) THEN [was EXCEPT !.c = <<>>] ELSE was
           d == Low(s)
       IN [os |-> PutDs([s EXCEPT !.fl[f] = nf], d, [f |-> f, p |-> 0, acc |-> Acc(m), app |-> On(m, 4) \/ On(m, 8), nb |-> On(m, 64)]), n |-> d, e |-> 0]
SysRead(s, d, n, lim) ==
  IF ~IsOpen(s, d) \/ ~On(s.ds[d].acc, 1) THEN [os |-> s, v |-> <<>>, e |-> EBadf]
  ELSE LET c == s.fl[s.ds[d].f].c  p == s.ds[d].p
           m == Max(0, Min(IF lim > 0 THEN Min(n, lim) ELSE n, Len(c) - p))
       IN [os |-> [s EXCEPT !.ds[d].p = p + m], v |-> Cut(c, p, p + m), e |-> 0]
SysWrite(s, d, v, lim) ==
  IF ~IsOpen(s, d) \/ ~On(s.ds[d].acc, 2) THEN [os |-> s, n |-> 0, e |-> EBadf]
  ELSE LET f == s.ds[d].f  c == s.fl[f].c
           p == IF s.ds[d].app THEN Len(c) ELSE s.ds[d].p
           w == IF lim > 0 THEN SubSeq(v, 1, Min(lim, Len(v))) ELSE v
           c2 == Cut(c \o Zeros(Max(0, p - Len(c))), 0, p) \o w \o Cut(c, p + Len(w), Len(c))
       IN [os |-> [s EXCEPT !.fl[f].c = c2, !.ds[d].p = p + Len(w)], n |-> Len(w), e |-> 0]

(* ---- failures of a stream ---- *)
\* the system s and stream o, with l added to the state: the error e of the call c, as an exception if requested
Failed(k, s, o, l, e, c, r) == os' = s /\ fs' = [fs EXCEPT ![k] = [o EXCEPT !.s = BOr(@, l)]]
  /\ (IF BAny(o.x, l) THEN Ret("file", <<e, c, o.nm>>) ELSE Ret("", r))
Short(k, s, o, r) == os' = s /\ fs' = [fs EXCEPT ![k] = [o EXCEPT !.s = BOr(@, Eof + Fail)]]
  /\ (IF BAny(o.x, Eof + Fail) THEN Ret("bounds", <<>>) ELSE Ret("", r))
Fine(k, s, o, r) == os' = s /\ fs' = [fs EXCEPT ![k] = o] /\ Ret("", r)
\* stream o closing its descriptor, and being given another
Dropped(s, o) == IF o.fd = 0 THEN s ELSE SysClose(s, o.fd)
CloseFails(o, e) == o.fd # 0 /\ e < 0 /\ e # -4
Attach(k, s, o, d, f, oe, ce) ==
  LET o2 == [o EXCEPT !.fd = d, !.nm = f, !.s = 0]
      s2 == IF o.fd # d THEN Dropped(s, o) ELSE s
  IN IF o.fd # d /\ CloseFails(o, ce)
     THEN (IF BAny(o.x, Bad + Fail) THEN Failed(k, s2, o2, Bad + Fail, -ce, CClose, <<>>)
           ELSE IF d = 0 THEN Failed(k, s2, o2, Bad + Fail, oe, COpen, <<>>) ELSE Failed(k, s2, o2, Bad + Fail, 0, CClose, <<>>))
     ELSE IF d = 0 THEN Failed(k, s2, o2, Bad, oe, COpen, <<>>) ELSE Fine(k, s2, o2, <<>>)

(* ---- transfers: [os, v or n: done, l: bits or 0, e: error, q: what is left of the script] ---- *)
RECURSIVE ReadLoop(_, _, _, _, _, _)
ReadLoop(s, d, n, v, q, some) ==
  IF Len(v) >= n THEN [os |-> s, v |-> v, l |-> 0, e |-> 0, q |-> q]
  ELSE IF d = 0 THEN [os |-> s, v |-> v, l |-> Fail, e |-> EBadf, q |-> q]
  ELSE LET f == Hd(q) IN
    IF f = -4 THEN ReadLoop(s, d, n, v, Tl(q), some)
    ELSE IF f = -11 THEN (IF some THEN [os |-> s, v |-> v, l |-> 0, e |-> 0, q |-> Tl(q)] ELSE ReadLoop(s, d, n, v, Tl(q), some))
    ELSE IF f < 0 THEN [os |-> s, v |-> v, l |-> Fail, e |-> -f, q |-> Tl(q)]
    ELSE LET r == SysRead(s, d, n - Len(v), f) IN
      IF r.e # 0 THEN [os |-> s, v |-> v, l |-> Fail, e |-> r.e, q |-> Tl(q)]
      ELSE IF r.v = <<>> THEN [os |-> s, v |-> v, l |-> Eof + Fail, e |-> 0, q |-> Tl(q)]
      ELSE IF some THEN [os |-> r.os, v |-> r.v, l |-> 0, e |-> 0, q |-> Tl(q)]
      ELSE ReadLoop(r.os, d, n, v \o r.v, Tl(q), some)
RECURSIVE WriteLoop(_, _, _, _, _)
WriteLoop(s, d, v, n, q) ==
  IF n >= Len(v) THEN [os |-> s, n |-> n, l |-> 0, e |-> 0, q |-> q]
  ELSE IF d = 0 THEN [os |-> s, n |-> n, l |-> Fail, e |-> EBadf, q |-> q]
  ELSE LET f == Hd(q) IN
    IF f = -4 THEN WriteLoop(s, d, v, n, Tl(q))
    ELSE IF f = -11 THEN [os |-> s, n |-> n, l |-> 0, e |-> 0, q |-> Tl(q)]
    ELSE IF f = -1000 THEN [os |-> s, n |-> n, l |-> Eof + Fail, e |-> 0, q |-> Tl(q)]
    ELSE IF f < 0 THEN [os |-> s, n |-> n, l |-> Fail, e |-> -f, q |-> Tl(q)]
    ELSE LET r == SysWrite(s, d, Cut(v, n, Len(v)), f) IN
      IF r.e # 0 THEN [os |-> s, n |-> n, l |-> Fail, e |-> r.e, q |-> Tl(q)] ELSE WriteLoop(r.os, d, v, n + r.n, Tl(q))
Transfer(k, t, c, r) ==
  IF t.l = 0 THEN Fine(k, t.os, fs[k], r)
  ELSE IF t.l = Fail THEN Failed(k, t.os, fs[k], Fail, t.e, c, r)
  ELSE Short(k, t.os, fs[k], r)

\* whole files: what happens to the system and how it ends
Thrown(e, l) == [x |-> e, r |-> l]
ReadFile(f, q) ==
  LET a == SysOpen(os, f, 1, 420, Hd(q))  d == a.n  n == Len(os.fl[f].c) IN
  IF a.e # 0 THEN [os |-> os, t |-> Thrown("file", <<a.e, COpen, f>>)]
  ELSE IF Hd(Tl(q)) < 0 THEN [os |-> os, t |-> Thrown("file", <<-Hd(Tl(q)), CStat, f>>)]
  ELSE LET r == ReadLoop(a.os, d, n, <<>>, Tl(Tl(q)), FALSE) IN
    IF r.l # 0 THEN [os |-> os, t |-> Thrown("file", <<r.e, CRead, f>>)] 
    ELSE IF Hd(r.q) < 0 /\ Hd(r.q) # -4 THEN [os |-> os, t |-> Thrown("file", <<-Hd(r.q), CClose, f>>)] ELSE [os |-> os, t |-> Thrown("", r.v)]
WriteFile(f, v, m, q) ==
  LET a == SysOpen(os, f, 34, m, Hd(q)) IN
  IF a.e # 0 THEN [os |-> os, t |-> Thrown("file", <<a.e, COpen, f>>)]
  ELSE LET w == WriteLoop(a.os, a.n, v, 0, Tl(q)) IN
    [os |-> SysClose(w.os, a.n), t |-> IF w.l = 0 THEN (IF Hd(w.q) < 0 /\ Hd(w.q) # -4 THEN Thrown("file", <<-Hd(w.q), CClose, f>>) ELSE Thrown("", <<>>)) ELSE IF w.l = Fail THEN Thrown("file", <<w.e, CWrite, f>>) ELSE Thrown("bounds", <<>>)]

Do(op, a) ==
  LET k == a[1]  o == fs[k]  d == o.fd IN
  CASE op = "open" -> LET r == SysOpen(os, a[2], a[3], a[4], Hd(a[5])) IN Acc(a[3]) # 0 /\ Attach(k, r.os, o, r.n, a[2], r.e, Hd(Tl(a[5])))
    [] op = "make" -> \* destroyed and made anew with a file; no exceptions, and the failure of the first close is not seen
         LET s0 == Dropped(os, o)  r == SysOpen(s0, a[2], a[3], 420, Hd(Tl(a[4]))) IN Acc(a[3]) # 0 /\ Attach(k, r.os, NoFs, r.n, a[2], r.e, 0)
    [] op = "kill" -> os' = Dropped(os, o) /\ fs' = [fs EXCEPT ![k] = NoFs] /\ Void
    [] op = "attach" -> LET r == SysOpen(os, a[2], a[3], 420, 0) IN Acc(a[3]) # 0 /\ r.e = 0 /\ Attach(k, r.os, o, r.n, a[2], 0, Hd(a[4]))
    [] op = "attachmake" -> LET s0 == Dropped(os, o)  r == SysOpen(s0, a[2], a[3], 420, 0) IN Acc(a[3]) # 0 /\ r.e = 0 /\ Attach(k, r.os, NoFs, r.n, a[2], 0, 0)
    [] op = "attachown" -> d # 0 /\ Attach(k, os, o, d, o.nm, 0, 0)
    [] op = "attachnone" -> Attach(k, os, o, 0, a[2], a[3], Hd(a[4]))
    [] op = "detach" -> os' = Dropped(os, o) /\ fs' = [fs EXCEPT ![k] = [o EXCEPT !.fd = 0, !.nm = 0]] /\ Void
    [] op = "close" -> IF d = 0 THEN Fine(k, os, o, <<>>) ELSE IF CloseFails(o, Hd(a[2])) THEN Failed(k, Dropped(os, o), [o EXCEPT !.fd = 0, !.nm = IF BAny(o.x, Bad + Fail) THEN @ ELSE 0], Bad + Fail, -Hd(a[2]), CClose, <<>>)
                       ELSE Fine(k, Dropped(os, o), [o EXCEPT !.fd = 0, !.nm = 0], <<>>)
    [] op = "sync" -> LET e == IF d = 0 THEN EBadf ELSE -Hd(a[2]) IN IF e > 0 THEN Failed(k, os, o, Bad + Fail, e, CSync, <<>>) ELSE Fine(k, os, o, <<>>)
    [] op = "size" -> LET e == IF d = 0 THEN EBadf ELSE -Hd(a[2]) IN
         UNCHANGED <<os, fs>> /\ (IF e > 0 THEN Ret("file", <<e, CStat, o.nm>>) ELSE Ret("", <<Len(os.fl[os.ds[d].f].c)>>))
    [] op = "seek" -> LET e == IF d = 0 THEN EBadf ELSE -Hd(a[4])
                          p == IF d = 0 THEN 0 ELSE a[2] + (CASE a[3] = 0 -> 0 [] a[3] = 1 -> os.ds[d].p [] OTHER -> Len(os.fl[os.ds[d].f].c))
                      IN IF e > 0 THEN Failed(k, os, o, Fail, e, CSeek, <<-1>>) ELSE IF p < 0 THEN Failed(k, os, o, Fail, EInval, CSeek, <<-1>>)
                         ELSE Fine(k, [os EXCEPT !.ds[d].p = p], o, <<p>>)
    [] op = "pos" -> Fine(k, os, o, <<IF d = 0 THEN -1 ELSE os.ds[d].p>>)
    [] op = "nonblock" -> LET e == IF d = 0 THEN EBadf ELSE -Hd(a[3])  e2 == -Hd(Tl(a[3])) IN
         IF e > 0 THEN Failed(k, os, o, Fail, e, CFcntl, <<>>) ELSE IF e2 > 0 THEN Failed(k, os, o, Fail, e2, CFcntl, <<>>)
         ELSE Fine(k, [os EXCEPT !.ds[d].nb = a[2] = 1], o, <<>>)
    [] op = "read" -> LET t == ReadLoop(os, d, a[2], <<>>, a[3], FALSE) IN IF o.s # 0 THEN Fine(k, os, o, <<>>) ELSE Transfer(k, t, CRead, t.v)
    [] op = "readsome" -> LET t == ReadLoop(os, d, a[2], <<>>, a[3], TRUE) IN Transfer(k, t, CRead, t.v)
    [] op = "write" -> LET t == WriteLoop(os, d, a[2], 0, a[3]) IN Transfer(k, t, CWrite, <<t.n>>)
    [] op = "map" -> \* n bytes mapped; the byte at i read and replaced by v; synchronized and unmapped again
         LET n == a[2]  i == a[3]  v == a[4]
             e == IF d = 0 THEN EBadf ELSE IF Hd(a[5]) < 0 THEN -Hd(a[5]) ELSE IF os.ds[d].acc # 3 THEN EAcces ELSE 0
         IN n > 0 /\ IF e # 0 THEN Failed(k, os, o, Fail, e, CMap, <<0>>)
            ELSE LET f == os.ds[d].f  there == i < Len(os.fl[f].c)
                     s2 == IF there THEN [os EXCEPT !.fl[f].c[i + 1] = v] ELSE os
                     e2 == -Hd(Tl(a[5]))  e3 == -Hd(Tl(Tl(a[5])))
                     r == <<n, IF there THEN os.fl[f].c[i + 1] ELSE 0>>
                 IN i < n /\ IF e2 > 0 /\ BAny(o.x, Fail) THEN Failed(k, s2, o, Fail, e2, CMsync, <<>>)
                    ELSE IF e3 > 0 THEN Failed(k, s2, o, Fail, e3, CUnmap, r)
                    ELSE IF e2 > 0 THEN Failed(k, s2, o, Fail, e2, CMsync, r) ELSE Fine(k, s2, o, r)
    [] op = "clear" -> Fine(k, os, [o EXCEPT !.s = a[2]], <<>>)
    [] op = "setstate" -> Fine(k, os, [o EXCEPT !.s = BOr(@, a[2])], <<>>)
    [] op = "exceptions" -> Fine(k, os, [o EXCEPT !.x = a[2]], <<>>)
    [] op = "readfile" -> LET r == ReadFile(a[1], a[2]) IN UNCHANGED fs /\ os' = r.os /\ Ret(r.t.x, r.t.r)
    [] op = "writefile" -> LET r == WriteFile(a[1], a[2], a[3], a[4]) IN UNCHANGED fs /\ os' = r.os /\ Ret(r.t.x, r.t.r)
    [] op = "remove" -> \* only files nobody has open
         (\A i \in 1..Len(os.ds) : os.ds[i].f # a[1]) /\ os' = [os EXCEPT !.fl[a[1]] = NoFile] /\ UNCHANGED fs /\ Void
    [] op = "fin" -> os' = [fl |-> [f \in F |-> NoFile], ds |-> <<>>] /\ fs' = [j \in K |-> NoFs] /\ Void
    [] OTHER -> FALSE

\* the descriptors that are open, the streams' own and their settings, the files; no close or use of a descriptor that is not open
SeenFs(s, o) == IF o.fd = 0 THEN <<0, o.s, o.x, o.nm>> ELSE LET e == s.ds[o.fd] IN <<o.fd, o.s, o.x, o.nm, e.p, e.acc, B(e.app), B(e.nb)>>
Observe(v) == /\ \A k \in K : v[1][k] = SeenFs(os', fs'[k])
              /\ \A f \in F : v[2][f] = <<B(os'.fl[f].ex), os'.fl[f].m, os'.fl[f].c>>
              /\ v[3] = [i \in 1..Len(os'.ds) |-> B(os'.ds[i].f # 0)]
              /\ v[4] = 0

(* ---- the bounded model ---- *)
Full == Small = 0
Quirks == {<<>>, <<1, -4>>, <<1, -5>>} \cup (IF Full THEN {<<-4>>, <<-5>>, <<1>>, <<1, -11>>} ELSE {})
Errs == {<<>>, <<-5>>} \cup (IF Full THEN {<<-4>>} ELSE {})
Calls ==
  {<<"open", <<k, f, m, 420, q>>>> : k \in K, f \in F, m \in {1, 3} \cup (IF Full THEN {2, 6, 34, 130} ELSE {6}), q \in {<<>>, <<0, -5>>, <<-5, -5>>} \cup (IF Full THEN {<<-4>>} ELSE {})}
  \cup {<<"make", <<k, f, 3, q>>>> : k \in K, f \in F, q \in {<<-5>>, <<0, -5>>}}
  \cup {<<o, <<k, q>>>> : o \in {"close", "sync", "kill"}, k \in K, q \in {<<>>, <<-4>>, <<-5>>}}
  \cup {<<o, <<k>>>> : o \in {"detach", "attachown", "pos"}, k \in K}
  \cup {<<"attach", <<k, f, 3, q>>>> : k \in K, f \in F, q \in {<<>>, <<-5>>}}
  \cup {<<"attachnone", <<k, f, 9, q>>>> : k \in K, f \in F, q \in {<<>>, <<-5>>}}
  \cup {<<"read", <<k, n, q>>>> : k \in K, n \in {0, 2}, q \in Quirks}
  \cup {<<"readsome", <<k, n, q>>>> : k \in K, n \in {0, 2}, q \in {<<>>, <<1>>, <<-4>>, <<-5>>}}
  \cup {<<"write", <<k, v, q>>>> : k \in K, v \in {<<7, 7>>}, q \in Quirks \cup {<<1, -11>>, <<1, -1000>>}}
  \cup {<<"seek", <<k, n, w, q>>>> : k \in K, n \in {-1, 0}, w \in {0, 2}, q \in Errs}
  \cup {<<o, <<k, v>>>> : o \in {"clear", "exceptions"}, k \in K, v \in {0, 4}}
  \cup {<<"map", <<k, 1, 0, 7, q>>>> : k \in K, q \in {<<>>, <<-5>>, <<0, -5>>, <<0, 0, -5>>}}
  \cup {<<"readfile", <<f, q>>>> : f \in F, q \in {<<>>, <<0, -5>>, <<0, 0, 1, -4>>, <<0, 0, -5>>}}
  \cup {<<"writefile", <<f, v, 420, q>>>> : f \in F, v \in {<<>>, <<7, 7>>}, q \in {<<>>, <<0, 1, -4>>, <<0, 1, -5>>, <<0, 1, -1000>>}}
Bounded == \A f \in F : Len(os.fl[f].c) <= MaxLen
\* every descriptor has exactly one owner, and streams have descriptors that are open
Owned == /\ \A i \in 1..Len(os.ds) : os.ds[i].f # 0 => Cardinality({k \in K : fs[k].fd = i}) = 1
         /\ \A k \in K : fs[k].fd # 0 => IsOpen(os, fs[k].fd)
=============================================================================
