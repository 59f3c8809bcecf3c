------------------------------- MODULE Record --------------------------------
(* Values written to a binary stream one after the other, each at the next    *)
(* multiple of eight, and read back (B02).  The layout of a value's bytes is  *)
(* not specified: only that it takes the number of bytes announced, that      *)
(* reading gives it back and consumes these, and that a part of the stream    *)
(* gives the values wholly within it and then a shortage.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Kinds, Vals

VARIABLES q,    \* what was written: [k: kind, v: value, at: position, n: announced size]
          r,    \* how many of them were read
          ret
vars == <<q, r>>
RoundUp(p) == ((p + 7) \div 8) * 8
End == IF q = <<>> THEN 0 ELSE q[Len(q)].at + q[Len(q)].n
\* the kinds written as they are, and those with a fixed size
Scalar == 1..12
Init == q = <<>> /\ r = 0 /\ ret = <<"", <<>>>>
Ret(e, x) == ret' = <<e, x>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1].v \o Flat(Tail(s))

\* a value v of kind k; at and n are where it was written and the size announced; what was written is as long
Write(k, v, at, n) ==
  /\ at = RoundUp(End) /\ n > 0
  /\ k \in Scalar => n = Len(v)
  /\ q' = Append(q, [k |-> k, v |-> v, at |-> at, n |-> n]) /\ r' = r
  /\ Ret("", <<n>>)
\* the next value: what was written, all its bytes consumed
Next == r < Len(q) /\ r' = r + 1 /\ q' = q /\ Ret("", <<q[r + 1].n>> \o q[r + 1].v)
\* value i by itself, from exactly its bytes
Solo(i) == i < Len(q) /\ UNCHANGED vars /\ Ret("", <<q[i + 1].n>> \o q[i + 1].v)
\* value i, onto an object that held value j of the same kind
Onto(i, j) == /\ i < Len(q) /\ j < Len(q) /\ q[i + 1].k = q[j + 1].k /\ UNCHANGED vars /\ Ret("", <<q[i + 1].n>> \o q[i + 1].v)
\* the values wholly within the first m bytes, then a shortage if there are more
Inside(m) == Cardinality({i \in 1..Len(q) : q[i].at + q[i].n <= m})
Prefix(m, x) == /\ m <= End /\ UNCHANGED vars
                /\ Ret("", <<Inside(m), IF Inside(m) < Len(q) THEN 1 ELSE 0>> \o Flat(SubSeq(q, 1, Inside(m))))
\* the first m bytes of value i alone are a shortage
Cut(i, m, x) == i < Len(q) /\ m < q[i + 1].n /\ UNCHANGED vars /\ Ret("", <<1>>)
\* a value that does not fit into m bytes is reported when written
Tight(i, m, x) == i < Len(q) /\ m < q[i + 1].n /\ UNCHANGED vars /\ Ret("", <<1>>)

\* a block, read into a caller's memory of m bytes: there it fits or nothing is changed; all but its last c bytes are a shortage
Into(i, m, c) == i < Len(q) /\ q[i + 1].k = 14 /\ c >= 0 /\ c <= q[i + 1].n /\ UNCHANGED vars /\
                 LET v == q[i + 1].v IN
                 IF v[1] > m THEN c = 0 /\ Ret("length", <<m, 0>>)
                 ELSE IF c > 0 THEN Ret("", <<1>>)
                 ELSE Ret("", <<v[1], m - v[1], q[i + 1].n>> \o Tail(v))

Do(op, a) ==
  CASE op = "write" -> Write(a[1], a[2], a[3], a[4])
    [] op = "next" -> Next
    [] op = "solo" -> Solo(a[1])
    [] op = "onto" -> Onto(a[1], a[2])
    [] op = "prefix" -> Prefix(a[1], a[2])
    [] op = "cut" -> Cut(a[1], a[2], a[3])
    [] op = "tight" -> Tight(a[1], a[2], a[3])
    [] op = "into" -> Into(a[1], a[2], a[3])
    [] op = "fin" -> q' = <<>> /\ r' = 0 /\ Ret("", <<>>)
    [] OTHER -> FALSE
Observe(s) == s = <<Len(q'), r', IF q' = <<>> THEN 0 ELSE q'[Len(q')].at + q'[Len(q')].n>>

(* ---- the bounded model: bytes and byte strings; the latter as one implementation may write them ---- *)
ModelVal(k) == IF k = 1 THEN {<<x>> : x \in Vals} ELSE {<<0>>, <<1, 65>>, <<2, 0, 66>>}
ModelSize(k, v) == Len(v)
Calls ==
  {<<"write", <<k, v, RoundUp(End), ModelSize(k, v)>>>> : k \in IF Len(q) < MaxLen THEN {1} ELSE {}, v \in ModelVal(1)}
  \cup {<<"write", <<k, v, RoundUp(End), ModelSize(k, v)>>>> : k \in IF Len(q) < MaxLen THEN Kinds \ {1} ELSE {}, v \in ModelVal(13)}
  \cup {<<"next", <<>>>>} \cup {<<"solo", <<i>>>> : i \in 0..MaxLen} \cup {<<"onto", <<i, j>>>> : i, j \in 0..MaxLen}
  \cup {<<o, <<i, m, x>>>> : o \in {"cut", "tight"}, i \in 0..MaxLen, m \in 0..3, x \in {0, 7}}
  \cup {<<"prefix", <<m, x>>>> : m \in 0..End, x \in {0, 7}}
\* values lie one after the other, none across a place another begins
Apart == \A i \in 1..Len(q) : q[i].at % 8 = 0 /\ (i > 1 => q[i].at >= q[i - 1].at + q[i - 1].n)
\* a shorter prefix never shows more
Monotone == \A m \in 0..End : Inside(m) <= Inside(m + 1)
=============================================================================
