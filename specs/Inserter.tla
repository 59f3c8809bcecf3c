-------------------------------- MODULE Inserter -------------------------------
(* Inserting iterators (I01): what is assigned through them is inserted, in     *)
(* order, before the place, at the back, or each at the front.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kind,         \* 1 vector, 2 list, 3 string, 4 set, 5 multiset
          Vals, MaxLen

VARIABLES st,           \* <<values, place of the inserter or -1>>
          ret
vars == <<st>>
Init == st = <<<<>>, -1>> /\ ret = <<"", <<>>>>
Mem == st[1]
Put(s, p, v) == SubSeq(s, 1, p) \o v \o SubSeq(s, p + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Sorted == Kind \in {4, 5}
Below(s, v) == Cardinality({i \in 1..Len(s) : s[i] <= v})
RECURSIVE Into(_, _)
\* the values v put each to its place in the sorted s
Into(s, v) == IF v = <<>> THEN s ELSE
  Into(IF Kind = 4 /\ \E i \in 1..Len(s) : s[i] = v[1] THEN s ELSE Put(s, Below(s, v[1]), <<v[1]>>), Tail(v))
Back(s, v) == IF Sorted THEN Into(s, v) ELSE s \o v
None == ret' = <<"", <<>>>>

Do(op, a) ==
  CASE op = "set" -> st' = <<Back(<<>>, a[1]), -1>> /\ None
    [] op = "at" -> a[1] >= 0 /\ a[1] <= Len(Mem) /\ st' = <<Mem, a[1]>> /\ None
    \* values assigned one after another; the inserter goes on after them
    [] op = "put" -> st[2] >= 0 /\ a[2] \in 0..4 /\ None /\
         st' = IF Sorted THEN <<Into(Mem, a[1]), IF a[1] = <<>> THEN st[2] ELSE 0>> ELSE <<Put(Mem, st[2], a[1]), st[2] + Len(a[1])>>
    \* by an algorithm, and one more through the iterator it returns; the inserter is then void
    [] op = "send" -> st[2] >= 0 /\ None /\ LET v == Append(a[1], a[2]) IN st' = <<IF Sorted THEN Into(Mem, v) ELSE Put(Mem, st[2], v), -1>>
    [] op = "back" -> st' = <<Back(Mem, a[1]), -1>> /\ None
    [] op = "front" -> Kind = 2 /\ st' = <<Rev(a[1]) \o Mem, -1>> /\ None
    [] op = "fin" -> st' = <<<<>>, -1>> /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = <<st'[1]>>

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Small == Len(Mem) <= MaxLen
Calls == {<<"set", <<v>>>> : v \in Seqs(Vals, 2)} \cup {<<"at", <<n>>>> : n \in 0..MaxLen} \cup {<<o, <<v, f>>>> : o \in {"put", "back", "front"}, v \in Seqs(Vals, 2), f \in 0..2}
         \cup {<<"send", <<v, 1, f>>>> : v \in Seqs(Vals, 2), f \in 0..2}
InRange == st[2] >= -1 /\ st[2] <= Len(Mem)
Ordered == Sorted => \A i \in 2..Len(Mem) : Mem[i - 1] <= Mem[i] /\ (Kind = 4 => Mem[i - 1] # Mem[i])
================================================================================
