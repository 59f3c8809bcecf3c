---------------------------------- MODULE Walk ---------------------------------
(* Iterator adaptors (I01).  A walk visits places of a memory in an order that  *)
(* its kind defines; iterators are places in the walk.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kind,         \* 1 reverse, 2 reverse of const, 3 reverse of reverse, 4 move, 5 reverse of move, 6 move of reverse, 7 index, 8 reverse of index, 9 pointer
          NS, Vals, MaxLen

VARIABLES st,           \* <<values, indexes, places of the iterators>>
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
Init == st = <<<<>>, <<>>, [k \in 1..NS |-> 0]>> /\ ret = <<"", <<>>>>
Moving == Kind \in {4, 5, 6}
Indexed == Kind \in {7, 8}
Backward == Kind \in {1, 2, 5, 6, 8}
Mem == st[1]
Len1 == IF Indexed THEN Len(st[2]) ELSE Len(st[1])
\* the place in memory (from 1) of step p (from 0) of the walk
Spot(p) == LET q == IF Backward THEN Len1 - p ELSE p + 1 IN IF Indexed THEN st[2][q] + 1 ELSE q
InWalk(p) == p >= 0 /\ p < Len1
At(k) == st[3][k]
IsIt(k) == k \in 1..NS
Put(k, p) == st' = [st EXCEPT ![3][k] = p]
\* the values at the places, and they as they are once moved from
Taken(S) == [i \in 1..Len(Mem) |-> IF i \in S /\ Moving THEN 0 ELSE Mem[i]]
\* what a step shows: the value, or, of an index walk, the place in memory and the value
Show(p) == IF Indexed THEN <<Spot(p) - 1, Mem[Spot(p)]>> ELSE <<Mem[Spot(p)]>>
RECURSIVE Walked(_, _)
Walked(p, e) == IF p >= e THEN <<>> ELSE (IF Indexed THEN <<Spot(p) - 1>> ELSE <<Mem[Spot(p)]>>) \o Walked(p + 1, e)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Do(op, a) ==
  CASE op = "set" -> (Indexed => \A i \in 1..Len(a[2]) : a[2][i] >= 0 /\ a[2][i] < Len(a[1])) /\ (Indexed \/ a[2] = <<>>) /\
         st' = <<a[1], a[2], [k \in 1..NS |-> 0]>> /\ ret' = <<"", <<>>>>
    [] op = "at" -> IsIt(a[1]) /\ a[2] >= 0 /\ a[2] <= Len1 /\ Put(a[1], a[2]) /\ ret' = <<"", <<>>>>
    \* the ends of the walk, however asked for
    [] op = "ends" -> IsIt(a[1]) /\ IsIt(a[2]) /\ a[1] # a[2] /\ st' = [st EXCEPT ![3][a[1]] = 0, ![3][a[2]] = Len1] /\ ret' = <<"", <<>>>>
    [] op = "copy" -> IsIt(a[1]) /\ IsIt(a[2]) /\ Put(a[1], At(a[2])) /\ ret' = <<"", <<>>>>
    \* ++k, k++, --k, k--: the place shown by the expression
    [] op = "step" -> IsIt(a[1]) /\ a[2] \in 0..3 /\
         LET p == At(a[1])  q == IF a[2] < 2 THEN p + 1 ELSE p - 1 IN
         q >= 0 /\ q <= Len1 /\ Put(a[1], q) /\ ret' = <<"", <<IF a[2] \in {0, 2} THEN q ELSE p>>>>
    \* k += n, k -= -n, k = k + n, k = k - -n, advance (k, n)
    [] op = "shift" -> IsIt(a[1]) /\ a[3] \in 0..5 /\
         LET q == At(a[1]) + a[2] IN q >= 0 /\ q <= Len1 /\ Put(a[1], q) /\ ret' = <<"", <<q>>>>
    \* j becomes k + n, or k - -n; k stays
    [] op = "plus" -> IsIt(a[1]) /\ IsIt(a[2]) /\ LET q == At(a[2]) + a[3] IN q >= 0 /\ q <= Len1 /\ Put(a[1], q) /\ ret' = <<"", <<>>>>
    [] op = "pair" -> IsIt(a[1]) /\ IsIt(a[2]) /\ UNCHANGED st /\
         LET p == At(a[1])  q == At(a[2]) IN
         ret' = <<"", <<p - q, p - q, IF p < q THEN q - p ELSE p - q, B(p = q), B(p # q), B(p < q), B(p > q), B(p <= q), B(p >= q)>>>>
    [] op = "read" -> IsIt(a[1]) /\ InWalk(At(a[1])) /\ InWalk(At(a[1]) + a[2]) /\ UNCHANGED st /\
         ret' = <<"", Show(At(a[1])) \o Show(At(a[1])) \o Show(At(a[1]) + a[2]) \o Show(At(a[1]) + a[2])>>
    [] op = "write" -> Kind # 2 /\ IsIt(a[1]) /\ InWalk(At(a[1]) + a[2]) /\ st' = [st EXCEPT ![1][Spot(At(a[1]) + a[2])] = a[3]] /\ ret' = <<"", <<>>>>
    [] op = "take" -> IsIt(a[1]) /\ InWalk(At(a[1]) + a[2]) /\
         LET s == Spot(At(a[1]) + a[2]) IN st' = [st EXCEPT ![1] = Taken({s})] /\ ret' = <<"", <<Mem[s]>>>>
    \* everything from j to k copied elsewhere
    [] op = "range" -> IsIt(a[1]) /\ IsIt(a[2]) /\ At(a[1]) <= At(a[2]) /\
         LET w == Walked(At(a[1]), At(a[2])) IN
         ret' = <<"", <<Len(w)>> \o w>> /\
         st' = [st EXCEPT ![1] = IF Indexed THEN Mem ELSE Taken({Spot(p) : p \in At(a[1])..(At(a[2]) - 1)})]
    \* the whole walk, in loops of several forms
    [] op = "loop" -> UNCHANGED st /\ LET w == Walked(0, Len1) IN ret' = <<"", <<Len(w)>> \o w \o w>>
    \* ends and size of containers and arrays; the same place in another container
    [] op = "helpers" -> Kind = 9 /\ a[1] >= 0 /\ a[1] <= Len(Mem) /\ UNCHANGED st /\
         LET n == Len(Mem)  one == <<0, n, 0, n, n, 0, n, 0, n, B(n = 0), 0>> IN
         ret' = <<"", one \o one \o one \o <<0, 5, 0, 5, 5, 0>> \o <<a[1], a[1], a[1], a[1], a[1]>> \o Mem \o Mem \o Rev(Mem) \o Rev(Mem)>>
    [] op = "fin" -> st' = <<<<>>, <<>>, [k \in 1..NS |-> 0]>> /\ ret' = <<"", <<0>>>>
    [] OTHER -> FALSE
Observe(s) == s = st'

Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Its == 1..NS
Calls == {<<"set", <<v, x>>>> : v \in Seqs(Vals, MaxLen), x \in IF Indexed THEN Seqs(0..(MaxLen - 1), MaxLen) ELSE {<<>>}}
         \cup {<<"at", <<k, n>>>> : k \in Its, n \in 0..MaxLen} \cup {<<o, <<k, j>>>> : o \in {"ends", "copy", "pair", "range"}, k \in Its, j \in Its}
         \cup {<<"step", <<k, f>>>> : k \in Its, f \in 0..3} \cup {<<"shift", <<k, n, f>>>> : k \in Its, n \in -2..2, f \in {0, 4}}
         \cup {<<"plus", <<k, j, n, f>>>> : k \in Its, j \in Its, n \in -2..2, f \in 0..1} \cup {<<o, <<k, n>>>> : o \in {"read", "take"}, k \in Its, n \in -1..1}
         \cup {<<"write", <<k, n, v>>>> : k \in Its, n \in -1..1, v \in Vals} \cup {<<"loop", <<>>>>} \cup {<<"helpers", <<n>>>> : n \in 0..MaxLen}
\* a walk passes every element once, unless an index says otherwise; going back undoes going on
Order == /\ \A k \in Its : At(k) >= 0 /\ At(k) <= Len1
         /\ ~Indexed => {Spot(p) : p \in 0..(Len1 - 1)} = 1..Len(Mem)
         /\ (Len1 > 0 /\ ~Indexed) => Spot(IF Backward THEN Len1 - 1 ELSE 0) = 1
================================================================================
