-------------------------------- MODULE Bitset --------------------------------
(* Bitsets of W bits as the sets of their bits (C07).                         *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
\* Storage comes in words of 32 bits. In the code (and one of its tests relies
\* on it) whole-set operations work on all of it; Strict confines them to W.
CONSTANTS NB, W, Strict, Pos
Nums == IF W < 8 THEN {<<n>> : n \in 0..15} ELSE {<<0, 0>>, <<1, 0>>, <<1, 32768>>, <<65535, 65535>>}
Texts == IF W < 8 THEN UNION {[1..n -> {48, 49}] : n \in 0..(W + 1)}
         ELSE {[i \in 1..n |-> IF i = 1 \/ i = n THEN 49 ELSE 48] : n \in {1, 2, W - 1, W, W + 1, W + 2}}

VARIABLES bs, ret
vars == <<bs>>
K == 1..NB
Vis == 0..(W - 1)
Bits == IF Strict THEN Vis ELSE 0..(32 * ((W + 31) \div 32) - 1)
RECURSIVE Num(_, _)       \* the number whose binary digits lo.. are the bits of s
Num(s, lo) == IF \A b \in s : b < lo THEN 0 ELSE (IF lo \in s THEN 1 ELSE 0) + 2 * Num(s, lo + 1)
Bit(v, i) == (v \div (2 ^ i)) % 2 = 1
\* numbers are given as 16 bit limbs, least significant first
NumBits(l) == {b \in Bits : b \div 16 < Len(l) /\ Bit(l[b \div 16 + 1], b % 16)}
Limb(s, i) == Num({b - 16 * i : b \in {x \in s : x \div 16 = i}}, 0)
\* most significant first, 49 is the digit one
TextBits(t) == {b \in Bits : b < Len(t) /\ t[Len(t) - b] = 49}
Text(s) == [i \in 1..W |-> IF W - i \in s THEN 49 ELSE 48]
B(x) == IF x THEN 1 ELSE 0

Init == bs = [k \in K |-> {}] /\ ret = <<"", <<>>>>
Ret(x) == ret' = <<"", x>>
Put(k, s) == bs' = [bs EXCEPT ![k] = s] /\ Ret(<<>>)
Same == UNCHANGED bs
Range(f, l) == {b \in Vis : f <= b /\ b < l}

Flip(k, n)    == Put(k, IF n \in bs[k] THEN bs[k] \ {n} ELSE bs[k] \cup {n})
Set(k, n, v)  == Put(k, IF v = 1 THEN bs[k] \cup {n} ELSE bs[k] \ {n})
\* within one 32 bit word
InWord(f, l)  == f < l /\ l < W /\ f \div 32 = l \div 32
SetRange(k, f, l, v) == InWord(f, l) /\ Put(k, (bs[k] \ Range(f, l)) \cup {b \in Range(f, l) : (b - f) \div 16 < Len(v) /\ Bit(v[(b - f) \div 16 + 1], (b - f) % 16)})
GetRange(k, f, l) == InWord(f, l) /\ Same /\ LET s == {b - f : b \in bs[k] \cap Range(f, l)} IN Ret(<<Limb(s, 0), Limb(s, 1)>>)
Bin(k, x, y, op) == Put(k, CASE op = "and" -> x \cap y [] op = "or" -> x \cup y [] op = "xor" -> (x \ y) \cup (y \ x))
Query(k)      == Same /\ Ret(<<W, Cardinality(bs[k]), B(bs[k] # {}), B(bs[k] = {}), Limb(bs[k], 0), Limb(bs[k], 1)>> \o Text(bs[k]))

Do(op, a) ==
  CASE op = "flip" -> Flip(a[1], a[2])
    [] op = "set" -> Set(a[1], a[2], a[3])
    [] op = "set1" -> Set(a[1], a[2], 1)
    [] op = "reset" -> Set(a[1], a[2], 0)
    [] op = "flip_all" -> Put(a[1], Bits \ bs[a[1]])
    [] op = "not" -> Put(a[1], Bits \ bs[a[2]])
    [] op = "set_all" -> Put(a[1], Bits)
    [] op \in {"reset_all", "clear"} -> Put(a[1], {})
    [] op = "set_range" -> SetRange(a[1], a[2], a[3], a[4])
    [] op = "get_range" -> GetRange(a[1], a[2], a[3])
    [] op = "from_num" -> Put(a[1], NumBits(a[2]))
    [] op = "from_text" -> Put(a[1], TextBits(a[2]))
    [] op \in {"and", "or", "xor"} -> Bin(a[1], bs[a[2]], bs[a[3]], op)
    [] op = "and_to" -> Bin(a[1], bs[a[1]], bs[a[2]], "and")
    [] op = "or_to" -> Bin(a[1], bs[a[1]], bs[a[2]], "or")
    [] op = "xor_to" -> Bin(a[1], bs[a[1]], bs[a[2]], "xor")
    [] op = "copy" -> Put(a[1], bs[a[2]])
    [] op = "text_copy" -> Put(a[1], bs[a[2]] \cap Vis)
    [] op = "equal" -> Same /\ Ret(<<B(bs[a[1]] = bs[a[2]]), B(bs[a[1]] # bs[a[2]])>>)
    [] op = "query" -> Query(a[1])
    [] op = "fin" -> bs' = [k \in K |-> {}] /\ Ret(<<0>>)
    [] OTHER -> FALSE
\* the state shows the positions where test() holds, ascending
Observe(s) == /\ Len(s) = NB
              /\ \A k \in K : Len(s[k]) = Cardinality(bs'[k] \cap Vis) /\ {s[k][i] : i \in 1..Len(s[k])} = bs'[k] \cap Vis

(* ---- exhaustive model ---- *)
Calls ==
  UNION {{<<o, <<k, n>>>> : o \in {"flip", "set1", "reset"}, n \in Pos} \cup {<<"set", <<k, n, v>>>> : n \in Pos, v \in {0, 1}}
         \cup {<<o, <<k>>>> : o \in {"flip_all", "set_all", "reset_all", "clear", "query"}}
         \cup {<<"set_range", <<k, f, l, v>>>> : f \in Pos, l \in Pos, v \in Nums} \cup {<<"get_range", <<k, f, l>>>> : f \in Pos, l \in Pos}
         \cup {<<"from_num", <<k, v>>>> : v \in Nums} \cup {<<"from_text", <<k, t>>>> : t \in Texts}
         \cup {<<o, <<k, j>>>> : o \in {"not", "and_to", "or_to", "xor_to", "copy", "text_copy", "equal"}, j \in K}
         \cup {<<o, <<k, i, j>>>> : o \in {"and", "or", "xor"}, i \in K, j \in K}
         : k \in K}
Within == \A k \in K : bs[k] \subseteq Bits
Limbs == \A k \in K : NumBits(<<Limb(bs[k], 0), Limb(bs[k], 1)>>) = {b \in bs[k] : b < 32}
TextTrip == \A k \in K : TextBits(Text(bs[k])) = bs[k] \cap Vis
=============================================================================
