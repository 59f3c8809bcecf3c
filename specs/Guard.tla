--------------------------------- MODULE Guard ---------------------------------
(* Guards that run an action once when they end (P01): resources with their    *)
(* deleter, and scope guards.  What was run is the result of each call.        *)
EXTENDS Integers, Sequences
CONSTANTS NG,           \* how many of each
          Vals
VARIABLES st,           \* resources <<there, resource, deleter, armed>>, then guards <<there, 0, action, armed>>
          ret
vars == <<st>>
B(x) == IF x THEN 1 ELSE 0
No == <<0, 0, 0, 0>>
Init == st = [g \in 1..(2 * NG) |-> No] /\ ret = <<"", <<>>>>
\* what g runs when it ends: pairs of the action and the resource
Run(g) == IF st[g][1] = 1 /\ st[g][4] = 1 THEN <<st[g][3], st[g][2]>> ELSE <<>>
RECURSIVE Runs(_)
Runs(g) == IF g > 2 * NG THEN <<>> ELSE Run(g) \o Runs(g + 1)
Res(g) == g \in 1..NG
Any(g) == g \in 1..(2 * NG)
There(g) == Any(g) /\ st[g][1] = 1
Ret(l) == ret' = <<"", l>>
Do(op, a) ==
  LET g == a[1]  h == a[2] IN
  CASE op = "make" -> Any(g) /\ ~There(g) /\ st' = [st EXCEPT ![g] = <<1, IF Res(g) THEN h ELSE 0, a[3], B((Res(g) /\ a[4] = 0) = FALSE)>>] /\ Ret(<<>>)
    \* armed unless the resource h is the invalid one, a[4]
    [] op = "checked" -> Res(g) /\ ~There(g) /\ st' = [st EXCEPT ![g] = <<1, h, a[3], B(h # a[4])>>] /\ Ret(<<>>)
    [] op = "end" -> There(g) /\ st' = [st EXCEPT ![g] = No] /\ Ret(Run(g))
    \* what is released, if it still was to be
    [] op = "release" -> There(g) /\ st' = [st EXCEPT ![g][4] = 0] /\ Ret(IF ~Res(g) THEN <<>> ELSE IF st[g][4] = 1 THEN <<st[g][2]>> ELSE <<h>>)
    [] op = "reset" -> There(g) /\ Res(g) /\ st' = [st EXCEPT ![g][4] = 0] /\ Ret(Run(g))
    [] op = "reset_to" -> There(g) /\ Res(g) /\ st' = [st EXCEPT ![g][2] = h, ![g][4] = 1] /\ Ret(Run(g))
    [] op = "move_make" -> There(h) /\ Any(g) /\ ~There(g) /\ Res(g) = Res(h) /\ st' = [st EXCEPT ![g] = st[h], ![h][4] = 0] /\ Ret(<<>>)
    [] op = "move" -> There(g) /\ There(h) /\ Res(g) /\ Res(h) /\ g # h /\ st' = [st EXCEPT ![g] = st[h], ![h][4] = 0] /\ Ret(Run(g))
    [] op = "fin" -> st' = [x \in 1..(2 * NG) |-> No] /\ Ret(Runs(1) \o <<0>>)
    [] OTHER -> FALSE
\* what a guard that no longer runs its action holds is not said
Observe(s) == Len(s) = 2 * NG /\ \A g \in 1..(2 * NG) : (s[g][1] = st'[g][1] /\ (st'[g][4] = 1 => s[g][2] = st'[g][2] /\ s[g][3] = st'[g][3]))
All == 1..(2 * NG)
Calls == {<<"make", <<g, v, d, e>>>> : g \in All, v \in Vals, d \in {1}, e \in 0..1} \cup {<<"checked", <<g, v, 2, w>>>> : g \in 1..NG, v \in Vals, w \in Vals}
         \cup {<<o, <<g, 0>>>> : o \in {"end", "release", "reset"}, g \in All} \cup {<<"reset_to", <<g, v>>>> : g \in 1..NG, v \in Vals}
         \cup {<<o, <<g, h>>>> : o \in {"move", "move_make"}, g \in All, h \in All}
\* an action that is to run moves from one guard to another, and is never in two
Armed(s) == {g \in All : s[g][4] = 1}
\* a step that runs nothing does not lose one but by release
================================================================================
