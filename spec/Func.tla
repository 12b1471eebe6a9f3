---------------------------------- MODULE Func ----------------------------------
(* cest::function (C18).  K function objects of two parameters.  Each holds   *)
(* the callable <<depth, kind, cap, st>>: a callable of a kind, made with cap *)
(* and now in state st, wrapped depth times in callables that hold a function *)
(* object themselves and call it with the arguments exchanged.  What a moved- *)
(* from function object holds is nothing (<<>>).                              *)
(* shared: the state of the one callable that is held by reference.           *)
(* Kind 4 owns memory; the number of its instances alive is observed.         *)
EXTENDS SeqLib
CONSTANTS K, Caps, Xs, Depth, Group
Init0 == [f |-> [s \in 1..K |-> <<0, 0, 0, 0>>], shared |-> 0]
At(c, s) == c.f[s + 1]
Put(c, s, x) == [c EXCEPT !.f[s + 1] = x]
Gone == <<>>
Tracked(c) == Cardinality({s \in 1..K : c.f[s] # Gone /\ c.f[s][2] = 4})
Obs(c) == <<Tracked(c), c.shared, 1>>
RECURSIVE KeyS(_, _)
KeyS(c, s) == IF s > K THEN <<c.shared>> ELSE (IF c.f[s] = Gone THEN <<-1>> ELSE c.f[s]) \o KeyS(c, s + 1)
Key(c) == KeyS(c, 1)

\* one call of the callable itself: <<new state, result, raised>>
Core(k, cap, st, x, y) ==
  CASE k = 0 -> <<st, 7 * x + y, 0>>
    [] k = 1 -> <<st, x - 3 * y, 0>>
    [] k = 2 -> <<st, 100 * cap + 5 * x + y, 0>>
    [] k = 3 -> LET n == (st + 1) % 4 IN <<n, 100 * n + x - y, 0>>
    [] k \in {4, 6} -> LET n == (st + x) % 5 IN IF x = 13 THEN <<n, -13, 1>> ELSE <<n, 10 * n + y, 0>>
    [] k = 7 -> <<st, cap * (20 + x) + y, 0>>
    [] k = 8 -> LET n == (st + 1) % 3 IN <<n, 1000 * n + 10 * cap + 2 * x - y, 0>>
Counts(k) == IF k \in {0, 1} THEN 0 ELSE 1
Call(c, v, x, y) ==
  LET odd == v[1] % 2 = 1
      st  == IF v[2] = 6 THEN c.shared ELSE v[4]
      z   == IF odd THEN Core(v[2], v[3], st, y, x) ELSE Core(v[2], v[3], st, x, y)
      res == IF z[3] = 1 THEN -13 ELSE z[2] + v[1]
  IN [c |-> IF v[2] = 6 THEN [c EXCEPT !.shared = z[1]] ELSE c,
      v |-> IF v[2] = 6 THEN v ELSE <<v[1], v[2], v[3], z[1]>>,
      r |-> <<res, z[3], Counts(v[2])>>]
Start(k, cap) == <<0, k, IF k \in {2, 7, 8} THEN cap ELSE 0, IF k \in {3, 4} THEN cap ELSE 0>>
Do(c, op, a) ==
  LET s == a[1]  v == At(c, a[1]) IN
  CASE \* constructed from a callable given as a temporary, an lvalue or a const one (the original
       \* keeps its state, whatever the copy does); or assigned from the callable
       op \in {"make", "set"} -> {<<Put(c, s, Start(a[2], a[3])), IF a[2] = 4 /\ a[4] > 0 THEN <<a[3]>> ELSE <<>>>>}
    [] op \in {"copy", "assign"} -> {<<Put(c, s, At(c, a[2])), <<>>>>}
    [] op \in {"move", "massign"} -> {<<Put(Put(c, s, At(c, a[2])), a[2], Gone), <<>>>>}
    [] op = "swap" -> {<<Put(Put(c, s, At(c, a[2])), a[2], v), <<>>>>}
    \* s := a callable that holds a copy of t
    [] op = "wrap" -> LET w == At(c, a[2]) IN {<<Put(c, s, <<w[1] + 1, w[2], w[3], w[4]>>), <<>>>>}
    [] op = "call" -> LET z == Call(c, v, a[2], a[3]) IN {<<Put(z.c, s, z.v), z.r>>}
    \* called through a copy (passed by value): the state of s stays
    [] op = "bycopy" -> LET z == Call(c, v, a[2], a[3])  y == Call(z.c, z.v, a[2], a[3]) IN {<<y.c, z.r \o y.r>>}
    [] OTHER -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Full(c) == {s \in Slots : At(c, s) # Gone}
Kinds == IF Group = "objects" THEN {0, 4} ELSE {0, 1, 2, 3, 4, 6, 7, 8}
Acts(c) ==
       {<<op, s, k, cap, m>> : op \in {"make", "set"}, s \in Slots, k \in Kinds, cap \in Caps, m \in {0}}
  \cup {<<op, s, 4, cap, m>> : op \in {"make", "set"}, s \in Slots, cap \in Caps, m \in 1..2}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "move", "massign", "swap"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"wrap", s, t>> : s \in Slots, t \in {u \in Full(c) : At(c, u)[1] < Depth}}
  \cup {<<op, s, x, y>> : op \in {"call", "bycopy"}, s \in Full(c), x \in Xs, y \in Xs}
Inv(c) == \A s \in 1..K : c.f[s] = Gone \/ (Len(c.f[s]) = 4 /\ c.f[s][1] <= Depth)
\* a call changes the state of what is called, and of nothing else
Step(c, op, a, r, d) ==
  /\ op = "call" => \A s \in Slots : (s # a[1] => At(d, s) = At(c, s)) /\ (s = a[1] => \A i \in 1..3 : At(d, s)[i] = At(c, s)[i])
  /\ op = "bycopy" => d.f = c.f
=============================================================================
