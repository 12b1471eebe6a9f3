-------------------------------- MODULE NSwap --------------------------------
(* nary::swap and nary::swapr (C25): N variables; a call names any number of *)
(* different ones, in any order, and rotates their values.                   *)
EXTENDS SeqLib
CONSTANTS N, MaxArity
Init0 == [i \in 1..N |-> i]
Obs(c) == c
Pos(a, x) == CHOOSE k \in 1..Len(a) : a[k] = x
In(a, x) == \E k \in 1..Len(a) : a[k] = x
\* every argument gets the value of its right neighbour, the last the first's
Left(c, a)  == [i \in 1..N |-> IF In(a, i - 1) THEN c[a[(Pos(a, i - 1) % Len(a)) + 1] + 1] ELSE c[i]]
\* and the other way round
Right(c, a) == [i \in 1..N |-> IF In(a, i - 1) THEN c[a[((Pos(a, i - 1) + Len(a) - 2) % Len(a)) + 1] + 1] ELSE c[i]]
Do(c, op, a) ==
  CASE op = "swap"  -> {<<Left(c, a), <<>>>>}
    [] op = "swapr" -> {<<Right(c, a), <<>>>>}
    [] op = "set"   -> {<<[c EXCEPT ![a[1] + 1] = a[2]], <<>>>>}
    \* <<which function, construction or assignment fails, the how manieth, arity>>:
    \* a move that throws is the caller's to deal with
    [] op = "fail"  -> {<<c, <<5>>>>}
    [] OTHER -> {}
Tuples == {q \in SeqsUpTo(0..(N - 1), MaxArity) : \A i, j \in 1..Len(q) : i # j => q[i] # q[j]}
Acts(c) == {<<op>> \o q : op \in {"swap", "swapr"}, q \in Tuples}
  \cup {<<"fail", f, k, n, m>> : f \in 0..1, k \in 0..1, n \in 1..2, m \in 2..4}
Inv(c) == {c[i] : i \in 1..N} = 1..N       \* nothing lost, nothing twice
\* each undoes the other; two arguments are exchanged either way
Step(c, op, a, r, d) ==
  /\ op = "swap" => Right(d, a) = c
  /\ op = "swapr" => Left(d, a) = c
  /\ op # "fail" /\ Len(a) = 2 => Left(c, a) = Right(c, a)
=============================================================================
