-------------------------------- MODULE BulkOrd --------------------------------
(* Sets and maps of any size (C07, C08): what they hold as maximal runs       *)
(* <<k, n, t>> in key order: keys k .. k + n - 1, each with the value t.  The *)
(* keys of a range are put in in some order (the last argument tells which);  *)
(* those that are there already keep their value.                             *)
EXTENDS SeqLib
CONSTANTS K, MaxKey,
          Map,        \* whether keys have values
          Acct        \* what an element counts for, 9 if nothing is counted

Init0 == [s \in 1..K |-> <<>>]
At(c, s) == c[s + 1]
Set1(c, s, q) == [c EXCEPT ![s + 1] = q]
RECURSIVE Count(_), Merge(_, _, _, _), Norm(_), FlatR(_), Look(_, _), ObsAll(_)
Count(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Count(Tail(q))
\* the keys a .. b - 1, with value t
Merge(q, a, b, t) ==
  IF a >= b THEN q
  ELSE IF q = <<>> THEN <<<<a, b - a, t>>>>
  ELSE LET r == q[1]  rs == r[1]  re == r[1] + r[2] IN
       IF re <= a THEN <<r>> \o Merge(Tail(q), a, b, t)
       ELSE IF rs >= b THEN <<<<a, b - a, t>>>> \o q
       ELSE (IF a < rs THEN <<<<a, rs - a, t>>>> ELSE <<>>) \o <<r>> \o Merge(Tail(q), Max2(a, re), b, t)
Norm(q) == IF Len(q) < 2 THEN q
           ELSE IF q[1][1] + q[1][2] = q[2][1] /\ q[1][3] = q[2][3]
                THEN Norm(<<<<q[1][1], q[1][2] + q[2][2], q[1][3]>>>> \o Tail(Tail(q)))
                ELSE <<q[1]>> \o Norm(Tail(q))
Look(q, k) == IF q = <<>> THEN <<0, 0>>
              ELSE IF k >= q[1][1] /\ k < q[1][1] + q[1][2] THEN <<1, q[1][3]>> ELSE Look(Tail(q), k)
FlatR(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatR(Tail(q))
ObsAll(qs) == IF qs = <<>> THEN <<>> ELSE <<Count(qs[1]), Len(qs[1])>> \o FlatR(qs[1]) \o ObsAll(Tail(qs))
RECURSIVE Total1(_)
Total1(qs) == IF qs = <<>> THEN 0 ELSE Count(qs[1]) + Total1(Tail(qs))
\* the elements alive anywhere, and what went wrong with them or the storage
Held(c) == IF Acct = 9 THEN <<>> ELSE <<Acct * Total1(c), 0>>
Obs(c) == ObsAll(c) \o Held(c)

Do(c, op, a) ==
  LET s == a[1]  q == At(c, a[1]) IN
  CASE op = "ins"    -> LET d == Norm(Merge(q, a[2], a[2] + a[3], a[4])) IN {<<Set1(c, s, d), <<Count(d) - Count(q)>>>>}
    [] op = "find"   -> {<<c, Look(q, a[2])>>}
    \* how many of a range are there
    [] op = "count"  -> {<<c, <<a[3] - (Count(Norm(Merge(q, a[2], a[2] + a[3], 0))) - Count(q))>>>>}
    [] op \in {"clear", "make"} -> {<<Set1(c, s, <<>>), <<>>>>}
    [] op \in {"copy", "assign"} -> {<<Set1(c, s, At(c, a[2])), <<>>>>}
    \* insertion in order, one of which failed: those before it are there
    [] op = "xins"   -> {<<Set1(c, s, Norm(Merge(q, a[2], a[2] + a[6], a[4]))), <<>>>>}
    [] op = "xcopy"  -> {<<c, <<1>>>>}
    [] op = "xassign" -> {<<Set1(c, s, <<>>), <<1>>>>}
    [] op = "gone"   -> {<<Init0, <<0, 0, 0>>>>}
    \* from end to end, by another iterator
    [] op = "walk"   -> {<<c, ObsAll(<<q>>)>>}
    [] OTHER         -> {}
-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Keys == 0..MaxKey
Pairs == {p \in Slots \X Slots : p[1] # p[2]}
Acts(c) ==
       {<<"ins", s, r[1], r[2], t, 0>> : s \in Slots, r \in {x \in Keys \X (0..MaxKey) : x[1] + x[2] <= MaxKey + 1}, t \in IF Map THEN 0..1 ELSE {0}}
  \cup {<<"find", s, k>> : s \in Slots, k \in 0..(MaxKey + 1)}
  \cup {<<"count", s, r[1], r[2]>> : s \in Slots, r \in {x \in Keys \X (0..MaxKey) : x[1] + x[2] <= MaxKey + 1}}
  \cup {<<op, s>> : op \in {"clear", "make", "gone"}, s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "assign"}, p \in Pairs}
  \cup {<<"walk", s, w>> : s \in Slots, w \in 0..1} \cup {<<"assign", s, s>> : s \in Slots}
Inv(c) == \A s \in 1..K : \A i \in 1..Len(c[s]) :
            /\ c[s][i][2] > 0
            /\ i > 1 => LET e == c[s][i - 1][1] + c[s][i - 1][2] IN c[s][i][1] > e \/ (c[s][i][1] = e /\ c[s][i][3] # c[s][i - 1][3])
\* key by key
Step(c, op, a, r, d) ==
  LET x == At(c, a[1])  y == At(d, a[1]) IN
  /\ op = "ins" => /\ \A k \in Keys : Look(y, k) = IF Look(x, k)[1] = 0 /\ k >= a[2] /\ k < a[2] + a[3] THEN <<1, a[4]>> ELSE Look(x, k)
                   /\ r = <<Cardinality({k \in Keys : Look(y, k)[1] = 1}) - Cardinality({k \in Keys : Look(x, k)[1] = 1})>>
  /\ op = "count" => r = <<Cardinality({k \in Keys : k >= a[2] /\ k < a[2] + a[3] /\ Look(x, k)[1] = 1})>>
  /\ \A s \in Slots : s # a[1] /\ op # "gone" => At(d, s) = At(c, s)
=============================================================================
