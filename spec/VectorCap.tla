------------------------------ MODULE VectorCap ------------------------------
(* cest::vector: capacity, identity of the storage, amortised growth (C02).   *)
(* The content is abstracted to its length; a call's result tells, for every  *)
(* object, whose storage it has now: s that of object s before the call, -1   *)
(* none or storage newly obtained.                                            *)
EXTENDS SeqLib
CONSTANTS K, MaxLen, Slack

Init0 == [s \in 1..K |-> [n |-> 0, cap |-> 0]]
RECURSIVE FlatCap(_)
FlatCap(q) == IF q = <<>> THEN <<>> ELSE <<q[1].n, q[1].cap>> \o FlatCap(Tail(q))
Obs(c) == FlatCap(c)

At(c, s) == c[s + 1]
V(n, m)  == [n |-> n, cap |-> m]
\* everyone keeps its storage
Own(c) == [s \in 1..K |-> IF c[s].cap = 0 THEN -1 ELSE s - 1]
Keep(c, s, n) == {<<[c EXCEPT ![s + 1].n = n], Own(c)>>}
\* s obtains new storage for at least `need' elements
FreshUpTo(c, s, n, need, most) ==
  {<<[c EXCEPT ![s + 1] = V(n, m)], [Own(c) EXCEPT ![s + 1] = -1]>> : m \in need..most}
Fresh(c, s, n, need) == FreshUpTo(c, s, n, need, 2 * need + Slack)
\* s comes to hold n elements, in place as long as they fit
Hold(c, s, n) == IF n <= At(c, s).cap THEN Keep(c, s, n) ELSE Fresh(c, s, n, n)

New(c, s, n) == IF n = 0
                THEN {<<[c EXCEPT ![s + 1] = V(0, 0)], [Own(c) EXCEPT ![s + 1] = -1]>>} \cup Fresh(c, s, 0, 0)
                ELSE Fresh(c, s, n, n)
\* a copy may or may not take over the spare capacity too
CopyOf(c, s, t) == LET n == At(c, t).n IN
                   FreshUpTo(c, s, n, n, Max2(2 * n + Slack, At(c, t).cap))
Assign(c, s, t) == Hold(c, s, At(c, t).n) \cup CopyOf(c, s, t)
                   \cup (IF s = t THEN Keep(c, s, At(c, s).n) ELSE {})
\* the target has the source's storage; the source is left with nothing, or
\* (move assignment) with the target's former storage
Handed(c, s, t, x) ==
  <<[c EXCEPT ![s + 1] = At(c, t), ![t + 1] = x],
    [Own(c) EXCEPT ![s + 1] = Own(c)[t + 1],
                   ![t + 1] = IF x.cap = 0 THEN -1 ELSE Own(c)[s + 1]]>>
MoveNew(c, s, t) == {Handed(c, s, t, V(0, 0))}
MoveAssign(c, s, t) == {Handed(c, s, t, V(0, 0)), Handed(c, s, t, At(c, s))}
Swap(c, s, t) == IF s = t THEN Keep(c, s, At(c, s).n) ELSE {Handed(c, s, t, At(c, s))}

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* n appends to a vector of n0 elements (or room for them): how often the
\* storage was replaced, and that it never was without need
Fill(c, n, n0) == {<<c, <<k, 1>>>> : k \in 0..(4 * Log2((n0 + n) \div Max2(n0, 1)) + 6)}
\* the same to an object, which they are then taken off again
Grow(c, s, n) ==
  LET v == At(c, s)  top == v.n + n IN
  IF top <= v.cap THEN {<<c, <<0, 1>>>>}
  ELSE {<<[c EXCEPT ![s + 1] = V(v.n, m)], <<k, 1>>>> :
          m \in top..(2 * top + Slack), k \in 1..(4 * Log2(top \div Max2(v.n, 1)) + 6)}
\* when what came of it is told
GrowTo(c, s, n, m, k) == {o \in {<<[c EXCEPT ![s + 1] = V(At(c, s).n, m)], <<k, 1>>>>} :
  LET v == At(c, s)  top == v.n + n IN
  IF top <= v.cap THEN m = v.cap /\ k = 0
  ELSE m >= top /\ m <= 2 * top + Slack /\ k >= 1 /\ k <= 4 * Log2(top \div Max2(v.n, 1)) + 6}

Do(c, op, a) ==
  CASE op = "make"     -> New(c, a[1], 0)
    [] op = "make_n"   -> New(c, a[1], a[2])
    [] op = "make_il"  -> New(c, a[1], a[2])
    [] op = "push"     -> Hold(c, a[1], At(c, a[1]).n + 1)
    [] op = "push_mv"  -> Hold(c, a[1], At(c, a[1]).n + 1)
    [] op = "push_own" -> Hold(c, a[1], At(c, a[1]).n + 1)
    [] op = "pop"      -> Keep(c, a[1], At(c, a[1]).n - 1)
    [] op = "resize"   -> Hold(c, a[1], a[2])
    [] op = "reserve"  -> IF a[2] <= At(c, a[1]).cap THEN Keep(c, a[1], At(c, a[1]).n)
                          ELSE Fresh(c, a[1], At(c, a[1]).n, a[2])
    [] op = "clear"    -> Keep(c, a[1], 0)
    [] op = "erase"    -> Keep(c, a[1], At(c, a[1]).n - (a[3] - a[2]))
    [] op = "copy"     -> New(c, a[1], At(c, a[2]).n) \cup CopyOf(c, a[1], a[2])
    [] op = "move_new" -> MoveNew(c, a[1], a[2])
    [] op = "assign"   -> Assign(c, a[1], a[2])
    [] op = "massign"  -> MoveAssign(c, a[1], a[2])
    [] op = "swap"     -> Swap(c, a[1], a[2])
    [] op = "fill"     -> Fill(c, a[1], a[2])
    [] op = "grow"     -> IF Len(a) = 2 THEN Grow(c, a[1], a[2]) ELSE GrowTo(c, a[1], a[2], a[3], a[4])
    [] OTHER           -> {}

Slots == 0..(K - 1)
Acts(c) ==
       {<<op, s>> : op \in {"push", "push_mv"}, s \in {x \in Slots : At(c, x).n < MaxLen}}
  \cup UNION {{<<"push_own", s, i>> : i \in 0..(At(c, s).n - 1)} : s \in {x \in Slots : At(c, x).n < MaxLen}}
  \cup {<<"pop", s>> : s \in {x \in Slots : At(c, x).n > 0}}
  \cup {<<op, s, n>> : op \in {"resize", "reserve", "make_n", "make_il"}, s \in Slots, n \in 0..MaxLen}
  \cup {<<"clear", s>> : s \in Slots} \cup {<<"make", s>> : s \in Slots}
  \cup UNION {UNION {{<<"erase", s, i, j>> : i \in 0..j} : j \in 0..At(c, s).n} : s \in Slots}
  \cup {<<op, s, s>> : op \in {"assign", "swap"}, s \in Slots}
  \cup {<<"grow", s, n>> : s \in Slots, n \in {1, 2, 4}}
  \cup {<<"fill", n, m, w>> : n \in {1, 2, 3, 5, 17}, m \in {0, 1, 6}, w \in 0..5}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "move_new", "assign", "massign", "swap"},
                             p \in {x \in Slots \X Slots : x[1] # x[2]}}

Inv(c) == \A s \in 1..K : c[s].n <= c[s].cap
Lowers == {"assign", "massign", "move_new", "swap", "make", "make_n", "make_il", "copy"}
Step(c, op, a, r, d) ==
  op \notin {"fill", "grow"} =>
  /\ \A s \in 1..K : d[s].cap < c[s].cap => op \in Lowers
  \* storage is replaced only to make room
  /\ \A s \in 1..K : (d[s].n <= c[s].cap /\ c[s].cap > 0 /\ op \notin Lowers \cup {"reserve"}) => r[s] = s - 1
  /\ op = "reserve" => At(d, a[1]).cap >= a[2]
  \* no storage has two owners
  /\ \A s, t \in 1..K : (s # t /\ r[s] # -1) => r[s] # r[t]
=============================================================================
