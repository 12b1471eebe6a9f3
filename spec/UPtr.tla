--------------------------------- MODULE UPtr ---------------------------------
(* cest::unique_ptr (C16): K pointers to objects that own a further object    *)
(* through a unique_ptr of their own, so what a pointer owns is the sequence  *)
(* of objects of a singly linked list.  raw: the objects a client took over   *)
(* by release() (with the list behind each).  der: the objects that were      *)
(* created as a derived class; their end shows as 100 + id, then id.          *)
(* The result of a call ends with the objects destroyed in it, in order.      *)
EXTENDS SeqLib
CONSTANTS K, MaxObjs, MaxId, Group

Init0 == [q |-> [s \in 1..K |-> <<>>], raw |-> {}, der |-> {}]
At(c, s) == c.q[s + 1]
Set1(c, s, l) == [c EXCEPT !.q[s + 1] = l]
Range(l) == {l[i] : i \in 1..Len(l)}
Owned(c) == UNION {Range(c.q[s]) : s \in 1..K}
Alive(c) == Owned(c) \cup UNION {Range(l) : l \in c.raw}
Fresh(c) == CHOOSE i \in 1..MaxId : i \notin Alive(c) /\ \A j \in 1..(i - 1) : j \in Alive(c)
RawOf(c, i) == CHOOSE l \in c.raw : l[1] = i
Tag(c, l) == [i \in 1..Len(l) |-> IF l[i] \in c.der THEN 100 + l[i] ELSE l[i]]
RECURSIVE End(_, _), RawObs(_, _)
\* the objects of a list end from the head on
End(c, l) == IF l = <<>> THEN <<>> ELSE (IF l[1] \in c.der THEN <<100 + l[1], l[1]>> ELSE <<l[1]>>) \o End(c, Tail(l))
RawObs(c, i) == IF i > MaxId THEN <<>> ELSE (IF \E l \in c.raw : l[1] = i THEN <<-1>> \o Tag(c, RawOf(c, i)) ELSE <<>>) \o RawObs(c, i + 1)
Obs(c) == Flat([s \in 1..K |-> Tag(c, c.q[s])]) \o RawObs(c, 1) \o <<Cardinality(Alive(c)), 1>>

\* der is kept to the living
Tidy(c) == [c EXCEPT !.der = @ \cap Alive(c)]
\* outcome: new state, result r, ended list l
Out(c, d, r, l) == {<<Tidy(d), r \o End(c, l)>>}
Mark(c, i, kind) == IF kind \in {1, 3} THEN [c EXCEPT !.der = @ \cup {i}] ELSE c
Do(c, op, a) ==
  LET s == a[1]  q == At(c, a[1]) IN
  CASE op = "make"      -> LET i == Fresh(c) IN Out(c, Mark(Set1(c, s, <<i>>), i, a[2]), <<>>, q)
    [] op = "make_null" -> Out(c, Set1(c, s, <<>>), <<>>, q)
    [] op \in {"make_raw", "reset_raw"} -> LET l == RawOf(c, a[2]) IN Out(c, Set1([c EXCEPT !.raw = @ \ {l}], s, l), <<>>, q)
    \* moving transfers the list and leaves the source null
    [] op = "move_new"  -> Out(c, Set1(Set1(c, s, At(c, a[2])), a[2], <<>>), <<>>, q)
    [] op = "massign"   -> IF s = a[2] THEN Out(c, c, <<>>, <<>>)
                           ELSE Out(c, Set1(Set1(c, s, At(c, a[2])), a[2], <<>>), <<>>, q)
    [] op = "renew"     -> IF a[2] < 0 THEN Out(c, Set1(c, s, <<>>), <<>>, q)
                           ELSE LET i == Fresh(c) IN Out(c, Mark(Set1(c, s, <<i>>), i, a[2]), <<>>, q)
    [] op = "release"   -> IF q = <<>> THEN Out(c, c, <<0>>, <<>>)
                           ELSE Out(c, [Set1(c, s, <<>>) EXCEPT !.raw = @ \cup {q}], <<q[1]>>, <<>>)
    [] op = "delete_raw" -> LET l == RawOf(c, a[2]) IN Out(c, [c EXCEPT !.raw = @ \ {l}], <<>>, l)
    [] op = "push"      -> LET i == Fresh(c) IN Out(c, Mark(Set1(c, s, <<i>> \o q), i, a[2]), <<>>, <<>>)
    \* p->next = move(t)
    [] op = "link"      -> Out(c, Set1(Set1(c, s, <<q[1]>> \o At(c, a[2])), a[2], <<>>), <<>>, Tail(q))
    \* t = move(p->next)
    [] op = "unlink"    -> Out(c, Set1(Set1(c, s, <<q[1]>>), a[2], Tail(q)), <<>>, At(c, a[2]))
    \* p = move(p->next)
    [] op = "next"      -> Out(c, Set1(c, s, Tail(q)), <<>>, <<q[1]>>)
    [] op = "swap"      -> Out(c, Set1(Set1(c, s, At(c, a[2])), a[2], q), <<>>, <<>>)
    [] op = "read"      -> {<<c, <<q[1], q[1], q[1], q[1], q[1]>>>>}
    [] op = "cmp"       -> LET same == s = a[2] \/ (q = <<>> /\ At(c, a[2]) = <<>>) IN {<<c, <<B(same), B(~same), 1, 1>>>>}
    [] OTHER            -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Some(c) == {s \in Slots : At(c, s) # <<>>}
Kinds == IF Group = "all" THEN 0..3 ELSE {0}
Acts(c) ==
       (IF Cardinality(Alive(c)) < MaxObjs
        THEN {<<op, s, k>> : op \in {"make", "push"}, s \in Slots, k \in Kinds} \cup {<<"renew", s, k>> : s \in Slots, k \in 0..1}
        ELSE {})
  \cup {<<op, s>> : op \in {"make_null", "release"}, s \in Slots}
  \cup {<<"renew", s, -1>> : s \in Slots}
  \cup {<<op, s, t>> : op \in {"massign", "swap", "cmp"}, s \in Slots, t \in Slots}
  \cup {<<"move_new", p[1], p[2]>> : p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<op, s, l[1]>> : op \in {"make_raw", "reset_raw"}, s \in Slots, l \in c.raw}
  \cup {<<"delete_raw", 0, l[1]>> : l \in c.raw}
  \cup {<<op, p[1], p[2]>> : op \in {"link", "unlink"}, p \in {x \in Some(c) \X Slots : x[1] # x[2]}}
  \cup {<<op, s>> : op \in {"next", "read"}, s \in Some(c)}
\* every object has one owner at most, and a client's plain pointer owns it otherwise
Total1(c) == LET RECURSIVE Sum(_)
                 Sum(s) == IF s > K THEN 0 ELSE Len(c.q[s]) + Sum(s + 1)
             IN Sum(1)
Inv(c) == /\ Cardinality(Owned(c)) = Total1(c)
          /\ \A l \in c.raw : l # <<>> /\ Range(l) \cap Owned(c) = {}
          /\ \A l, m \in c.raw : l = m \/ Range(l) \cap Range(m) = {}
          /\ c.der \subseteq Alive(c)
\* what goes is reported, once; release and moving destroy nothing of their own
Step(c, op, a, r, d) ==
  LET gone == Alive(c) \ Alive(d)  ended == {r[i] : i \in 1..Len(r)} IN
  /\ op \notin {"read", "cmp", "release"} => ended \cap (1..MaxId) = gone
  /\ op \in {"release", "push", "swap", "read", "cmp"} => gone = {}
  /\ op \in {"massign", "move_new"} => (\A t \in Slots : t \notin {a[1], a[2]} => At(d, t) = At(c, t))
=============================================================================
