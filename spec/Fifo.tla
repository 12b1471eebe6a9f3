--------------------------------- MODULE Fifo ---------------------------------
(* cest::queue: K queues, each the sequence of the values pushed and not yet *)
(* popped, and K containers a queue can be built from (C10).                 *)
EXTENDS SeqLib
CONSTANTS K, Vals, MaxLen, Group

Init0 == [q |-> [s \in 1..K |-> <<>>], d |-> [s \in 1..K |-> <<>>]]
Q(c, s) == c.q[s + 1]
D(c, s) == c.d[s + 1]
\* the queue interface shows size and ends only
Ends(q) == IF q = <<>> THEN <<0>> ELSE <<Len(q), q[1], q[Len(q)]>>
RECURSIVE AllEnds(_)
AllEnds(qs) == IF qs = <<>> THEN <<>> ELSE Ends(qs[1]) \o AllEnds(Tail(qs))
Obs(c) == AllEnds(c.q) \o Flat(c.d)
Key(c) == Flat(c.q) \o Flat(c.d)
R0(c)    == {<<c, <<>>>>}
R(c, r)  == {<<c, r>>}
SetQ(c, s, q) == [c EXCEPT !.q[s + 1] = q]
SetD(c, s, q) == [c EXCEPT !.d[s + 1] = q]
Do(c, op, a) ==
  LET s == a[1]  q == Q(c, a[1]) IN
  CASE op = "make"     -> R0(SetQ(c, s, <<>>))
    [] op = "push"     -> R0(SetQ(c, s, Append(q, a[2])))
    [] op = "push_mv"  -> R0(SetQ(c, s, Append(q, a[2])))
    [] op = "push_own" -> R0(SetQ(c, s, Append(q, IF a[2] = 0 THEN q[1] ELSE Last1(q))))
    [] op = "pop"      -> R0(SetQ(c, s, Tail(q)))
    \* pop everything: the values front() yields, in order
    [] op = "drain"    -> R(SetQ(c, s, <<>>), q)
    [] op = "set_end"  -> R0(SetQ(c, s, [q EXCEPT ![IF a[2] = 0 THEN 1 ELSE Len(q)] = a[3]]))
    [] op = "cends"    -> R(c, Ends(q))
    [] op = "copy"     -> R0(SetQ(c, s, Q(c, a[2])))
    [] op = "assign"   -> R0(SetQ(c, s, Q(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client gives it a new value
    [] op \in {"take", "mtake"} -> R0(SetQ(SetQ(c, s, Q(c, a[2])), a[2], <<>>))
    \* the containers
    [] op = "c_push"   -> R0(SetD(c, s, IF a[3] = 0 THEN <<a[2]>> \o D(c, s) ELSE Append(D(c, s), a[2])))
    [] op = "c_clear"  -> R0(SetD(c, s, <<>>))
    [] op = "from"     -> R0(SetQ(c, s, D(c, a[2])))
    \* built from an rvalue: the container is afterwards valid but unspecified;
    \* the client then clears it
    [] op = "from_mv"  -> R0(SetD(SetQ(c, s, D(c, a[2])), a[2], <<>>))
    [] OTHER           -> {}
Slots == 0..(K - 1)
Grow(c) == {s \in Slots : Len(Q(c, s)) < MaxLen}
Some(c) == {s \in Slots : Q(c, s) # <<>>}
Acts(c) ==
       {<<op, s, v>> : op \in {"push", "push_mv"}, s \in Grow(c), v \in Vals}
  \cup {<<"push_own", s, k>> : s \in Grow(c) \cap Some(c), k \in 0..1}
  \cup {<<op, s>> : op \in {"pop", "cends"}, s \in Some(c)}
  \cup {<<"drain", s>> : s \in Slots}
  \cup {<<"set_end", s, k, v>> : s \in Some(c), k \in 0..1, v \in Vals}
  \cup (IF Group # "all" THEN {} ELSE
       {<<op, s>> : op \in {"make", "c_clear"}, s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<op, s, t>> : op \in {"assign", "from", "from_mv"}, s \in Slots, t \in Slots}
  \cup {<<"c_push", s, v, k>> : s \in {x \in Slots : Len(D(c, x)) < MaxLen}, v \in Vals, k \in 0..1})
Inv(c) == \A s \in Slots : Len(Q(c, s)) <= MaxLen
Step(c, op, a, r, d) ==
  /\ op = "push" => (Q(d, a[1])[Len(Q(d, a[1]))] = a[2] /\ (Q(c, a[1]) # <<>> => Q(d, a[1])[1] = Q(c, a[1])[1]))
  /\ op = "pop" => Len(Q(d, a[1])) = Len(Q(c, a[1])) - 1
  /\ op \in {"push", "pop", "set_end"} => d.d = c.d /\ \A s \in Slots : s # a[1] => Q(d, s) = Q(c, s)
=============================================================================
