-------------------------------- MODULE OrdMap --------------------------------
(* cest::map: K map objects and H held iterators (C08, C13).  An object is   *)
(* the sequence of its entries <<key, value>> in comparator order.  Keys are *)
(* compared by key \div Div (ascending, or descending when Desc).  A held    *)
(* iterator is <<s, k>>: it designates the entry with key k, or with k = -1  *)
(* the end; <<-1, -1>> is no iterator.                                       *)
EXTENDS SeqLib
CONSTANTS K, H, Keys, Vals, Div, Desc, Group

None  == <<-1, -1>>
Init0 == [q |-> [s \in 1..K |-> <<>>], h |-> [i \in 1..H |-> None]]
At(c, s) == c.q[s + 1]
N(c, s)  == Len(At(c, s))
Before(x, y) == IF Desc THEN x \div Div > y \div Div ELSE x \div Div < y \div Div
Equiv(x, y)  == x \div Div = y \div Div
Rank(q, k)   == Cardinality({i \in 1..Len(q) : Before(q[i][1], k)})
Has(q, k)    == \E i \in 1..Len(q) : Equiv(q[i][1], k)
It(q, p)     == IF p < Len(q) THEN q[p + 1] ELSE <<-1, -1>>
\* position, key and value an iterator from find designates
Find(q, k)   == IF Has(q, k) THEN <<Rank(q, k)>> \o q[Rank(q, k) + 1] ELSE <<Len(q), -1, -1>>
Held(c, i) == LET x == c.h[i] IN
              IF x = None THEN <<-1, -1, -1, -1>> ELSE IF x[2] = -1 THEN <<x[1], N(c, x[1]), -1, -1>>
              ELSE <<x[1]>> \o Find(At(c, x[1]), x[2])
RECURSIVE HeldAll(_, _), Pairs(_)
HeldAll(c, i) == IF i > H THEN <<>> ELSE Held(c, i) \o HeldAll(c, i + 1)
Pairs(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Pairs(Tail(q))
RECURSIVE Objs(_)
Objs(qs) == IF qs = <<>> THEN <<>> ELSE <<Len(qs[1])>> \o Pairs(qs[1]) \o Objs(Tail(qs))
Obs(c) == Objs(c.q) \o HeldAll(c, 1)

R0(c)    == {<<c, <<>>>>}
R(c, r)  == {<<c, r>>}
SetQ(c, s, q) == [c EXCEPT !.q[s + 1] = q]
SetH(c, i, x) == [c EXCEPT !.h[i + 1] = x]
Drop(c, s)    == [c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s THEN None ELSE c.h[i]]]
New(c, s, q)  == SetQ(Drop(c, s), s, q)
Insert(q, k, v) == IF Has(q, k) THEN q ELSE Ins(q, Rank(q, k), <<k, v>>)
Write(q, k, v)  == [q EXCEPT ![Rank(q, k) + 1] = <<q[Rank(q, k) + 1][1], v>>]
Added(q, k)     == B(~Has(q, k))

Do(c, op, a) ==
  LET s == a[1]
      q == At(c, IF op \in {"hold", "drop", "next", "write_at"} THEN 0 ELSE s)
      hs == c.h[a[1] + 1]
      hq == At(c, hs[1])
  IN
  CASE op = "make"   -> R0(New(c, s, <<>>))
    [] op = "insert" -> LET d == Insert(q, a[2], a[3]) IN R(SetQ(c, s, d), Find(d, a[2]) \o <<Added(q, a[2])>>)
    [] op = "insert_own"  -> R(c, <<a[2]>> \o q[a[2] + 1] \o <<0>>)
    [] op = "insert_keep" -> LET d == Insert(q, a[2], a[3]) IN R0(SetH(SetQ(c, s, d), a[4], <<s, Find(d, a[2])[2]>>))
    \* insert, then write through the iterator returned
    [] op = "insert_set"  -> R0(SetQ(c, s, Write(Insert(q, a[2], a[3]), a[2], a[4])))
    \* 4 and 5: something that lies between the keys, or among none of them
    [] op = "find"   -> R(c, IF a[3] > 3 THEN <<Len(q), -1, -1>> ELSE Find(q, a[2]))
    [] op = "find_keep" -> R0(SetH(c, a[3], <<s, Find(q, a[2])[2]>>))
    \* write through the iterator found; result: whether there was one
    [] op = "write"  -> IF Has(q, a[2]) THEN R(SetQ(c, s, Write(q, a[2], a[3])), <<1>>) ELSE R(c, <<0>>)
    [] op = "write_at" -> R0(SetQ(c, hs[1], Write(hq, hs[2], a[2])))
    [] op = "clear"  -> R0(SetQ([c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] # -1 THEN None ELSE c.h[i]]], s, <<>>))
    \* views: 0 ++begin 1 begin++ 2 ++cbegin 3 range-for 4 mutable ++ from find
    \*        of the first key 5, 6 ++ with what it gives back 7 mutable it++
    [] op = "view"   -> R(c, Views(Pairs(q), a[2], 8, {}))
    [] op = "same"   -> R(c, <<B(a[2] = a[3]), B(a[2] # a[3]), B(a[2] = a[3])>>)
    [] op = "hold"   -> R0(SetH(c, a[1], <<a[2], It(At(c, a[2]), a[3])[1]>>))
    [] op = "drop"   -> R0(SetH(c, a[1], None))
    [] op = "next"   -> R0(SetH(c, a[1], <<hs[1], It(hq, Rank(hq, hs[2]) + 1)[1]>>))
    [] op = "copy"   -> R0(New(c, s, At(c, a[2])))
    [] op = "assign" -> R0(New(c, s, At(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0(New(New(c, s, At(c, a[2])), a[2], <<>>))
    [] OTHER         -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Hs    == 0..(H - 1)
Content(c) ==
       {<<"insert", s, k, v>> : s \in Slots, k \in Keys, v \in Vals}
  \cup {<<"insert_set", s, k, v, w>> : s \in Slots, k \in Keys, v \in Vals, w \in Vals}
  \cup UNION {{<<"insert_own", s, p>> : p \in 0..(N(c, s) - 1)} : s \in Slots}
  \cup {<<"find", s, k, j>> : s \in Slots, k \in Keys, j \in 0..5}
  \cup {<<"write", s, k, v>> : s \in Slots, k \in Keys, v \in Vals}
  \cup {<<"clear", s>> : s \in Slots}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..8}
  \cup UNION {{<<"same", s, i, j>> : i \in 0..N(c, s), j \in 0..N(c, s)} : s \in Slots}
Held_(c) ==
       {<<"insert_keep", s, k, v, i>> : s \in Slots, k \in Keys, v \in Vals, i \in Hs}
  \cup {<<"find_keep", s, k, i>> : s \in Slots, k \in Keys, i \in Hs}
  \cup UNION {{<<"hold", i, s, p>> : i \in Hs, p \in 0..N(c, s)} : s \in Slots}
  \cup {<<"drop", i>> : i \in Hs}
  \cup {<<"next", i>> : i \in {x \in Hs : c.h[x + 1] # None /\ c.h[x + 1][2] # -1}}
  \cup {<<"write_at", i, v>> : i \in {x \in Hs : c.h[x + 1] # None /\ c.h[x + 1][2] # -1}, v \in Vals}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Content(c)
    [] Group = "held"    -> Held_(c) \cup {l \in Content(c) : l[1] \in {"insert", "clear", "write"}}
    [] OTHER             -> Objects(c) \cup {l \in Content(c) : l[1] \in {"insert", "clear", "find", "write"}}

Sorted(q) == \A i \in 1..(Len(q) - 1) : Before(q[i][1], q[i + 1][1])
Inv(c) == \A s \in Slots : Sorted(At(c, s))
Readers == {"find", "view", "same", "insert_own"}
ToSet(q) == {q[i] : i \in 1..Len(q)}
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ op = "insert" =>
       /\ ToSet(At(d, a[1])) = ToSet(At(c, a[1])) \cup (IF Has(At(c, a[1]), a[2]) THEN {} ELSE {<<a[2], a[3]>>})
       /\ d.h = c.h
=============================================================================
