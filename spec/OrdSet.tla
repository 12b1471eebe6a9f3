-------------------------------- MODULE OrdSet --------------------------------
(* cest::set: K set objects and H held iterators (C07, C13).                 *)
(* An element is an integer; its key is element \div Div, so that with       *)
(* Div > 1 there are different elements with equivalent keys.  The           *)
(* comparator orders the keys ascending, or descending when Desc.            *)
(* An object is the sequence of its elements in comparator order.  A held    *)
(* iterator is <<s, e>>: it designates element e of object s, or with e = -1 *)
(* the end; <<-1, -1>> is no iterator.                                       *)
EXTENDS SeqLib
CONSTANTS K, H, Vals, Div, Desc, Group

None  == <<-1, -1>>
Init0 == [q |-> [s \in 1..K |-> <<>>], h |-> [i \in 1..H |-> None]]
At(c, s) == c.q[s + 1]
N(c, s)  == Len(At(c, s))
Before(x, y) == IF Desc THEN x \div Div > y \div Div ELSE x \div Div < y \div Div
Equiv(x, y)  == x \div Div = y \div Div
\* number of elements of q ordered before v: the rank of v
Rank(q, v)   == Cardinality({i \in 1..Len(q) : Before(q[i], v)})
Has(q, v)    == \E i \in 1..Len(q) : Equiv(q[i], v)
\* position and value an iterator from find designates: end if absent
Find(q, v)   == IF Has(q, v) THEN <<Rank(q, v), q[Rank(q, v) + 1]>> ELSE <<Len(q), -1>>
Held(c, i) == LET x == c.h[i] IN
              IF x = None THEN <<-1, -1, -1>>
              ELSE IF x[2] = -1 THEN <<x[1], N(c, x[1]), -1>>
              ELSE <<x[1], Rank(At(c, x[1]), x[2]), x[2]>>
RECURSIVE HeldAll(_, _)
HeldAll(c, i) == IF i > H THEN <<>> ELSE Held(c, i) \o HeldAll(c, i + 1)
Obs(c) == Flat(c.q) \o HeldAll(c, 1)

R0(c)    == {<<c, <<>>>>}
R(c, r)  == {<<c, r>>}
SetQ(c, s, q) == [c EXCEPT !.q[s + 1] = q]
SetH(c, i, x) == [c EXCEPT !.h[i + 1] = x]
Drop(c, s)    == [c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s THEN None ELSE c.h[i]]]
New(c, s, q)  == SetQ(Drop(c, s), s, q)
Insert(q, v)  == IF Has(q, v) THEN q ELSE Ins(q, Rank(q, v), v)
Added(q, v)   == B(~Has(q, v))
It(q, p)      == IF p < Len(q) THEN q[p + 1] ELSE -1

Do(c, op, a) ==
  LET s == a[1]
      q == At(c, IF op \in {"hold", "drop", "next"} THEN 0 ELSE s)
      hs == c.h[a[1] + 1]
  IN
  CASE op = "make"   -> R0(New(c, s, <<>>))
    \* result: rank and value of the element with that key, and whether added
    [] op = "insert" -> LET d == Insert(q, a[2]) IN R(SetQ(c, s, d), Find(d, a[2]) \o <<Added(q, a[2])>>)
    [] op = "insert_hint" -> LET d == Insert(q, a[3]) IN R(SetQ(c, s, d), Find(d, a[3]))
    [] op = "insert_own"  -> R(c, <<a[2], q[a[2] + 1], 0>>)
    [] op = "insert_keep" -> LET d == Insert(q, a[2]) IN R0(SetH(SetQ(c, s, d), a[3], <<s, Find(d, a[2])[2]>>))
    \* find variants: 0 key 1 key, const object 2 other type 3 other type, const object
    \* 4 and 5: something that lies between the keys, or among none of them
    [] op = "find"   -> R(c, IF a[3] > 3 THEN <<Len(q), -1>> ELSE Find(q, a[2]))
    [] op = "find_keep" -> R0(SetH(c, a[3], <<s, Find(q, a[2])[2]>>))
    [] op = "clear"  -> R0(SetQ([c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] # -1 THEN None ELSE c.h[i]]], s, <<>>))
    \* views: 0 ++begin 1 begin++ 2 ++cbegin 3 range-for 4, 5 ++ with
    \*        what it gives back 6 const range-for
    [] op = "view"   -> R(c, Views(q, a[2], 7, {}))
    [] op = "same"   -> R(c, <<B(a[2] = a[3]), B(a[2] # a[3])>>)
    [] op = "hold"   -> R0(SetH(c, a[1], <<a[2], It(At(c, a[2]), a[3])>>))
    [] op = "drop"   -> R0(SetH(c, a[1], None))
    [] op = "next"   -> R0(SetH(c, a[1], <<hs[1], It(At(c, hs[1]), Rank(At(c, hs[1]), hs[2]) + 1)>>))
    [] op = "copy"   -> R0(New(c, s, At(c, a[2])))
    [] op = "assign" -> R0(New(c, s, At(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0(New(New(c, s, At(c, a[2])), a[2], <<>>))
    [] OTHER         -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Hs    == 0..(H - 1)
Content(c) ==
       {<<"insert", s, v>> : s \in Slots, v \in Vals}
  \cup UNION {{<<"insert_hint", s, p, v>> : p \in 0..N(c, s), v \in Vals} : s \in Slots}
  \cup UNION {{<<"insert_own", s, p>> : p \in 0..(N(c, s) - 1)} : s \in Slots}
  \cup {<<"find", s, v, k>> : s \in Slots, v \in Vals, k \in 0..5}
  \cup {<<"clear", s>> : s \in Slots}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..7}
  \cup UNION {{<<"same", s, i, j>> : i \in 0..N(c, s), j \in 0..N(c, s)} : s \in Slots}
Held_(c) ==
       {<<op, s, v, i>> : op \in {"insert_keep", "find_keep"}, s \in Slots, v \in Vals, i \in Hs}
  \cup UNION {{<<"hold", i, s, p>> : i \in Hs, p \in 0..N(c, s)} : s \in Slots}
  \cup {<<"drop", i>> : i \in Hs}
  \cup {<<"next", i>> : i \in {x \in Hs : c.h[x + 1] # None /\ c.h[x + 1][2] # -1}}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Content(c)
    [] Group = "held"    -> Held_(c) \cup {l \in Content(c) : l[1] \in {"insert", "clear"}}
    [] OTHER             -> Objects(c) \cup {l \in Content(c) : l[1] \in {"insert", "clear", "find"}}

Sorted(q) == \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1])
Inv(c) == \A s \in Slots : Sorted(At(c, s))
Readers == {"find", "view", "same", "insert_own"}
ToSet(q) == {q[i] : i \in 1..Len(q)}
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ op \in {"insert", "insert_hint", "insert_keep"} =>
       LET v == IF op = "insert_hint" THEN a[3] ELSE a[2] IN
       /\ ToSet(At(d, a[1])) = ToSet(At(c, a[1])) \cup (IF Has(At(c, a[1]), v) THEN {} ELSE {v})
       /\ \A i \in 1..H : (c.h[i] # None /\ op # "insert_keep") => d.h[i] = c.h[i]
=============================================================================
