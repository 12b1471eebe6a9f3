--------------------------------- MODULE List ---------------------------------
(* cest::list: K list objects, each the mathematical sequence of its         *)
(* elements, and H iterators a client holds on to (C05, C13).                *)
(* A held iterator is <<s, p>>: it designates the element at position p of   *)
(* object s, or its end when p is the length; <<-1, -1>> is no iterator.     *)
(* Inserting and erasing shift positions, never the element designated.      *)
EXTENDS SeqLib
CONSTANTS K, H, Vals, MaxLen, Group

None  == <<-1, -1>>
Init0 == [q |-> [s \in 1..K |-> <<>>], h |-> [i \in 1..H |-> None]]
At(c, s) == c.q[s + 1]
N(c, s)  == Len(At(c, s))
\* what a client sees: the contents; and through each held iterator its
\* object, its distance from begin() and the value it designates
Held(c, i) == LET x == c.h[i] IN
              IF x = None THEN <<-1, -1, -1>>
              ELSE <<x[1], x[2], IF x[2] < N(c, x[1]) THEN At(c, x[1])[x[2] + 1] ELSE -1>>
RECURSIVE HeldAll(_, _)
HeldAll(c, i) == IF i > H THEN <<>> ELSE Held(c, i) \o HeldAll(c, i + 1)
Obs(c) == Flat(c.q) \o HeldAll(c, 1)

R0(c)    == {<<c, <<>>>>}
R(c, r)  == {<<c, r>>}
SetQ(c, s, q) == [c EXCEPT !.q[s + 1] = q]
SetH(c, i, x) == [c EXCEPT !.h[i + 1] = x]
\* the list object was given other elements: its iterators are gone
Drop(c, s)  == [c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s THEN None ELSE c.h[i]]]
New(c, s, q) == SetQ(Drop(c, s), s, q)
Insert(c, s, p, v) ==
  [q |-> [c.q EXCEPT ![s + 1] = Ins(At(c, s), p, v)],
   h |-> [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] >= p THEN <<s, c.h[i][2] + 1>> ELSE c.h[i]]]
Erase(c, s, p) ==
  [q |-> [c.q EXCEPT ![s + 1] = Cut(At(c, s), p, p + 1)],
   h |-> [i \in 1..H |-> IF c.h[i] = <<s, p>> THEN None
                         ELSE IF c.h[i][1] = s /\ c.h[i][2] > p THEN <<s, c.h[i][2] - 1>> ELSE c.h[i]]]
\* clear invalidates the element iterators, not end()
Clear(c, s) ==
  [q |-> [c.q EXCEPT ![s + 1] = <<>>],
   h |-> [i \in 1..H |-> IF c.h[i][1] = s THEN (IF c.h[i][2] = N(c, s) THEN <<s, 0>> ELSE None) ELSE c.h[i]]]
\* views: 0 ++begin 1 const ++ 2 cbegin++ 3 --end 4 const end-- 5 range-for
\*        6 reverse_iterator 7 const range-for 8 const reverse_iterator
\*        9 - 12 iterator, const_iterator: ++, --, ++ and -- with what they give back, 13 cend--
Backwards == {3, 4, 6, 8, 10, 12, 13}

Do(c, op, a) ==
  LET s == a[1]
      hs == c.h[a[1] + 1]     \* for the calls whose first argument is a held iterator
  IN
  CASE op = "make"       -> R0(New(c, s, <<>>))
    \* insert variants a[4]: 0 const& 1 && 2 emplace; result: distance of the
    \* returned iterator and the value it designates
    [] op = "insert"     -> R(Insert(c, s, a[2], a[3]), <<a[2], a[3]>>)
    [] op = "insert_own" -> R(Insert(c, s, a[2], At(c, s)[a[3] + 1]), <<a[2], At(c, s)[a[3] + 1]>>)
    [] op = "insert_at"  -> R(Insert(c, hs[1], hs[2], a[2]), <<hs[2], a[2]>>)
    \* insert and keep the iterator returned as held iterator a[4]
    [] op = "insert_keep" -> R0(SetH(Insert(c, s, a[2], a[3]), a[4], <<s, a[2]>>))
    [] op = "erase"      -> R(Erase(c, s, a[2]), <<a[2]>>)
    [] op = "erase_keep" -> R0(SetH(Erase(c, s, a[2]), a[3], <<s, a[2]>>))
    [] op = "erase_at"   -> R(Erase(c, hs[1], hs[2]), <<hs[2]>>)
    [] op = "push_back"  -> R0(Insert(c, s, N(c, s), a[2]))
    [] op = "push_front" -> R0(Insert(c, s, 0, a[2]))
    \* emplace returns a reference: the value, and whether it is that element
    [] op = "emplace_back"  -> R(Insert(c, s, N(c, s), a[2]), <<a[2], 1>>)
    [] op = "emplace_front" -> R(Insert(c, s, 0, a[2]), <<a[2], 1>>)
    [] op = "push_back_own"  -> R0(Insert(c, s, N(c, s), At(c, s)[a[2] + 1]))
    [] op = "push_front_own" -> R0(Insert(c, s, 0, At(c, s)[a[2] + 1]))
    [] op = "pop_back"   -> R0(Erase(c, s, N(c, s) - 1))
    [] op = "pop_front"  -> R0(Erase(c, s, 0))
    [] op = "clear"      -> R0(Clear(c, s))
    [] op = "set"        -> R0(SetQ(c, s, [At(c, s) EXCEPT ![a[2] + 1] = a[3]]))
    [] op = "set_end"    -> R0(SetQ(c, s, [At(c, s) EXCEPT ![IF a[2] = 0 THEN 1 ELSE N(c, s)] = a[3]]))
    [] op = "set_at"     -> R0(SetQ(c, hs[1], [At(c, hs[1]) EXCEPT ![hs[2] + 1] = a[2]]))
    [] op = "ends"       -> LET q == At(c, s) IN R(c, <<q[1], Last1(q), q[1], Last1(q)>>)
    [] op = "view"       -> R(c, Views(At(c, s), a[2], 14, Backwards))
    \* whether the iterators at positions i and j compare equal (== and !=)
    [] op = "same"       -> R(c, <<B(a[2] = a[3]), B(a[2] = a[3]), B(a[2] = a[3])>>)
    [] op = "hold"       -> R0(SetH(c, a[1], <<a[2], a[3]>>))
    [] op = "drop"       -> R0(SetH(c, a[1], None))
    [] op = "next"       -> R0(SetH(c, a[1], <<hs[1], hs[2] + 1>>))
    [] op = "prev"       -> R0(SetH(c, a[1], <<hs[1], hs[2] - 1>>))
    [] op = "copy"       -> R0(New(c, s, At(c, a[2])))
    [] op = "assign"     -> R0(New(c, s, At(c, a[2])))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0(New(New(c, s, At(c, a[2])), a[2], <<>>))
    [] OTHER             -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Hs    == 0..(H - 1)
Grow(c)   == {s \in Slots : N(c, s) < MaxLen}
Some(c)   == {s \in Slots : N(c, s) > 0}
Idx(c, s) == 0..(N(c, s) - 1)
Pos(c, s) == 0..N(c, s)
Act_(c, i) == c.h[i + 1] # None
OnEl(c, i) == Act_(c, i) /\ c.h[i + 1][2] < N(c, c.h[i + 1][1])
Edit(c) ==
       UNION {{<<"insert", s, p, v, k>> : p \in Pos(c, s), v \in Vals, k \in 0..2} : s \in Grow(c)}
  \cup UNION {{<<"erase", s, p>> : p \in Idx(c, s)} : s \in Slots}
  \cup {<<op, s, v, k>> : op \in {"push_back", "push_front"}, s \in Grow(c), v \in Vals, k \in 0..1}
  \cup {<<op, s>> : op \in {"pop_back", "pop_front"}, s \in Some(c)}
  \cup {<<"clear", s>> : s \in Slots}
Held_(c) ==
       UNION {{<<"insert_keep", s, p, v, i, k>> : p \in Pos(c, s), v \in Vals, i \in Hs, k \in {0, 2}} : s \in Grow(c)}
  \cup UNION {{<<"erase_keep", s, p, i>> : p \in Idx(c, s), i \in Hs} : s \in Slots}
  \cup {<<"insert_at", i, v, k>> : i \in {x \in Hs : Act_(c, x) /\ c.h[x + 1][1] \in Grow(c)}, v \in Vals, k \in 0..2}
  \cup {<<op, i>> : op \in {"erase_at", "next"}, i \in {x \in Hs : OnEl(c, x)}}
  \cup {<<"set_at", i, v>> : i \in {x \in Hs : OnEl(c, x)}, v \in Vals}
  \cup {<<"prev", i>> : i \in {x \in Hs : Act_(c, x) /\ c.h[x + 1][2] > 0}}
  \cup UNION {{<<"hold", i, s, p>> : i \in Hs, p \in Pos(c, s)} : s \in Slots}
  \cup {<<"drop", i>> : i \in Hs}
More(c) ==
       UNION {{<<"insert_own", s, p, j, k>> : p \in Pos(c, s), j \in Idx(c, s), k \in {0, 2}} : s \in Grow(c)}
  \cup {<<op, s, v>> : op \in {"emplace_back", "emplace_front"}, s \in Grow(c), v \in Vals}
  \cup UNION {{<<op, s, j>> : op \in {"push_back_own", "push_front_own"}, j \in Idx(c, s)} : s \in Grow(c)}
  \cup UNION {{<<"set", s, p, v>> : p \in Idx(c, s), v \in Vals} : s \in Slots}
  \cup {<<"set_end", s, k, v>> : s \in Some(c), k \in 0..1, v \in Vals}
  \cup {<<"ends", s>> : s \in Some(c)}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..14}
  \cup UNION {{<<"same", s, i, j>> : i \in Pos(c, s), j \in Pos(c, s)} : s \in Slots}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<"assign", s, t>> : s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Edit(c) \cup More(c)
    [] Group = "held"    -> Edit(c) \cup Held_(c)
    [] Group = "objects" -> Objects(c) \cup {l \in Edit(c) : l[1] \notin {"insert"}}
    [] OTHER             -> Edit(c) \cup More(c) \cup Held_(c) \cup Objects(c)

Inv(c) == /\ \A i \in 1..H : c.h[i] = None \/ (c.h[i][1] \in Slots /\ c.h[i][2] \in Pos(c, c.h[i][1]))
          /\ \A s \in Slots : N(c, s) <= MaxLen /\ \A j \in 1..N(c, s) : At(c, s)[j] \in Vals
Readers == {"ends", "view", "same"}
\* an iterator that is still held designates an element of the value it designated before

Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ op \in {"insert", "push_front", "push_back"} =>
       /\ N(d, a[1]) = N(c, a[1]) + 1
       /\ \A i \in 1..H : c.h[i] # None => (d.h[i] # None /\ Held(d, i)[3] = Held(c, i)[3])
  /\ op = "insert" => Erase(d, a[1], a[2]) = c
  /\ op \in {"erase", "pop_back", "pop_front"} =>
       \A i \in 1..H : d.h[i] # None => Held(d, i)[3] = Held(c, i)[3]
  /\ \A t \in Slots : (op \notin {"hold", "drop", "next", "prev", "set_at", "insert_at", "erase_at", "take", "mtake"} /\ t # a[1])
       => (At(d, t) = At(c, t) /\ \A i \in 1..H : c.h[i][1] = t => (d.h[i] = c.h[i] \/ op \in {"insert_keep", "erase_keep"}))
=============================================================================
