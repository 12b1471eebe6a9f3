-------------------------------- MODULE FList ---------------------------------
(* cest::forward_list: K objects, each the mathematical sequence of its      *)
(* elements, and H held iterators (C06, C13).  A position is -1 for          *)
(* before_begin, 0 .. n-1 for an element.  Element iterators stay with their *)
(* element (also through swap), before_begin stays with its object.          *)
EXTENDS SeqLib
CONSTANTS K, H, Vals, MaxLen, Group

None  == <<-1, -9>>
Init0 == [q |-> [s \in 1..K |-> <<>>], h |-> [i \in 1..H |-> None]]
At(c, s) == c.q[s + 1]
N(c, s)  == Len(At(c, s))
Held(c, i) == LET x == c.h[i] IN
              IF x = None THEN <<-1, -9, -1>>
              ELSE <<x[1], x[2], IF x[2] >= 0 THEN At(c, x[1])[x[2] + 1] ELSE -1>>
RECURSIVE HeldAll(_, _)
HeldAll(c, i) == IF i > H THEN <<>> ELSE Held(c, i) \o HeldAll(c, i + 1)
Obs(c) == Flat(c.q) \o HeldAll(c, 1)

R0(c)    == {<<c, <<>>>>}
R(c, r)  == {<<c, r>>}
SetQ(c, s, q) == [c EXCEPT !.q[s + 1] = q]
SetH(c, i, x) == [c EXCEPT !.h[i + 1] = x]
\* the object was given other elements: the element iterators are gone
DropEl(c, s)  == [c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] >= 0 THEN None ELSE c.h[i]]]
Drop(c, s)    == [c EXCEPT !.h = [i \in 1..H |-> IF c.h[i][1] = s THEN None ELSE c.h[i]]]
\* insert after position p: the new element is at p + 1
Insert(c, s, p, v) ==
  [q |-> [c.q EXCEPT ![s + 1] = Ins(At(c, s), p + 1, v)],
   h |-> [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] > p THEN <<s, c.h[i][2] + 1>> ELSE c.h[i]]]
\* erase the positions strictly between p and l
EraseR(c, s, p, l) ==
  [q |-> [c.q EXCEPT ![s + 1] = Cut(At(c, s), p + 1, l)],
   h |-> [i \in 1..H |-> IF c.h[i][1] = s /\ c.h[i][2] > p
                         THEN IF c.h[i][2] < l THEN None ELSE <<s, c.h[i][2] - (l - p - 1)>>
                         ELSE c.h[i]]]
Swap(c, s, t) ==
  [q |-> [c.q EXCEPT ![s + 1] = At(c, t), ![t + 1] = At(c, s)],
   h |-> [i \in 1..H |-> IF c.h[i][2] < 0 THEN c.h[i]
                         ELSE IF c.h[i][1] = s THEN <<t, c.h[i][2]>>
                         ELSE IF c.h[i][1] = t THEN <<s, c.h[i][2]>> ELSE c.h[i]]]
\* the iterator returned: its position (length = end), the value there
Ret(c, s, p) == <<p, IF p < N(c, s) THEN At(c, s)[p + 1] ELSE -1>>

Do(c, op, a) ==
  LET s == a[1]
      hs == c.h[a[1] + 1]
  IN
  CASE op = "make"         -> R0([Drop(c, s) EXCEPT !.q[s + 1] = <<>>])
    [] op = "insert"       -> LET d == Insert(c, s, a[2], a[3]) IN R(d, Ret(d, s, a[2] + 1))
    [] op = "insert_own"   -> LET d == Insert(c, s, a[2], At(c, s)[a[3] + 1]) IN R(d, Ret(d, s, a[2] + 1))
    [] op = "insert_at"    -> LET d == Insert(c, hs[1], hs[2], a[2]) IN R(d, Ret(d, hs[1], hs[2] + 1))
    [] op = "insert_keep"  -> R0(SetH(Insert(c, s, a[2], a[3]), a[4], <<s, a[2] + 1>>))
    [] op = "erase"        -> LET d == EraseR(c, s, a[2], a[2] + 2) IN R(d, Ret(d, s, a[2] + 1))
    [] op = "erase_range"  -> LET d == EraseR(c, s, a[2], a[3]) IN R(d, Ret(d, s, a[2] + 1))
    [] op = "erase_at"     -> LET d == EraseR(c, hs[1], hs[2], hs[2] + 2) IN R(d, Ret(d, hs[1], hs[2] + 1))
    \* erase everything behind the held iterator
    [] op = "erase_tail"   -> LET d == EraseR(c, hs[1], hs[2], N(c, hs[1])) IN R(d, Ret(d, hs[1], hs[2] + 1))
    [] op = "push_front"   -> R0(Insert(c, s, -1, a[2]))
    [] op = "push_front_own" -> R0(Insert(c, s, -1, At(c, s)[a[2] + 1]))
    [] op = "pop_front"    -> R0(EraseR(c, s, -1, 1))
    [] op = "clear"        -> R0(EraseR(c, s, -1, N(c, s)))
    [] op = "set"          -> R0(SetQ(c, s, [At(c, s) EXCEPT ![a[2] + 1] = a[3]]))
    [] op = "set_front"    -> R0(SetQ(c, s, [At(c, s) EXCEPT ![1] = a[2]]))
    [] op = "set_at"       -> R0(SetQ(c, hs[1], [At(c, hs[1]) EXCEPT ![hs[2] + 1] = a[2]]))
    [] op = "front"        -> R(c, <<At(c, s)[1], At(c, s)[1]>>)
    [] op = "view"         -> R(c, Views(At(c, s), a[2], 7, {}))
    [] op = "same"         -> R(c, <<B(a[2] = a[3]), B(a[2] = a[3]), B(a[2] = a[3])>>)
    [] op = "hold"         -> R0(SetH(c, a[1], <<a[2], a[3]>>))
    [] op = "drop"         -> R0(SetH(c, a[1], None))
    [] op = "next"         -> R0(SetH(c, a[1], <<hs[1], hs[2] + 1>>))
    [] op = "copy"         -> R0([Drop(c, s) EXCEPT !.q[s + 1] = At(c, a[2])])
    [] op = "assign"       -> R0([DropEl(c, s) EXCEPT !.q[s + 1] = At(c, a[2])])
    [] op = "swap"         -> R0(Swap(c, a[1], a[2]))
    \* construct (take) or assign (mtake) from an rvalue; the source is then valid
    \* but unspecified, and the client clears it
    [] op \in {"take", "mtake"} -> R0([Drop(Drop(c, s), a[2]) EXCEPT !.q[s + 1] = At(c, a[2]), !.q[a[2] + 1] = <<>>])
    [] OTHER               -> {}

-----------------------------------------------------------------------------
Slots == 0..(K - 1)
Hs    == 0..(H - 1)
Grow(c)   == {s \in Slots : N(c, s) < MaxLen}
Some(c)   == {s \in Slots : N(c, s) > 0}
Idx(c, s) == 0..(N(c, s) - 1)
Before(c, s) == -1..(N(c, s) - 1)       \* positions one can insert after
Act_(c, i)  == c.h[i + 1] # None
Edit(c) ==
       UNION {{<<"insert", s, p, v, k>> : p \in Before(c, s), v \in Vals, k \in 0..1} : s \in Grow(c)}
  \cup UNION {{<<"erase", s, p>> : p \in -1..(N(c, s) - 2)} : s \in Slots}
  \cup UNION {UNION {{<<"erase_range", s, p, l>> : l \in (p + 1)..N(c, s)} : p \in Before(c, s)} : s \in Slots}
  \cup {<<"push_front", s, v, k>> : s \in Grow(c), v \in Vals, k \in 0..1}
  \cup {<<"pop_front", s>> : s \in Some(c)}
  \cup {<<"clear", s>> : s \in Slots}
Held_(c) ==
       UNION {{<<"insert_keep", s, p, v, i>> : p \in Before(c, s), v \in Vals, i \in Hs} : s \in Grow(c)}
  \cup {<<"insert_at", i, v, k>> : i \in {x \in Hs : Act_(c, x) /\ c.h[x + 1][1] \in Grow(c)}, v \in Vals, k \in 0..1}
  \cup {<<op, i>> : op \in {"erase_at", "next"}, i \in {x \in Hs : Act_(c, x) /\ c.h[x + 1][2] + 1 < N(c, c.h[x + 1][1])}}
  \cup {<<"erase_tail", i>> : i \in {x \in Hs : Act_(c, x)}}
  \cup {<<"set_at", i, v>> : i \in {x \in Hs : Act_(c, x) /\ c.h[x + 1][2] >= 0}, v \in Vals}
  \cup UNION {{<<"hold", i, s, p>> : i \in Hs, p \in Before(c, s)} : s \in Slots}
  \cup {<<"drop", i>> : i \in Hs}
More(c) ==
       UNION {{<<"insert_own", s, p, j>> : p \in Before(c, s), j \in Idx(c, s)} : s \in Grow(c)}
  \cup UNION {{<<"push_front_own", s, j>> : j \in Idx(c, s)} : s \in Grow(c)}
  \cup UNION {{<<"set", s, p, v>> : p \in Idx(c, s), v \in Vals} : s \in Slots}
  \cup {<<"set_front", s, v>> : s \in Some(c), v \in Vals}
  \cup {<<"front", s>> : s \in Some(c)}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..7}
  \cup UNION {{<<"same", s, i, j>> : i \in 0..N(c, s), j \in 0..N(c, s)} : s \in Slots}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : op \in {"copy", "take", "mtake"}, p \in {x \in Slots \X Slots : x[1] # x[2]}}
  \cup {<<op, s, t>> : op \in {"assign", "swap"}, s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Edit(c) \cup More(c)
    [] Group = "held"    -> Edit(c) \cup Held_(c)
    [] OTHER             -> Edit(c) \cup More(c) \cup Held_(c) \cup Objects(c)

Inv(c) == /\ \A i \in 1..H : c.h[i] = None \/ (c.h[i][1] \in Slots /\ c.h[i][2] \in Before(c, c.h[i][1]))
          /\ \A s \in Slots : N(c, s) <= MaxLen /\ \A j \in 1..N(c, s) : At(c, s)[j] \in Vals
Readers == {"front", "view", "same"}
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ op \in {"insert", "push_front"} =>
       \A i \in 1..H : c.h[i] # None => (d.h[i] # None /\ Held(d, i)[3] = Held(c, i)[3])
  /\ op = "insert" => EraseR(d, a[1], a[2], a[2] + 2) = c
  /\ op \in {"erase", "erase_range", "pop_front", "swap"} =>
       \A i \in 1..H : d.h[i] # None => Held(d, i)[3] = Held(c, i)[3]
  /\ op = "swap" => Swap(d, a[1], a[2]) = c
=============================================================================
