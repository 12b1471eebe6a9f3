-------------------------------- MODULE Vector --------------------------------
(* cest::vector: K vector objects, each the mathematical sequence of its     *)
(* elements (C01, C13).  Slots, indices and positions are 0-based as in C++. *)
EXTENDS SeqLib
CONSTANTS K, Vals, MaxLen, Group   \* bounds and operation group for Acts

Init0 == [s \in 1..K |-> <<>>]
Obs(c) == Flat(c)

At(c, s)     == c[s + 1]
Put(c, s, q) == [c EXCEPT ![s + 1] = q]
R0(c)        == {<<c, <<>>>>}
R(c, r)      == {<<c, r>>}

PushBack(c, s, v)     == R0(Put(c, s, Append(At(c, s), v)))
PushOwn(c, s, i)      == PushBack(c, s, At(c, s)[i + 1])
PopBack(c, s)         == R0(Put(c, s, Front1(At(c, s))))
Resize(c, s, n)       == LET q == At(c, s) IN
                         R0(Put(c, s, IF n <= Len(q) THEN SubSeq(q, 1, n)
                                      ELSE q \o Rep(n - Len(q), 0)))
\* returns the offset of the iterator handed back
Erase(c, s, i, j)     == R(Put(c, s, Cut(At(c, s), i, j)), <<i>>)
Write(c, s, i, v)     == R0(Put(c, s, [At(c, s) EXCEPT ![i + 1] = v]))
\* at: <<1, value>>, or <<0>> for out_of_range
Get(c, s, i)          == IF i < Len(At(c, s)) THEN <<1, At(c, s)[i + 1]>> ELSE <<0>>
\* views: 0 begin/end 1 const begin/end 2 cbegin/cend 3 data 4 const data
\*        5 rbegin/rend 6 const rbegin/rend 7 at 8 const index 9 range-for
ReadAll(c, s, k)      == R(c, Views(At(c, s), k, 10, {5, 6}))
Copy(c, s, t)         == R0(Put(c, s, At(c, t)))
\* a moved-from vector is valid but unspecified: empty, or it took over
\* the former content of the target
MoveAssign(c, s, t)   == {<<Put(Put(c, t, x), s, At(c, t)), <<>>>> : x \in {<<>>, At(c, s)}}
MoveNew(c, s, t)      == R0(Put(Put(c, t, <<>>), s, At(c, t)))
Swap(c, s, t)         == R0(Put(Put(c, s, At(c, t)), t, At(c, s)))

Do(c, op, a) ==
  CASE op = "make"     -> R0(Put(c, a[1], <<>>))
    [] op = "make_n"   -> R0(Put(c, a[1], Rep(a[2], 0)))
    [] op = "make_il"  -> R0(Put(c, a[1], Tail(a)))
    [] op = "push"     -> PushBack(c, a[1], a[2])
    [] op = "push_mv"  -> PushBack(c, a[1], a[2])
    [] op = "push_own" -> PushOwn(c, a[1], a[2])
    [] op = "pop"      -> PopBack(c, a[1])
    [] op = "resize"   -> Resize(c, a[1], a[2])
    [] op = "reserve"  -> R0(c)
    [] op = "clear"    -> R0(Put(c, a[1], <<>>))
    [] op = "erase"    -> Erase(c, a[1], a[2], a[3])
    [] op = "set"      -> Write(c, a[1], a[2], a[3])
    [] op = "set_it"   -> Write(c, a[1], a[2], a[3])
    [] op = "set_end"  -> Write(c, a[1], IF a[2] = 0 THEN 0 ELSE Len(At(c, a[1])) - 1, a[3])
    [] op = "at"       -> R(c, Get(c, a[1], a[2]))
    [] op = "cat"      -> R(c, Get(c, a[1], a[2]))
    [] op = "set_at"   -> IF a[2] < Len(At(c, a[1]))
                          THEN {<<o[1], <<1>>>> : o \in Write(c, a[1], a[2], a[3])}
                          ELSE R(c, <<0>>)
    \* an index out of all proportion: refused by all three
    [] op = "at_far"   -> R(c, <<0, 0, 0>>)
    [] op = "ends"     -> LET q == At(c, a[1]) IN R(c, <<q[1], Last1(q), q[1], Last1(q)>>)
    [] op = "view"     -> ReadAll(c, a[1], a[2])
    [] op = "copy"     -> Copy(c, a[1], a[2])
    [] op = "move_new" -> MoveNew(c, a[1], a[2])
    [] op = "assign"   -> Copy(c, a[1], a[2])
    [] op = "massign"  -> MoveAssign(c, a[1], a[2])
    [] op = "swap"     -> Swap(c, a[1], a[2])
    [] op = "eq"       -> R(c, <<B(At(c, a[1]) = At(c, a[2]))>>)
    [] OTHER           -> {}

-----------------------------------------------------------------------------
(* The calls explored exhaustively, within the bounds.                       *)
Slots == 0..(K - 1)
Other == {<<s, t>> \in Slots \X Slots : s # t}
Grow(c, n) == {s \in Slots : Len(At(c, s)) + n <= MaxLen}
Content(c) ==
       {<<"push", s, v>> : s \in Grow(c, 1), v \in Vals}
  \cup {<<"push_mv", s, v>> : s \in Grow(c, 1), v \in Vals}
  \cup UNION {{<<"push_own", s, i>> : i \in 0..(Len(At(c, s)) - 1)} : s \in Grow(c, 1)}
  \cup {<<"pop", s>> : s \in {x \in Slots : At(c, x) # <<>>}}
  \cup {<<"resize", s, n>> : s \in Slots, n \in 0..MaxLen}
  \cup {<<"reserve", s, n>> : s \in Slots, n \in {1, MaxLen + 1}}
  \cup {<<"clear", s>> : s \in Slots}
  \cup UNION {UNION {{<<"erase", s, i, j>> : i \in 0..j} : j \in 0..Len(At(c, s))} : s \in Slots}
  \cup UNION {{<<"set", s, i, v>> : i \in 0..(Len(At(c, s)) - 1)} : s \in Slots, v \in Vals}
  \cup UNION {{<<"set_it", s, i, v>> : i \in 0..(Len(At(c, s)) - 1)} : s \in Slots, v \in Vals}
  \cup {<<"set_end", s, k, v>> : s \in {x \in Slots : At(c, x) # <<>>}, k \in 0..1, v \in Vals}
  \cup UNION {{<<op, s, i>> : i \in 0..(Len(At(c, s)) + 1)} : s \in Slots, op \in {"at", "cat"}}
  \cup UNION {{<<"set_at", s, i, v>> : i \in 0..(Len(At(c, s)) + 1)} : s \in Slots, v \in Vals}
  \cup {<<"at_far", s, i, w>> : s \in Slots, i \in {0, 1, 7}, w \in 0..5}
  \cup {<<"ends", s>> : s \in {x \in Slots : At(c, x) # <<>>}}
  \cup {<<"view", s, k>> : s \in Slots, k \in 0..10}
  \cup {<<"make_n", s, n>> : s \in Slots, n \in 0..MaxLen}
  \cup UNION {{<<"make_il", s>> \o q : q \in SeqsUpTo(Vals, Min2(3, MaxLen))} : s \in Slots}
Objects(c) ==
       {<<"make", s>> : s \in Slots}
  \cup {<<op, p[1], p[2]>> : p \in Other, op \in {"copy", "move_new", "assign", "massign", "swap"}}
  \cup {<<op, s, s>> : op \in {"assign", "swap"}, s \in Slots}
  \cup {<<"eq", s, t>> : s \in Slots, t \in Slots}
Acts(c) ==
  CASE Group = "content" -> Content(c)
    [] Group = "objects" -> Objects(c) \cup
         {l \in Content(c) : l[1] \in {"push", "pop", "clear", "resize", "set"}}
    [] OTHER -> Content(c) \cup Objects(c)

-----------------------------------------------------------------------------
(* Properties of the specification itself.                                   *)
Inv(c) == \A s \in Slots : \A i \in 1..Len(At(c, s)) : At(c, s)[i] \in Vals \cup {0}
Readers == {"at", "cat", "at_far", "ends", "view", "eq", "reserve"}
\* readers change nothing; every other call changes only the objects it names
Step(c, op, a, r, d) ==
  /\ op \in Readers => d = c
  /\ \A s \in Slots : (s # a[1] /\ ~(op \in {"move_new", "massign", "swap"} /\ s = a[2])) => At(d, s) = At(c, s)
  /\ op = "push" => Len(At(d, a[1])) = Len(At(c, a[1])) + 1
  /\ op = "swap" => Do(d, "swap", a) = {<<c, <<>>>>}
=============================================================================
